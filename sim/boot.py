"""
Puts the seams in place and then imports the code under test, from /repo/src of this moment.

Must be the first thing imported by anything that runs simulations. After this module is loaded time,
datetime, os, fcntl, open, os.urandom, uuid and the locks used by oidcmsg, cryptojwt and filelock belong to
the simulator whenever a simulation is active (core.SIM is set). Without one they're the real thing.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'


def reexec():
    """Fixed hash seed, right interpreter"""
    if os.environ.get('VERIF_BOOTED') == '1':
        return
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = env.get('VERIF_HASHSEED', '0')
    env['VERIF_BOOTED'] = '1'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.setdefault('SQLALCHEMY_SILENCE_UBER_WARNING', '1')
    os.execve(VENV_PY, [VENV_PY, '-W', 'ignore'] + sys.argv, env)


# Things that keep their own references to the real clock and that are not part of what is simulated
import _thread  # noqa: E402
import asyncio  # noqa: E402,F401
import calendar  # noqa: E402,F401
import collections  # noqa: E402,F401
import ctypes  # noqa: E402,F401
import datetime as dt_mod  # noqa: E402
import decimal  # noqa: E402,F401
import email.utils  # noqa: E402,F401
import gc  # noqa: E402
import json  # noqa: E402,F401
import linecache  # noqa: E402,F401
import logging  # noqa: E402
import multiprocessing  # noqa: E402,F401
import pathlib  # noqa: E402,F401
import random  # noqa: E402
import secrets  # noqa: E402
import shutil  # noqa: E402,F401
import signal  # noqa: E402,F401
import sqlite3  # noqa: E402,F401
import subprocess  # noqa: E402,F401
import tempfile  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402,F401
import uuid  # noqa: E402
import warnings  # noqa: E402
import _strptime  # noqa: E402,F401

warnings.simplefilter('ignore')

import cryptography.hazmat.primitives.asymmetric.ec  # noqa: E402,F401
import cryptography.hazmat.primitives.asymmetric.padding  # noqa: E402,F401
import cryptography.hazmat.primitives.asymmetric.rsa  # noqa: E402,F401
import cryptography.x509  # noqa: E402,F401
import requests  # noqa: E402,F401
import sqlalchemy  # noqa: E402,F401
import sqlalchemy.dialects.sqlite  # noqa: E402,F401
import sqlalchemy.ext.declarative  # noqa: E402,F401
import sqlalchemy.orm  # noqa: E402,F401

from . import core  # noqa: E402
from . import vfs  # noqa: E402

REAL = {
    'time': time.time, 'time_ns': time.time_ns, 'monotonic': time.monotonic,
    'monotonic_ns': time.monotonic_ns, 'perf_counter': time.perf_counter,
    'perf_counter_ns': time.perf_counter_ns, 'sleep': time.sleep, 'gmtime': time.gmtime,
    'localtime': time.localtime, 'strftime': time.strftime, 'ctime': time.ctime,
    'asctime': time.asctime, 'urandom': os.urandom, 'Lock': threading.Lock, 'RLock': threading.RLock,
    'datetime': dt_mod.datetime, 'date': dt_mod.date, 'getpid': os.getpid,
    'get_native_id': threading.get_native_id,
}

# ---------------------------------------------------------------- clock


def s_time():
    sim = core.SIM
    if sim is None:
        return REAL['time']()
    sim.probe('clock-read')
    return sim.clock_ns() / 1e9


def s_time_ns():
    sim = core.SIM
    return REAL['time_ns']() if sim is None else sim.clock_ns()


def s_mono():
    sim = core.SIM
    return REAL['monotonic']() if sim is None else sim.mono_ns / 1e9


def s_mono_ns():
    sim = core.SIM
    return REAL['monotonic_ns']() if sim is None else sim.mono_ns


def s_perf():
    sim = core.SIM
    return REAL['perf_counter']() if sim is None else sim.mono_ns / 1e9


def s_perf_ns():
    sim = core.SIM
    return REAL['perf_counter_ns']() if sim is None else sim.mono_ns


def s_sleep(seconds):
    sim = core.SIM
    if sim is None:
        return REAL['sleep'](seconds)
    if seconds < 0:
        raise ValueError('sleep length must be non-negative')
    sim.sleep(seconds)


def _secs(seconds):
    if seconds is None and core.SIM is not None:
        return s_time()
    return seconds


def s_gmtime(seconds=None):
    return REAL['gmtime'](_secs(seconds))


def s_localtime(seconds=None):
    return REAL['localtime'](_secs(seconds))


def s_ctime(seconds=None):
    return REAL['ctime'](_secs(seconds))


def s_asctime(t=None):
    return REAL['asctime'](s_localtime() if t is None else t)


def s_strftime(fmt, t=None):
    return REAL['strftime'](fmt, s_localtime() if t is None else t)


_RD = dt_mod.datetime


class _DTMeta(type(_RD)):
    def __instancecheck__(cls, obj):
        if cls is SimDatetime:
            return isinstance(obj, _RD)
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SimDatetime:
            return issubclass(sub, _RD)
        return type.__subclasscheck__(cls, sub)


class SimDatetime(_RD, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        if core.SIM is None:
            return _RD.now(tz)
        ns = core.SIM.clock_ns()
        return _RD.fromtimestamp(ns // 10 ** 9, tz).replace(microsecond=ns % 10 ** 9 // 1000)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        if core.SIM is None:
            return _RD.now(dt_mod.timezone.utc).replace(tzinfo=None)
        return cls.now(dt_mod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return _RD.fromtimestamp(t, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        return _RD.fromtimestamp(t, dt_mod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def strptime(cls, *args):
        return _RD.strptime(*args)

    @classmethod
    def combine(cls, *args, **kwargs):
        return _RD.combine(*args, **kwargs)

    @classmethod
    def fromisoformat(cls, *args):
        return _RD.fromisoformat(*args)

    def __new__(cls, *args, **kwargs):
        return _RD(*args, **kwargs)


_RDate = dt_mod.date


class _DMeta(type(_RDate)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RDate)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _RDate)


class SimDate(_RDate, metaclass=_DMeta):
    def __new__(cls, *args, **kwargs):
        return _RDate(*args, **kwargs)

    @classmethod
    def today(cls):
        return _RDate.today() if core.SIM is None else SimDatetime.now().date()

    @classmethod
    def fromtimestamp(cls, t):
        return _RDate.fromtimestamp(t)


# ---------------------------------------------------------------- randomness

def s_urandom(n):
    sim = core.SIM
    return REAL['urandom'](n) if sim is None else sim.urandom(n)


class SimSystemRandom(random.Random):
    """random.SystemRandom on top of the simulator's generator"""

    def random(self):
        return (int.from_bytes(s_urandom(7), 'big') >> 3) * 2 ** -53

    def getrandbits(self, k):
        nb = (k + 7) // 8
        return int.from_bytes(s_urandom(nb), 'big') >> (nb * 8 - k)

    def randbytes(self, n):
        return s_urandom(n)

    def seed(self, *args, **kwargs):
        return None


# ---------------------------------------------------------------- locks

class SimLock:
    _reent = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._reent and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            sim = core.SIM
            if sim is None or sim.cur is None:
                raise core.HarnessError('lock held outside of the simulation')
            if timeout is not None and timeout >= 0:
                sim.sleep(timeout)
                if self._owner is not None:
                    return False
                break
            sim.block(cond=lambda: self._owner is None)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self._reent and self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    _reent = True


SIMULATED = ('oidcmsg', 'filelock', 'cryptojwt')


def _simulated_caller():
    name = sys._getframe(2).f_globals.get('__name__', '')
    return name.split('.')[0] in SIMULATED


def s_Lock():
    return SimLock() if _simulated_caller() else REAL['Lock']()


def s_RLock(*args):
    return SimRLock() if _simulated_caller() else REAL['RLock']()


# ---------------------------------------------------------------- who am I

def _number():
    sim = core.SIM
    task = sim.cur
    return 0 if task is None else 1 + sim.tasks.index(task)


def s_getpid():
    sim = core.SIM
    # filelock looks whether this is a copy of the process it was imported by
    if sim is None or not sys._getframe(1).f_globals.get('__name__', '').startswith(('oidcmsg', 'cryptojwt')):
        return REAL['getpid']()
    # started again, a process may well have the number it had before
    return 4000 if sim.one_process else 4000 + _number()


def s_get_ident():
    if core.SIM is None or not sys._getframe(1).f_globals.get('__name__', '').startswith('oidcmsg'):
        return _thread.get_ident()
    return 140000000000000 + 8192 * _number()


def s_get_native_id():
    if core.SIM is None:
        return REAL['get_native_id']()
    return 4000 + _number()


# ---------------------------------------------------------------- put together

def install():
    time.time, time.time_ns = s_time, s_time_ns
    time.monotonic, time.monotonic_ns = s_mono, s_mono_ns
    time.perf_counter, time.perf_counter_ns = s_perf, s_perf_ns
    time.sleep = s_sleep
    time.gmtime, time.localtime = s_gmtime, s_localtime
    time.ctime, time.asctime, time.strftime = s_ctime, s_asctime, s_strftime
    dt_mod.datetime = SimDatetime
    dt_mod.date = SimDate
    os.urandom = s_urandom
    random._urandom = s_urandom
    random.SystemRandom = SimSystemRandom
    secrets._sysrand = SimSystemRandom()
    secrets.SystemRandom = SimSystemRandom
    for n in ('randbits', 'choice'):
        setattr(secrets, n, getattr(secrets._sysrand, 'getrandbits' if n == 'randbits' else n))
    secrets.randbelow = lambda n: secrets._sysrand._randbelow(n)

    def token_bytes(nbytes=None):
        return s_urandom(32 if nbytes is None else nbytes)

    secrets.token_bytes = token_bytes
    secrets.token_hex = lambda nbytes=None: token_bytes(nbytes).hex()

    def token_urlsafe(nbytes=None):
        import base64
        return base64.urlsafe_b64encode(token_bytes(nbytes)).rstrip(b'=').decode('ascii')

    secrets.token_urlsafe = token_urlsafe

    def uuid1(node=None, clock_seq=None):
        return uuid.UUID(bytes=s_urandom(16), version=1)

    def uuid4():
        return uuid.UUID(bytes=s_urandom(16), version=4)

    uuid.uuid1, uuid.uuid4 = uuid1, uuid4

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return s_urandom(4).hex()

    tempfile._RandomNameSequence = Names
    tempfile._get_candidate_names = lambda: Names()
    threading.Lock, threading.RLock = s_Lock, s_RLock
    os.getpid, threading.get_ident, threading.get_native_id = s_getpid, s_get_ident, s_get_native_id
    vfs.install()


install()

gc.disable()
logging.disable(logging.CRITICAL)
sys.unraisablehook = lambda *args: None

import cryptojwt  # noqa: E402
import cryptojwt.jwt  # noqa: E402,F401
import cryptojwt.key_jar  # noqa: E402,F401
import cryptojwt.serialize.item  # noqa: E402,F401
import filelock  # noqa: E402,F401

# The code under test: always compiled from what is in the file now
SRC = os.path.join(REPO, 'src')
for _p in list(sys.path):
    if _p.rstrip('/').endswith('/repo/src'):
        sys.path.remove(_p)
sys.path.insert(0, SRC)
sys.pycache_prefix = '/nonexistent-verif-cache'
import oidcmsg  # noqa: E402

if not os.path.realpath(oidcmsg.__file__).startswith(os.path.realpath(SRC) + '/'):
    raise core.HarnessError('oidcmsg comes from {}'.format(oidcmsg.__file__))

import oidcmsg.context  # noqa: E402,F401
import oidcmsg.message  # noqa: E402,F401
import oidcmsg.oauth2  # noqa: E402,F401
import oidcmsg.oauth2.device_authorization  # noqa: E402,F401
import oidcmsg.oidc  # noqa: E402,F401
import oidcmsg.oidc.identity_assurance  # noqa: E402,F401
import oidcmsg.oidc.session  # noqa: E402,F401
import oidcmsg.storage.abfile  # noqa: E402,F401
import oidcmsg.storage.absqlalchemy  # noqa: E402,F401
import oidcmsg.storage.converter  # noqa: E402,F401
import oidcmsg.storage.db_setup  # noqa: E402,F401
import oidcmsg.storage.extension  # noqa: E402,F401
import oidcmsg.storage.init  # noqa: E402,F401
import oidcmsg.time_util  # noqa: E402,F401

gc.collect()
gc.freeze()
