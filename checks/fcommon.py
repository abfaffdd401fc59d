"""What the checks of the file based storage have in common"""
import json
import os

from sim import vfs
from sim.core import HarnessError
from sim.core import SimCrash
from sim.core import SimStuck
from sim.core import Violation
from sim.lin import ABSENT
from sim.lin import TooHard
from sim.lin import check as linearizable

HANDLER = 'oidcmsg.storage.abfile.AbstractFileSystem'
LHANDLER = 'oidcmsg.storage.abfile.LabeledAbstractFileSystem'
QP = 'oidcmsg.storage.converter.QPKey'
JSON = 'oidcmsg.storage.converter.JSON'
PT = 'oidcmsg.storage.converter.PassThru'

ODD_KEYS = ['', '%', 'a', 'b', 'c', 'key', 'A', 'https://op.example.com/', 'https://op.example.com', 'a/b', '../x',
            '.', '..', '...', 'x.lock', 'x', '.lock', 'a b', 'a+b', 'a%20b', '%2e', 'å', '日本',
            'a\nb', '*', '~', '-', '_', '__a__', 'a:b?c=d&e', 'x.lock.lock', '.hidden', 'q%', '\x00',
            'client_id\tx', ' ', 'x.LOCK', 'x%2Elock', 'lock', 'a.tmp', 'tmp', 'a.lock.x', 'k' * 100]

PLAIN_KEYS = ['a', 'b', 'c', 'd']


def conf(plan, fdir='db'):
    c = {'handler': HANDLER, 'fdir': fdir}
    if plan.get('key_conv'):
        c['key_conv'] = plan['key_conv']
    if plan.get('value_conv'):
        c['value_conv'] = plan['value_conv']
    return c


def open_store(c):
    from oidcmsg.storage.init import storage_factory
    return storage_factory(c)


ALIKE = [1, True, 1.0, 0, False, 0.0, '', '1', 'true', [], {}, [1], [True], {'u': 1}, {'u': 1.0}]


def gen_value(rng, uid, value_conv, size=None, alike=0.0):
    """A value no other operation writes, that survives the converter, or one that is hard to tell from others"""
    if value_conv == JSON and alike and rng.random() < alike:
        return rng.choice(ALIKE)
    if size is None:
        r = rng.random()
        size = 0 if r < 0.6 else rng.randrange(40) if r < 0.9 else rng.randrange(9000, 21000)
    pad = 'x' * size
    if value_conv != JSON:
        return 'v%s.%s%s' % (uid, pad, rng.choice(['', '', 'å', ' z', '\n-\ny', '"']))
    return rng.choice([
        {'u': uid, 'p': pad}, [uid, pad], 'v%s%s' % (uid, pad), {'u': [uid, {'n': None, 'f': 1.5, 't': True}]},
        uid * 1000003 + 7, {'å': uid, '': pad}, [[], {}, uid]])


def gen_conf(rng, plan):
    plan['value_conv'] = rng.choice([JSON, JSON, JSON, PT, ''])
    plan['key_conv'] = rng.choice([QP, QP, ''])


def canon(v):
    """For comparing values, hashable"""
    return json.dumps(v, sort_keys=True)


def same(a, b):
    return type(a) is type(b) and canon(a) == canon(b)


def peek_mtime(env, path):
    st = env.fs.lst(os.path.join(env.fs.root, path))
    return None if st is None else env.fs.inode(st.st_ino)['m']


def advance_past_granularity(env):
    g = env.fs.gran
    env.sim.advance(g - env.sim.now_ns % g if g > 1 else 1)


def real_listing(env, fdir='db'):
    d = os.path.join(env.fs.root, fdir)
    return sorted(vfs.R['os.listdir'](d)) if os.path.isdir(d) else []


def read_all_real(env, name, fdir='db'):
    with vfs.R['open'](os.path.join(env.fs.root, fdir, name), 'rb') as fp:
        return fp.read()


class Recorder:
    """History of operations on one store, by several tasks"""

    def __init__(self, sim, keys):
        self.sim = sim
        self.keys = list(keys)
        self.ops = []  # [inv, ret, kind, key, arg]
        self.lens = []
        self.pending = []

    def call(self, kind, key, arg=None):
        rec = [self.sim.event('call', kind, key, canon(arg)), None, kind, key, arg]
        self.ops.append(rec)
        return rec

    def ret(self, rec, result=None):
        rec[1] = self.sim.event('ret', rec[2], rec[3], canon(result))
        return rec[1]


def val(v):
    return ABSENT if v is ABSENT else canon(v)


def perform(op, store, rec, key_list):
    """
    Carry out an operation and add what it did to the history. The exceptions that are part of the interface
    are dealt with here, others are passed on.
    Entries in rec.ops of the kinds that lin.check knows about.
    """
    o = op['o']
    k = op.get('k')
    if o == 'set':
        r = rec.call('w', k, op['v'])
        store[k] = op['v']
        rec.ret(r)
    elif o == 'del':
        r = rec.call('w', k, ABSENT)
        del store[k]
        rec.ret(r)
    elif o == 'update':
        rs = [rec.call('w', kk, vv) for kk, vv in op['kv']]
        store.update({kk: vv for kk, vv in op['kv']})
        for r in rs:
            rec.ret(r)
    elif o == 'clear':
        rs = [rec.call('w', kk, ABSENT) for kk in key_list]
        store.clear()
        for r in rs:
            rec.ret(r)
    elif o == 'get':
        r = rec.call('r', k)
        res = store.get(k, None)
        r[4] = ABSENT if res is None else res
        rec.ret(r, r[4])
    elif o == 'getitem':
        r = rec.call('r', k)
        try:
            r[4] = store[k]
        except KeyError:
            r[4] = ABSENT
        rec.ret(r, r[4])
    elif o == 'in':
        r = rec.call('p', k)
        r[4] = k in store
        rec.ret(r, r[4])
    elif o in ('keys', 'call'):
        rs = [rec.call('p', kk) for kk in key_list]
        res = list(store.keys()) if o == 'keys' else list(store())
        listing(res, rs, rec)
    elif o in ('items', 'iter'):
        rs = [rec.call('r', kk) for kk in key_list]
        pairs = list(store.items()) if o == 'items' else list(iter(store))
        listing([p[0] for p in pairs], rs, rec)
        d = dict(pairs)
        for r in rs:
            r[4] = d.get(r[3], ABSENT)
    elif o == 'len':
        inv = rec.sim.event('call', 'len')
        n = len(store)
        rec.lens.append((inv, rec.sim.event('ret', 'len', n), n))
    else:
        raise HarnessError('unknown operation %s' % o)


def listing(names, rs, rec):
    if len(set(names)) != len(names):
        raise Violation('listing', 'a key is listed twice: %r' % names)
    known = {r[3] for r in rs}
    for n in names:
        if n not in known:
            raise Violation('listing', 'a key that nobody stored is listed: %r' % n)
    for r in rs:
        r[4] = r[3] in names
        rec.ret(r, r[4])


def check_history(rec, initial, limit=60000):
    """
    :param initial: dictionary, key -> value at the start
    """
    by_key = {}
    for inv, ret, kind, key, arg in rec.ops:
        if ret is None and kind in ('r', 'p'):
            continue
        if kind in ('w', 'W'):
            if ret is None:
                kind = 'W'
            arg = val(arg)
        elif kind == 'r':
            arg = val(arg)
        by_key.setdefault(key, []).append((inv, ret, kind, arg))
    hard = 0
    for key, ops in sorted(by_key.items()):
        init = val(initial[key]) if key in initial else ABSENT
        try:
            ok = linearizable(ops, init, limit)
        except TooHard:
            hard += 1
            continue
        if not ok:
            raise Violation('linearizability', 'no order of the operations on %r explains what was seen: %s' % (
                key, [(i, r, k, short(a)) for i, r, k, a in sorted(ops)]))
    # number of entries
    for inv, ret, n in rec.lens:
        lo = hi = 0
        for key in rec.keys:
            ops = by_key.get(key, [])
            may_hi, must = presence(ops, key in initial, inv, ret)
            hi += may_hi
            lo += must
        if not lo <= n <= hi:
            raise Violation('len', 'len() returned %d, must be at least %d and at most %d' % (n, lo, hi))
    return hard


def presence(ops, initially, inv, ret):
    """
    :return: tuple (can the key have been there at some time between inv and ret, must it all the time)
    """
    writes = [(i, float('inf') if r is None else r, k, a) for i, r, k, a in ops if k in ('w', 'W')]
    before = [w for w in writes if w[1] < inv and w[2] == 'w']
    overlap = [w for w in writes if not (w[1] < inv and w[2] == 'w') and w[0] < ret]
    if before:
        # those that may have been the last one
        last_inv = max(w[0] for w in before)
        cand = [w for w in before if w[1] > last_inv or w[0] == last_inv]
        states = {w[3] != ABSENT for w in cand}
    else:
        states = {initially}
    more = {w[3] != ABSENT for w in overlap}
    may = True in states or True in more
    must = states == {True} and False not in more
    return int(may), int(must)


def short(a):
    s = str(a)
    return s if len(s) < 60 else '%s...(%d)' % (s[:50], len(s))


def shorten_values(plan):
    """Candidates with small values. For shrinking"""
    p = json.loads(json.dumps(plan))
    lists = list(p.get('tasks', {}).values()) + ([p['ops']] if 'ops' in p else [])
    for ops in lists:
        for op in ops:
            if 'v' in op and len(canon(op['v'])) > 12:
                op['v'] = 'v%s' % op['u']
            if 'kv' in op:
                op['kv'] = [[k, v if len(canon(v)) <= 12 else 'v%s.%d' % (op['u'], i)]
                            for i, (k, v) in enumerate(op['kv'])]
    if p != plan:
        yield p
