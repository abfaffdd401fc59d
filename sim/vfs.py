"""
The file system seam. Calls that concern paths below the scratch directory of the active simulation are
intercepted: the scheduler may hand over to another task first, a fault may be injected, time stamps and
inode numbers are simulated. Data is kept in a real directory (the real kernel does path lookup, renames,
open file descriptions and flock).

Everything else goes straight to the real functions.
"""
import builtins
import errno
import io
import os
import random
import stat as stat_m

from . import core
from .core import SimCrash

R = {}  # real functions
VFD0 = 1 << 20


class SimFS:
    def __init__(self, sim, root, plan):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.prefix = self.root + '/'
        self.gran = plan.get('mtime_gran_ns', 1)
        self.inodes = {}  # real inode -> dict
        self.free = []
        self.next_ino = 100
        self.fds = {}  # virtual fd -> [real fd, task, path, flags]
        self.next_fd = VFD0
        self.dead_fds = set()  # of processes that were killed
        self.listing = random.Random(plan.get('list_seed', 0))
        self.names = {}
        # power loss
        self.model_power = False
        self.journal = []  # metadata operations since the start
        self.synced = {}  # vino -> bytes known to be on disc
        self.written = {}  # vino -> True if there are writes not synced
        self.base_tree = None
        sim.on_crash.append(self.crashed)
        R['makedirs'](self.root, exist_ok=True)

    # -- what's mine
    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = self.prefix + p
        if '/../' in p or '/./' in p or '//' in p or p.endswith('/..') or p.endswith('/.'):
            p = os.path.normpath(p)
        return p == self.root or p.startswith(self.prefix)

    def rel(self, path):
        """Name used in the log. Names the code made up are replaced."""
        if isinstance(path, int):
            return self.fds[path][2] if path in self.fds else path
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = self.prefix + p
        return os.path.normpath(p)[len(self.root):]

    # -- inodes and time stamps
    def stamp(self):
        now = self.sim.now_ns
        return now - now % self.gran

    def new_inode(self, rino):
        if self.free:
            self.free.sort()
            v = self.free.pop(0)
        else:
            v = self.next_ino
            self.next_ino += 1
        s = self.stamp()
        self.inodes[rino] = {'v': v, 'm': s, 'c': s, 'a': s}
        return self.inodes[rino]

    def inode(self, rino):
        try:
            return self.inodes[rino]
        except KeyError:
            return self.new_inode(rino)

    def gone(self, st):
        """A name was removed. st is how it looked before"""
        if st is not None and (st.st_nlink <= 1 or stat_m.S_ISDIR(st.st_mode)):
            rec = self.inodes.pop(st.st_ino, None)
            if rec:
                self.free.append(rec['v'])

    def vstat(self, st):
        rec = self.inode(st.st_ino)
        m, c, a = rec['m'], rec['c'], rec['a']
        seq = (st.st_mode, rec['v'], 7, st.st_nlink, st.st_uid, st.st_gid, st.st_size,
               a // 10 ** 9, m // 10 ** 9, c // 10 ** 9)
        return os.stat_result(seq, {
            'st_atime': a / 1e9, 'st_mtime': m / 1e9, 'st_ctime': c / 1e9,
            'st_atime_ns': a, 'st_mtime_ns': m, 'st_ctime_ns': c,
            'st_blksize': 4096, 'st_blocks': (st.st_size + 511) // 512, 'st_rdev': 0})

    def lst(self, path):
        try:
            return R['lstat'](path)
        except (OSError, ValueError):
            return None

    def touch(self, rfd, m=True):
        rec = self.inode(R['fstat'](rfd).st_ino)
        if m:
            rec['m'] = self.stamp()
        rec['c'] = self.stamp()

    # -- crash
    def crashed(self, task):
        for fd, ent in list(self.fds.items()):
            if task is None or ent[1] is task:
                R['close'](ent[0])
                ent[0] = None
                del self.fds[fd]
                self.dead_fds.add(fd)

    # -- power loss model
    def snap(self, what, *args):
        if self.model_power:
            self.journal.append((what,) + args)

    def data(self, rfd_or_path):
        if isinstance(rfd_or_path, int):
            rfd_or_path = '/proc/self/fd/%d' % rfd_or_path  # it might be open for writing only
        with R['open'](rfd_or_path, 'rb') as fp:
            return fp.read()

    def start_power_model(self):
        """All that is there now is safe on disc"""
        self.model_power = True
        self.journal = []
        self.synced = {}
        self.tree0 = {}
        for dp, dns, fns in R['walk'](self.root):
            rel = dp[len(self.root):]
            self.tree0[rel or '/'] = None
            for f in fns:
                p = dp + '/' + f
                v = self.inode(R['lstat'](p).st_ino)
                v = id_of(v)
                self.tree0[rel + '/' + f] = v
                self.synced[v] = self.data(p)
        self.volatile = {}
        self.keep = []

    def note_data(self, rfd):
        if not self.model_power:
            return
        v = id_of(self.inode(R['fstat'](rfd).st_ino))
        self.volatile[v] = self.data(rfd)

    def note_sync(self, rfd):
        if not self.model_power:
            return
        v = id_of(self.inode(R['fstat'](rfd).st_ino))
        self.synced[v] = self.data(rfd)
        self.volatile.pop(v, None)
        # a synced file is found under the name it was created with
        for i, j in enumerate(self.journal):
            if j[0] == 'create' and j[2] == v:
                self.journal[i] = ('create!',) + j[1:]

    def note_dirsync(self):
        self.journal = [('%s!' % j[0].rstrip('!'),) + j[1:] for j in self.journal]

    def lose_power(self, cut, tail):
        """
        Rebuild the directory as it might look when the power comes back.

        :param cut: how many of the not yet committed metadata operations that made it, in order
        :param tail: 'all', 'none' or 'half' of the data not synced made it
        """
        soft = [i for i, j in enumerate(self.journal) if not j[0].endswith('!')]
        lost = set(soft[int(cut * (len(soft) + 1)):])
        hard = [i for i, j in enumerate(self.journal) if j[0].endswith('!')]
        last_hard = max(hard) if hard else -1
        tree = dict(self.tree0)
        for i, j in enumerate(self.journal):
            if i in lost and i > last_hard:
                continue
            what = j[0].rstrip('!')
            if what == 'create':
                tree[j[1]] = j[2]
            elif what == 'mkdir':
                tree[j[1]] = None
            elif what == 'unlink':
                tree.pop(j[1], None)
            elif what == 'rename':
                src, dst = j[1], j[2]
                for p in [x for x in tree if x == src or x.startswith(src + '/')]:
                    tree[dst + p[len(src):]] = tree.pop(p)
            elif what == 'link':
                if j[1] in tree:
                    tree[j[2]] = tree[j[1]]
        R['rmtree'](self.root)
        R['mkdir'](self.root)
        os.chdir(self.root)
        for p in sorted(tree):
            if p == '/':
                continue
            v = tree[p]
            full = self.root + p
            if v is None:
                R['makedirs'](full, exist_ok=True)
                continue
            base = self.synced.get(v, b'')
            if v in self.volatile:
                new = self.volatile[v]
                if tail == 'all':
                    base = new
                elif tail == 'half':
                    base = new[:len(new) // 2]
                elif tail == 'zero':
                    base = b'\0' * len(new)
            R['makedirs'](os.path.dirname(full), exist_ok=True)
            with R['open'](full, 'wb') as fp:
                fp.write(base)
        self.inodes = {}
        self.model_power = False


def id_of(rec):
    if 'id' not in rec:
        id_of.n += 1
        rec['id'] = id_of.n
    return rec['id']


id_of.n = 0

FS = None


def _fs():
    return FS


def _active(path):
    fs = FS
    return fs is not None and core.SIM is not None and fs.mine(path)


def _dead_task():
    t = core.SIM.cur
    return t is not None and t.dead


# ---------------------------------------------------------------- os functions

def s_open(path, flags, mode=0o777, *, dir_fd=None):
    if dir_fd is not None or not _active(path):
        return R['os.open'](path, flags, mode, dir_fd=dir_fd)
    fs = FS
    sim = fs.sim
    kind = 'open-create' if flags & os.O_CREAT and fs.lst(path) is None else 'open'
    sim.point(kind, fs.rel(path))
    before = fs.lst(path)
    rfd = R['os.open'](path, flags, mode)
    st = R['fstat'](rfd)
    if before is None and flags & os.O_CREAT:
        rec = fs.new_inode(st.st_ino)
        fs.snap('create', fs.rel(path), id_of(rec))
    elif flags & os.O_TRUNC and stat_m.S_ISREG(st.st_mode):
        fs.touch(rfd)
        fs.note_data(rfd)
    fd = fs.next_fd
    fs.next_fd += 1
    fs.fds[fd] = [rfd, sim.cur, fs.rel(path), flags]
    return fd


def _vfd(name, kind=None, effect=None, after=None, check_dead=True):
    """Function with a file descriptor as first argument"""
    real = R['os.' + name]

    def f(fd, *args, **kwargs):
        fs = FS
        if fs is None or core.SIM is None or not isinstance(fd, int) or fd < VFD0:
            return real(fd, *args, **kwargs)
        sim = fs.sim
        if check_dead and _dead_task():
            raise SimCrash()
        ent = fs.fds.get(fd)
        if ent is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if kind:
            sim.point(kind, ent[2])
        res = real(ent[0], *args, **kwargs)
        if after:
            after(fs, ent, res)
        return res

    f.__name__ = name
    return f


def s_close(fd):
    fs = FS
    if fs is None or core.SIM is None or not isinstance(fd, int) or fd < VFD0:
        return R['os.close'](fd)
    ent = fs.fds.get(fd)
    if ent is None:
        if _dead_task() or fd in fs.dead_fds:
            return None
        raise OSError(errno.EBADF, 'Bad file descriptor')
    if ent[1] is not None and ent[1].dead:
        return None
    # a close can't fail here, and isn't a point where others get to run
    del fs.fds[fd]
    R['os.close'](ent[0])


def s_write(fd, data):
    fs = FS
    if fs is None or core.SIM is None or fd < VFD0:
        return R['os.write'](fd, data)
    sim = fs.sim
    ent = fs.fds.get(fd)
    if ent is None:
        if _dead_task():
            raise SimCrash()
        raise OSError(errno.EBADF, 'Bad file descriptor')
    f = sim.point('write', ent[2])
    data = bytes(data)
    if f is not None and f['do'] in ('short', 'enospc-partial', 'crash-partial'):
        k = int(len(data) * f.get('frac', 0.5))
        if f['do'] == 'short':
            data = data[:max(k, 1)]
        elif f['do'] == 'enospc-partial':
            if k:
                R['os.write'](ent[0], data[:k])
                fs.touch(ent[0])
                fs.note_data(ent[0])
            raise OSError(errno.ENOSPC, 'injected ENOSPC', ent[2])
        else:
            if k:
                R['os.write'](ent[0], data[:k])
                fs.touch(ent[0])
                fs.note_data(ent[0])
            sim.crash(sim.cur)
            raise SimCrash()
    n = R['os.write'](ent[0], data)
    if n:
        fs.touch(ent[0])
        fs.note_data(ent[0])
    return n


def s_read(fd, n):
    fs = FS
    if fs is None or core.SIM is None or fd < VFD0:
        return R['os.read'](fd, n)
    ent = fs.fds.get(fd)
    if ent is None:
        if _dead_task():
            raise SimCrash()
        raise OSError(errno.EBADF, 'Bad file descriptor')
    fs.sim.point('read', ent[2])
    return R['os.read'](ent[0], n)


def _path1(name, kind, after=None, pre_stat=False):
    real = R['os.' + name]

    def f(path, *args, **kwargs):
        if kwargs.get('dir_fd') is not None or not _active(path):
            return real(path, *args, **kwargs)
        fs = FS
        if isinstance(path, int):
            path = fs.fds[path][0]
            return real(path, *args, **kwargs)
        if kind:
            exists = kind == 'mkdir' and fs.lst(path) is not None
            fs.sim.point('mkdir-exists' if exists else kind, fs.rel(path))
        elif _dead_task():
            raise SimCrash()
        st = fs.lst(path) if pre_stat else None
        res = real(path, *args, **kwargs)
        if after:
            after(fs, path, st, args)
        return res

    f.__name__ = name
    return f


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if dir_fd is not None or not _active(path):
        return R['os.stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    fs = FS
    if isinstance(path, int):
        return fs.vstat(R['fstat'](fs.fds[path][0]))
    fs.sim.point('stat', fs.rel(path))
    return fs.vstat(R['os.stat'](path, follow_symlinks=follow_symlinks))


def s_lstat(path, *, dir_fd=None):
    if dir_fd is not None or not _active(path):
        return R['lstat'](path, dir_fd=dir_fd)
    if _dead_task():
        raise SimCrash()
    return FS.vstat(R['lstat'](path))


def s_fstat(fd):
    fs = FS
    if fs is None or core.SIM is None or fd < VFD0:
        return R['fstat'](fd)
    if _dead_task():
        raise SimCrash()
    ent = fs.fds.get(fd)
    if ent is None:
        raise OSError(errno.EBADF, 'Bad file descriptor')
    return fs.vstat(R['fstat'](ent[0]))


def s_rename_f(name):
    real = R['os.' + name]

    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        if src_dir_fd is not None or dst_dir_fd is not None or not (_active(src) or _active(dst)):
            return real(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        fs = FS
        fs.sim.point('rename', fs.rel(dst))
        st = fs.lst(dst)
        ss = fs.lst(src)
        res = real(src, dst)
        if st is not None and not (ss is not None and ss.st_ino == st.st_ino):
            fs.gone(st)
        if ss is not None:
            fs.inode(ss.st_ino)['c'] = fs.stamp()
        fs.snap('rename', fs.rel(src), fs.rel(dst))
        return res

    f.__name__ = name
    return f


def s_link(src, dst, **kwargs):
    if not (_active(src) or _active(dst)):
        return R['os.link'](src, dst, **kwargs)
    fs = FS
    fs.sim.point('rename', fs.rel(dst))
    res = R['os.link'](src, dst, **kwargs)
    fs.snap('link', fs.rel(src), fs.rel(dst))
    return res


def s_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    if dir_fd is not None or not _active(path):
        kw = {} if ns is None else {'ns': ns}
        if ns is None:
            return R['os.utime'](path, times, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        return R['os.utime'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks, **kw)
    fs = FS
    if isinstance(path, int):
        st = R['fstat'](fs.fds[path][0])
        fs.sim.point('utime', fs.fds[path][2])
    else:
        fs.sim.point('utime', fs.rel(path))
        st = R['os.stat'](path)
    rec = fs.inode(st.st_ino)
    if ns is not None:
        rec['a'], rec['m'] = int(ns[0]), int(ns[1])
    elif times is not None:
        rec['a'], rec['m'] = int(times[0] * 10 ** 9), int(times[1] * 10 ** 9)
    else:
        rec['a'] = rec['m'] = fs.stamp()
    rec['c'] = fs.stamp()


def s_listdir(path='.'):
    if not _active(path):
        return R['os.listdir'](path)
    fs = FS
    if isinstance(path, int):
        path = fs.root + fs.fds[path][2]
    fs.sim.point('listdir', fs.rel(path))
    names = sorted(R['os.listdir'](path))
    fs.listing.shuffle(names)
    return names


class SimDirEntry:
    def __init__(self, ent, base):
        self._e = ent
        self.name = ent.name
        self.path = ent.path

    def inode(self):
        return FS.inode(self._e.inode())['v']

    def is_dir(self, *, follow_symlinks=True):
        return self._e.is_dir(follow_symlinks=follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._e.is_file(follow_symlinks=follow_symlinks)

    def is_symlink(self):
        return self._e.is_symlink()

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return s_stat(self.path, follow_symlinks=follow_symlinks)

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return '<DirEntry %r>' % self.name


class SimScandir:
    def __init__(self, path):
        fs = FS
        fs.sim.point('listdir', fs.rel(path))
        with R['os.scandir'](path) as it:
            ents = sorted(it, key=lambda e: e.name)
        fs.listing.shuffle(ents)
        self._it = iter([SimDirEntry(e, path) for e in ents])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def s_scandir(path='.'):
    if not _active(path):
        return R['os.scandir'](path)
    return SimScandir(path)


def s_flock(fd, op):
    fs = FS
    if fs is not None and core.SIM is not None and hasattr(fd, 'fileno'):
        fd = fd.fileno()
    if fs is None or core.SIM is None or fd < VFD0:
        return R['flock'](fd, op)
    import fcntl
    sim = fs.sim
    ent = fs.fds.get(fd)
    if ent is None:
        if _dead_task() or fd in fs.dead_fds:
            return None
        raise OSError(errno.EBADF, 'Bad file descriptor')
    sim.point('flock', '%s %d' % (ent[2], op))
    if op & fcntl.LOCK_UN:
        return R['flock'](ent[0], op)
    while True:
        try:
            return R['flock'](ent[0], op | fcntl.LOCK_NB)
        except OSError as err:
            sim.probe('lock-contention')
            if op & fcntl.LOCK_NB:
                raise
            if err.errno not in (errno.EAGAIN, errno.EWOULDBLOCK, errno.EACCES):
                raise
            sim.sleep(0.001)


def s_lockf(fd, cmd, *args):
    fs = FS
    if fs is not None and core.SIM is not None and hasattr(fd, 'fileno'):
        fd = fd.fileno()
    if fs is None or core.SIM is None or fd < VFD0:
        return R['lockf'](fd, cmd, *args)
    # POSIX locks belong to the process and we're all the same process. Nobody uses them today.
    raise core.HarnessError('lockf is not simulated')


# ---------------------------------------------------------------- file objects

class SimRaw(io.RawIOBase):
    def __init__(self, fd, name, readable, writable, append, closefd=True):
        self._fd = fd
        self.name = name
        self._r = readable
        self._w = writable
        self._closefd = closefd
        self.mode = ('rb+' if readable else 'wb') if writable else 'rb'

    def fileno(self):
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        data = s_read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        return s_write(self._fd, b)

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            if self._closefd:
                s_close(self._fd)
        finally:
            io.RawIOBase.close(self)


def s_builtin_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
                   closefd=True, opener=None):
    if FS is None or core.SIM is None or not _active(file):
        return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    creating, reading, writing = 'x' in modes, 'r' in modes, 'w' in modes
    appending, updating = 'a' in modes, '+' in modes
    text, binary = 't' in modes, 'b' in modes
    if (modes - set('axrwb+tU') or len(mode) > len(modes) or (text and binary) or
            creating + reading + writing + appending != 1 or
            (binary and (encoding is not None or errors is not None or newline is not None))):
        return R['open'](os.devnull, mode, buffering, encoding, errors, newline)  # raises
    if isinstance(file, int):
        fd = file
        name = file
    else:
        flags = os.O_CLOEXEC
        if updating:
            flags |= os.O_RDWR
        elif reading:
            flags |= os.O_RDONLY
        else:
            flags |= os.O_WRONLY
        if writing:
            flags |= os.O_CREAT | os.O_TRUNC
        elif creating:
            flags |= os.O_CREAT | os.O_EXCL
        elif appending:
            flags |= os.O_CREAT | os.O_APPEND
        if opener:
            fd = opener(file, flags)
        else:
            fd = s_open(file, flags, 0o666)
        name = file
        ent = FS.fds.get(fd)
        if ent is not None and stat_m.S_ISDIR(R['fstat'](ent[0]).st_mode):
            s_close(fd)
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    raw = SimRaw(fd, name, reading or updating, writing or creating or appending or updating,
                 appending, closefd)
    if appending:
        raw.seek(0, 2)
    if buffering == 0:
        if binary:
            return raw
        raise ValueError("can't have unbuffered text I/O")
    size = 8192 if buffering in (-1, 1) else buffering
    if updating:
        buf = io.BufferedRandom(raw, size)
    elif reading:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    res = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    res.mode = mode
    return res


def s_access(path, mode, **kwargs):
    if kwargs.get('dir_fd') is not None or not _active(path):
        return R['os.access'](path, mode, **kwargs)
    FS.sim.point('stat', FS.rel(path))
    return R['os.access'](path, mode)


def install():
    import fcntl
    import shutil
    for n in ('open', 'close', 'write', 'read', 'stat', 'lstat', 'fstat', 'listdir', 'scandir',
              'unlink', 'remove', 'rename', 'replace', 'link', 'mkdir', 'rmdir', 'utime', 'access',
              'truncate', 'ftruncate', 'fsync', 'fdatasync', 'lseek', 'pread', 'pwrite', 'fchmod',
              'chmod', 'dup', 'isatty', 'get_blocking', 'set_inheritable', 'get_inheritable',
              'fpathconf', 'fchown'):
        R['os.' + n] = getattr(os, n)
    R['lstat'] = os.lstat
    R['fstat'] = os.fstat
    R['close'] = os.close
    R['mkdir'] = os.mkdir
    R['pread'] = os.pread
    R['getcwd'] = os.getcwd
    R['open'] = builtins.open
    R['flock'] = fcntl.flock
    R['lockf'] = fcntl.lockf
    real_env = dict(R)

    # helpers that must not be intercepted themselves
    def makedirs(path, exist_ok=False):
        import subprocess  # noqa - only to show that nothing is patched here
        parts = os.path.abspath(path).split('/')
        for i in range(2, len(parts) + 1):
            p = '/'.join(parts[:i])
            try:
                real_env['os.mkdir'](p)
            except FileExistsError:
                pass

    def walk(top):
        dns, fns = [], []
        for n in sorted(real_env['os.listdir'](top)):
            p = top + '/' + n
            if stat_m.S_ISDIR(real_env['lstat'](p).st_mode):
                dns.append(n)
            else:
                fns.append(n)
        yield top, dns, fns
        for d in dns:
            yield from walk(top + '/' + d)

    def rmtree(top):
        for dp, dns, fns in reversed(list(walk(top))):
            for f in fns:
                real_env['os.unlink'](dp + '/' + f)
            real_env['os.rmdir'](dp)

    R['makedirs'], R['walk'], R['rmtree'] = makedirs, walk, rmtree

    os.open = s_open
    os.close = s_close
    os.write = s_write
    os.read = s_read
    os.stat = s_stat
    os.lstat = s_lstat
    os.fstat = s_fstat
    os.listdir = s_listdir
    os.scandir = s_scandir

    def rm_after(fs, path, st, args):
        fs.gone(st)
        fs.snap('unlink', fs.rel(path))

    os.unlink = _path1('unlink', 'unlink', rm_after, True)
    os.remove = _path1('remove', 'unlink', rm_after, True)
    os.rmdir = _path1('rmdir', 'unlink', rm_after, True)
    os.rename = s_rename_f('rename')
    os.replace = s_rename_f('replace')
    os.link = s_link

    def mk_after(fs, path, st, args):
        fs.new_inode(real_env['lstat'](path).st_ino)
        fs.snap('mkdir', fs.rel(path))

    os.mkdir = _path1('mkdir', 'mkdir', mk_after)
    os.chmod = _path1('chmod', 'chmod')
    os.utime = s_utime
    os.access = s_access

    def tr_after(fs, path, st, args):
        fs.inode(real_env['lstat'](path).st_ino)['m'] = fs.stamp()

    os.truncate = _path1('truncate', 'write', tr_after)

    def ftr_after(fs, ent, res):
        fs.touch(ent[0])
        fs.note_data(ent[0])

    def sync_after(fs, ent, res):
        if stat_m.S_ISDIR(real_env['fstat'](ent[0]).st_mode):
            fs.note_dirsync()
        else:
            fs.note_sync(ent[0])

    os.ftruncate = _vfd('ftruncate', 'write', after=ftr_after)
    os.fsync = _vfd('fsync', 'fsync', after=sync_after)
    os.fdatasync = _vfd('fdatasync', 'fsync', after=sync_after)
    for n in ('lseek', 'pread', 'fchmod', 'isatty', 'get_blocking', 'set_inheritable',
              'get_inheritable', 'fchown'):
        setattr(os, n, _vfd(n))
    os.pwrite = _vfd('pwrite', 'write', after=ftr_after)
    builtins.open = s_builtin_open
    io.open = s_builtin_open
    fcntl.flock = s_flock
    fcntl.lockf = s_lockf
    # shutil takes short cuts with descriptors
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_use_fd_functions'):
        shutil._use_fd_functions = False
    # these are sets of functions, by identity
    for s in ('supports_fd', 'supports_dir_fd', 'supports_follow_symlinks', 'supports_effective_ids'):
        st = getattr(os, s)
        for n in ('open', 'stat', 'listdir', 'scandir', 'unlink', 'rename', 'mkdir', 'rmdir', 'utime',
                  'chmod', 'access', 'link', 'truncate'):
            if R['os.' + n] in st:
                st.add(getattr(os, n))
