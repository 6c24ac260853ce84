"""Simulated disk: every file opened below the run's scratch root goes through SimRaw.

The bytes live in real files of a private scratch directory (so code that bypasses the seam - mmap,
C++ readers - still works, unfaulted), but every Python-level open/read/write/truncate/flush/close
of such a file is an event of the run: it is numbered, logged, may be fragmented (short reads, partial
writes, tiny buffers) and may be made to fail or to "kill the process", as the run's plan says.
One plan is one exactly repeatable execution.
"""
import builtins, errno, io, os, re, sys, threading

_real_open = io.open
_FileIO = io.FileIO

ERRNO = {k: getattr(errno, k) for k in
         ('EIO', 'EACCES', 'EMFILE', 'ENOSPC', 'ESTALE', 'EDQUOT', 'ETIMEDOUT', 'EROFS', 'ENOENT', 'EPERM', 'ENFILE')}


class SimCrash(BaseException):
    """The simulated process died here. Never part of the code under test."""


class SimHang(BaseException):
    """The operation made more disk events than any terminating run of its size could."""


class Fault(dict):
    """{'op': open|read|write|close|any, 'at': n-th event of that op (0-based), 'kind': ..., 'persist': bool, 'path': regex}"""


def make_exc(kind, path):
    if kind == 'MEM':
        return MemoryError('simulated allocation failure')
    if kind == 'INT':
        return KeyboardInterrupt('simulated interrupt')
    e = ERRNO[kind]
    return OSError(e, '[sim] ' + os.strerror(e), path)


class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.sched = None          # scheduler called at every event (may be None)
        self.frag = None           # fragmentation policy (random.Random, strength) or None
        self.bufsize = None        # buffer size override
        self.textchunk = None
        self.maxevents = None
        self.hung = False
        self.reset()

    # -- plan -------------------------------------------------------------------------
    def reset(self, faults=None):
        self.faults = [dict(f) for f in (faults or [])]
        self.n = {}                # events so far, per op
        self.log = []              # (op, relpath)
        self.fired = []            # faults that fired: (kind, op, relpath, index)
        self.armed = []            # persistent faults in force
        self.dead = False
        self.live = {}             # id -> (path, mode) open handles
        self.opened = 0
        self.bytes_read = 0
        self.bytes_written = 0
        self.nfrag = 0
        self.quota = None          # bytes that may still be written before ENOSPC

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def inside(self, path):
        if not isinstance(path, (str, bytes, os.PathLike)):
            return None
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        rp = os.path.realpath(p)
        if rp.startswith(self.root + os.sep):
            return rp
        return None

    def event(self, op, path):
        """Count one disk event; raise the planned fault if there is one for it."""
        if self.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.point('io')
        rel = self.rel(path)
        i = self.n.get(op, 0)
        self.n[op] = i + 1
        j = self.n.get('any', 0)
        self.n['any'] = j + 1
        if self.maxevents is not None and j > self.maxevents:
            self.hung = True
            raise SimHang('no end after %d disk events' % j)
        self.log.append((op, rel))
        for f in self.armed:
            if f.get('path') and not re.search(f['path'], rel):
                continue
            if f['op'] in (op, 'any') or (f['op'] == 'open' and op == 'open'):
                self._fire(f, op, rel, j)
        for f in self.faults:
            if f.get('done'):
                continue
            if f.get('path') and not re.search(f['path'], rel):
                continue
            if (f['op'] == 'any' and f['at'] == j) or (f['op'] == op and f['at'] == i):
                f['done'] = True
                if f.get('persist'):
                    self.armed.append(f)
                self._fire(f, op, rel, j)

    def _fire(self, f, op, rel, j):
        k = f['kind']
        if op == 'close' and k in ('EACCES', 'EMFILE', 'ENOENT'):
            k = 'EIO'
        self.fired.append((k, op, rel, j))
        if k == 'CRASH':
            self.dead = True
            raise SimCrash()
        if k == 'VANISH':
            try:
                os.unlink(os.path.join(self.root, rel))
            except OSError:
                pass
            if op == 'open':
                return
            raise OSError(errno.ESTALE, '[sim] file vanished', rel)
        raise make_exc(k, rel)

    def fragment(self, n):
        """How many of n bytes this call transfers (>=1)."""
        if self.frag is None or n <= 1:
            return n
        rng, strength = self.frag
        if rng.random() < strength:
            self.nfrag += 1
            r = rng.random()
            if r < 0.4:
                return 1 + rng.randrange(min(n, 16))
            return 1 + rng.randrange(n)
        return n


class _Name(os.PathLike):
    """name of a handle opened for binary writing (not a str, so that pandas keeps using the handle)"""
    def __init__(self, p): self.p = p
    def __fspath__(self): return self.p
    def __str__(self): return self.p
    def __repr__(self): return repr(self.p)


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, mode, given):
        self._d = disk
        self._p = path
        self._given = given
        self._mode = mode
        self._f = None
        disk.event('open', path)
        self._f = _FileIO(path, mode)
        self._f_mode = self._f.mode
        self._torn = None
        disk.live[id(self)] = (disk.rel(path), mode)
        disk.opened += 1

    @property
    def name(self):
        if self._f is not None and 'w' in self._mode and not isinstance(self._given, int):
            return _Name(self._given)
        return self._given

    @property
    def mode(self): return self._f_mode
    def fileno(self): return self._f.fileno()
    def isatty(self): return False
    def readable(self): return self._f.readable()
    def writable(self): return self._f.writable()
    def seekable(self): return True
    def seek(self, pos, whence=0): return self._f.seek(pos, whence)
    def tell(self): return self._f.tell()

    def truncate(self, size=None):
        self._d.event('write', self._p)
        return self._f.truncate(size)

    def readinto(self, b):
        d = self._d
        d.event('read', self._p)
        n = d.fragment(len(b))
        if n < len(b):
            with memoryview(b) as m, m.cast('B')[:n] as mm:
                r = self._f.readinto(mm)
        else:
            r = self._f.readinto(b)
        d.bytes_read += r or 0
        return r

    def readall(self):
        # honour fragmentation: many short reads until EOF
        out = bytearray()
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def write(self, b):
        d = self._d
        b = bytes(b)
        # a write event may be torn: a prefix reaches the disk before the fault takes effect
        try:
            d.event('write', self._p)
        except (SimCrash, OSError, MemoryError, KeyboardInterrupt):
            f = next((x for x in d.faults if x.get('done') and not x.get('tore')), None)
            if f is not None and f.get('torn') and len(b):
                f['tore'] = True
                k = int(f['torn'] * len(b))
                self._f.write(b[:k])
                d.bytes_written += k
            raise
        n = d.fragment(len(b))
        if d.quota is not None:
            if d.quota <= 0 and n:
                d.fired.append(('ENOSPC', 'write', d.rel(self._p), d.n['any'] - 1))
                raise make_exc('ENOSPC', d.rel(self._p))
            n = min(n, d.quota)
            d.quota -= n
        w = self._f.write(b[:n])
        d.bytes_written += w
        return w

    def close(self):
        if self.closed:
            return
        d = self._d
        f = self._f
        try:
            if f is not None and id(self) in d.live:
                del d.live[id(self)]
                try:
                    if not d.dead:
                        d.event('close', self._p)
                finally:
                    f.close()
        finally:
            super().close()

    def __del__(self):
        # a handle dropped without close(): the OS closes it; not an event
        try:
            if self._f is not None and not self._f.closed:
                self._d.live.pop(id(self), None)
                self._d.dropped = getattr(self._d, 'dropped', 0) + 1
                self._f.close()
        except Exception:
            pass


_disk = None


def current():
    return _disk


def install(disk):
    global _disk
    _disk = disk


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _disk
    path = d.inside(file) if d is not None and opener is None else None
    if path is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    text = 'b' not in modes
    if len(mode) > len(modes) or modes - set('axrwb+t'):
        raise ValueError("invalid mode: %r" % mode)
    if text and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    rawmode = ''.join(c for c in mode if c in 'axrw+')
    if os.path.isdir(path):
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    raw = SimRaw(d, path, rawmode, file)
    res = raw
    try:
        line = False
        if buffering == 1:
            buffering = -1
            line = text
        if buffering < 0:
            buffering = d.bufsize or 8192
        if buffering == 0:
            return raw
        if '+' in modes:
            buf = io.BufferedRandom(raw, buffering)
        elif modes & set('wax'):
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        res = buf
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        if d.textchunk:
            t._CHUNK_SIZE = d.textchunk
        t.mode = mode
        res = t
        return t
    except BaseException:
        try:
            res.close()
        except BaseException:
            pass
        raise


_real_fromfile = None


def sim_fromfile(file, dtype=float, count=-1, sep='', offset=0, *, like=None):
    import numpy as np
    d = _disk
    if d is None or sep != '' or like is not None:
        return _real_fromfile(file, dtype=dtype, count=count, sep=sep, offset=offset)
    if isinstance(file, (str, bytes, os.PathLike)):
        if d.inside(file) is None:
            return _real_fromfile(file, dtype=dtype, count=count, sep=sep, offset=offset)
        with sim_open(file, 'rb') as f:
            return sim_fromfile(f, dtype, count, sep, offset)
    raw = getattr(file, 'raw', file)
    if not isinstance(raw, SimRaw):
        return _real_fromfile(file, dtype=dtype, count=count, sep=sep, offset=offset)
    dt = np.dtype(dtype)
    if offset:
        file.seek(offset, 1)
    want = -1 if count < 0 else int(count) * dt.itemsize
    chunks = []
    got = 0
    start = file.tell()
    while want < 0 or got < want:
        c = file.read(65536 if want < 0 else want - got)
        if not c:
            break
        chunks.append(c)
        got += len(c)
    data = b''.join(chunks)
    n = len(data) // dt.itemsize
    if len(data) != n * dt.itemsize:
        file.seek(start + n * dt.itemsize)
    return np.frombuffer(data[:n * dt.itemsize], dtype=dt).copy()


_real_os = {}


def _patch_os():
    """os.open/os.read/os.write on scratch files: events, fragmentation and faults too."""
    fds = {}
    for name in ('open', 'read', 'write', 'close'):
        _real_os[name] = getattr(os, name)

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        d = _disk
        p = d.inside(path) if d is not None and dir_fd is None else None
        if p is not None and not os.path.isdir(p):
            d.event('open', p)
        fd = _real_os['open'](path, flags, mode, dir_fd=dir_fd)
        if p is not None and not os.path.isdir(p):
            fds[fd] = p
        return fd

    def os_read(fd, n):
        d = _disk
        if d is not None and fd in fds:
            d.event('read', fds[fd])
            n = d.fragment(n)
        return _real_os['read'](fd, n)

    def os_write(fd, b):
        d = _disk
        if d is not None and fd in fds:
            d.event('write', fds[fd])
            n = d.fragment(len(b))
            b = bytes(b)[:n]
        return _real_os['write'](fd, b)

    def os_close(fd):
        fds.pop(fd, None)
        return _real_os['close'](fd)
    os.open, os.read, os.write, os.close = os_open, os_read, os_write, os_close


def patch():
    """Install the seam. Must run before weio (modules do `from io import open`)."""
    global _real_fromfile
    io.open = sim_open
    builtins.open = sim_open
    import numpy as np
    if _real_fromfile is None:
        _real_fromfile = np.fromfile
        np.fromfile = sim_fromfile
        import numpy.lib._datasource as ds
        ds._file_openers._load()
        ds._file_openers._file_openers[None] = sim_open
    import pathlib
    if getattr(pathlib, 'io', None) is not io:
        pass
    if not _real_os:
        _patch_os()
