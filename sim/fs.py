"""Simulated disk.

The code under test works on a real scratch directory, but every file operation it makes
there goes through this module: it is numbered, recorded in a journal, and may be made to
fail, to write less than asked, or to be the last thing the process ever did.  From the
journal the durable state after a crash is rebuilt: after a process kill everything handed
to the operating system survives (buffers of the process do not); after a power loss only
what was fsynced is certain, unsynced data may be lost, cut or zeroed, and renames may
reach the disk before the data they publish.
"""
import builtins
import errno
import io
import os
import random as _random
import shutil
import sys


class SimKill(BaseException):
    """the simulated process is dead"""


class SimStop(BaseException):
    """step budget exceeded"""


_REAL = {name: getattr(os, name) for name in (
    "open", "close", "write", "read", "pwrite", "pread", "writev", "fsync", "fdatasync", "replace", "rename",
    "unlink", "remove", "rmdir", "mkdir", "link", "symlink", "truncate", "ftruncate", "listdir", "scandir",
    "sendfile", "copy_file_range", "chmod", "fchmod", "sync", "posix_fallocate") if hasattr(os, name)}
_REAL_OPEN = builtins.open
_ACTIVE = None


class Fault:
    """one fault: at operation number `at` (counted over `ops`), do `kind`"""

    def __init__(self, at, kind, sticky=False, arg=0.5):
        self.at, self.kind, self.sticky, self.arg = at, kind, sticky, arg


ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EROFS": errno.EROFS,
       "EDQUOT": errno.EDQUOT, "ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE, "EINTR_NOT_USED": errno.EINTR}

# which operations a fault kind can hit
APPLIES = {
    "ENOSPC": {"write", "create", "fsync", "trunc", "mkdir", "rename"},
    "EDQUOT": {"write", "create"},
    "EIO": {"write", "fsync", "rename", "read", "close", "unlink"},
    "EACCES": {"create", "openr", "openw", "rename"},
    "EROFS": {"create", "openw", "rename", "unlink", "trunc"},
    "EMFILE": {"create", "openr", "openw"},
    "kill": None,
    "power": None,
    "short": {"write", "read"},
}


class SimFS:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.journal = []           # (kind, ...) mutations, in order
        self.opnum = 0              # every operation, including reads
        self.oplog = []             # kinds, for counting runs
        self.fault = None
        self.fired = []
        self.dead = False
        self.short_reads = None     # random.Random: reads return less than asked
        self.short_writes = None    # random.Random: split writes at random
        self.fd_ino = {}
        self.ino_next = 0
        self.names = {}             # relative path -> ino (current)
        self.snapshot = {}          # ino -> bytes at start
        self.names0 = {}
        self.list_rng = None        # permutes directory listings
        self.on_op = None
        self._scan()

    # -------------------------------------------------- state at start
    def _scan(self):
        for d, _, files in os.walk(self.root):
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.isfile(p) and not os.path.islink(p):
                    rel = os.path.relpath(p, self.root)
                    ino = self._new_ino()
                    with _REAL_OPEN(p, "rb") as fh:
                        self.snapshot[ino] = fh.read()
                    self.names[rel] = ino
        self.names0 = dict(self.names)

    def _new_ino(self):
        self.ino_next += 1
        return self.ino_next

    def owns(self, path):
        if isinstance(path, int):
            return path in self.fd_ino
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        real = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return real == self.root or real.startswith(self.root + os.sep)

    def rel(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return os.path.relpath(p, self.root)

    # -------------------------------------------------- one operation
    def op(self, kind, size=0):
        """Number the operation; returns an action: None, ('short', n) ... or raises."""
        if self.dead:
            raise SimKill()
        n = self.opnum
        self.opnum += 1
        self.oplog.append(kind)
        if self.on_op is not None:
            self.on_op(n, kind)
        f = self.fault
        if f is not None and (n == f.at or (f.sticky and n > f.at)):
            allowed = APPLIES[f.kind]
            if allowed is None or kind in allowed:
                self.fired.append((n, kind, f.kind))
                if f.kind in ("kill", "power"):
                    if kind == "write" and size > 0:
                        # the last write may have reached the disk partly
                        return ("die", int(size * f.arg))
                    self.dead = True
                    raise SimKill()
                if f.kind == "short":
                    if size > 1:
                        return ("short", max(1, int(size * f.arg)))
                    return None
                if kind == "write" and f.kind in ("ENOSPC", "EDQUOT") and size > 1 and not self.fired[:-1]:
                    # a filling disk first takes a part of the data
                    part = int(size * f.arg)
                    if part:
                        self.fault = Fault(n + 1, f.kind, True, 0.0)
                        return ("short", part)
                raise OSError(ERR[f.kind], os.strerror(ERR[f.kind]))
        if kind == "write" and self.short_writes is not None and size > 1 and self.short_writes.random() < 0.5:
            return ("short", self.short_writes.randint(1, size - 1))
        return None

    # -------------------------------------------------- crash states
    def crash_state(self, kind, rng, upto=None):
        """Durable content: dict relative path -> bytes, after a crash now (or after `upto` journal entries)."""
        j = self.journal if upto is None else self.journal[:upto]
        if kind == "kill":
            return self._apply(j, lambda i, o: True)
        # power loss.  Metadata (names) reach the disk in order, up to an arbitrary point
        # not before the last directory fsync; data of a file is certain up to its last fsync.
        last_dir = -1
        last_sync = {}
        for i, o in enumerate(j):
            if o[0] == "fsyncdir":
                last_dir = i
            elif o[0] == "fsync":
                last_sync[o[1]] = i
            elif o[0] == "syncall":
                last_dir = i
                for ino in range(self.ino_next + 1):
                    last_sync[ino] = i
        meta = [i for i, o in enumerate(j) if o[0] in ("name", "rename", "unlink")]
        volatile = [i for i in meta if i > last_dir]
        keep_meta = set(i for i in meta if i <= last_dir)
        mode = rng.random()
        if mode < 0.4:
            keep_meta.update(volatile)          # names first, data later: the classic
        elif mode < 0.6:
            pass
        else:
            keep_meta.update(volatile[:rng.randint(0, len(volatile))])
        policy = {}
        for ino in range(self.ino_next + 1):
            policy[ino] = rng.choice(["lost", "lost", "prefix", "torn", "zero", "all"])
        cut = {}
        for ino in range(self.ino_next + 1):
            uns = [i for i, o in enumerate(j) if o[0] in ("write", "trunc") and o[1] == ino and i > last_sync.get(ino, -1)]
            if policy[ino] == "all":
                cut[ino] = set(uns)
            elif policy[ino] == "lost":
                cut[ino] = set()
                # the truncation of an old file usually reaches the disk at once
                if rng.random() < 0.5:
                    cut[ino] = set(i for i in uns if j[i][0] == "trunc")
            else:
                cut[ino] = set(uns[:rng.randint(0, len(uns))])

        torn = {}
        for ino in range(self.ino_next + 1):
            if policy[ino] in ("torn", "zero") and cut[ino]:
                last = max(cut[ino])
                if j[last][0] == "write":
                    torn[last] = policy[ino]

        def keep(i, o):
            if o[0] in ("name", "rename", "unlink"):
                return i in keep_meta
            if o[0] in ("write", "trunc"):
                if i <= last_sync.get(o[1], -1):
                    return True
                return i in cut[o[1]]
            return False
        return self._apply(j, keep, torn, rng)

    def _apply(self, j, keep, torn=None, rng=None):
        data = {ino: bytearray(b) for ino, b in self.snapshot.items()}
        names = dict(self.names0)
        for i, o in enumerate(j):
            if not keep(i, o):
                continue
            if o[0] == "name":
                names[o[1]] = o[2]
                data.setdefault(o[2], bytearray())
            elif o[0] == "rename":
                ino = o[3]
                if names.get(o[1]) == ino:
                    del names[o[1]]
                names[o[2]] = ino
                data.setdefault(ino, bytearray())
            elif o[0] == "unlink":
                names.pop(o[1], None)
            elif o[0] == "trunc":
                b = data.setdefault(o[1], bytearray())
                if len(b) > o[2]:
                    del b[o[2]:]
                else:
                    b.extend(b"\0" * (o[2] - len(b)))
            elif o[0] == "write":
                b = data.setdefault(o[1], bytearray())
                d = o[3]
                if torn and i in torn:
                    n = rng.randint(0, len(d))
                    if len(d) > 512:
                        n -= n % 512
                    d = d[:n] if torn[i] == "torn" else d[:n] + b"\0" * (len(d) - n)
                if len(b) < o[2]:
                    b.extend(b"\0" * (o[2] - len(b)))
                b[o[2]:o[2] + len(d)] = d
        return {n: bytes(data.get(ino, b"")) for n, ino in names.items()}

    # -------------------------------------------------- installing
    def __enter__(self):
        global _ACTIVE
        assert _ACTIVE is None
        _ACTIVE = self
        install()
        return self

    def __exit__(self, *exc):
        global _ACTIVE
        _ACTIVE = None
        uninstall()
        return False


class SimFileIO(io.FileIO):
    """a real file in the scratch directory whose operations are recorded"""

    def __init__(self, name, mode, closefd=True, opener=None, fs=None):
        self._fs = fs
        self._path = None if isinstance(name, int) else fs.rel(name)
        if isinstance(name, int):
            self._ino = fs.fd_ino.get(name)
            super().__init__(name, mode, closefd=closefd)
        elif opener is not None:
            super().__init__(name, mode, closefd=closefd, opener=opener)
            self._ino = fs.fd_ino.get(self.fileno())
        else:
            ino = _before_open(fs, name, mode)
            super().__init__(name, mode, closefd=closefd)
            self._ino = _after_open(fs, name, mode, ino, self.fileno())
        self._append = "a" in mode

    def write(self, b):
        fs = self._fs
        if fs.dead:
            return len(memoryview(b).cast("B"))
        data = bytes(memoryview(b).cast("B"))
        pos = os.fstat(self.fileno()).st_size if self._append else self.tell()
        act = fs.op("write", len(data))
        if act is not None:
            data = data[:act[1]]
        n = super().write(data) if data else 0
        if n:
            fs.journal.append(("write", self._ino, pos, data[:n]))
        if act is not None and act[0] == "die":
            fs.dead = True
            raise SimKill()
        return n

    def _limit(self, n):
        act = self._fs.op("read", n)
        if act is not None and act[0] in ("short", "die"):
            return act[1]
        rng = self._fs.short_reads
        if rng is not None and n > 1 and rng.random() < 0.5:
            return rng.randint(1, n - 1)
        return n

    def readinto(self, buf):
        if self._fs.dead:
            raise SimKill()
        m = memoryview(buf).cast("B")
        n = self._limit(len(m))
        return super().readinto(m[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        n = self._limit(size)
        return super().read(n)

    def readall(self):
        self._fs.op("read", 0)
        return super().readall()

    def truncate(self, size=None):
        fs = self._fs
        if fs.dead:
            raise SimKill()
        fs.op("trunc")
        if size is None:
            size = self.tell()
        r = super().truncate(size)
        fs.journal.append(("trunc", self._ino, size))
        return r

    def close(self):
        fs = self._fs
        if self.closed:
            return
        fd = -1
        try:
            fd = self.fileno()
        except ValueError:
            pass
        try:
            if not fs.dead:
                fs.op("close")
        finally:
            if self.closefd:
                fs.fd_ino.pop(fd, None)
            super().close()


def _before_open(fs, name, mode):
    """number the open; decides whether it creates or truncates"""
    exists = os.path.exists(name)
    if "r" in mode and "+" not in mode:
        fs.op("openr")
    elif exists:
        fs.op("openw")
    else:
        fs.op("create")
    return exists


def _after_open(fs, name, mode, existed, fd):
    rel = fs.rel(name)
    if os.path.isdir(name):
        fs.fd_ino[fd] = ("dir", rel)
        return ("dir", rel)
    if os.path.islink(name):
        rel = os.path.relpath(os.path.realpath(name), fs.root)
    ino = fs.names.get(rel)
    if ino is None:
        ino = fs._new_ino()
        fs.names[rel] = ino
        if not existed:
            fs.journal.append(("name", rel, ino))
    elif "w" in mode:
        fs.journal.append(("trunc", ino, 0))
    fs.fd_ino[fd] = ino
    return ino


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = _ACTIVE
    if fs is None or not fs.owns(file):
        return _REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if fs.dead:
        raise SimKill()
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError(f"invalid mode: {mode!r}")
    text = "b" not in modes
    raw_mode = "".join(c for c in mode if c in "axrw+")
    if text and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    raw = SimFileIO(file, raw_mode, closefd, opener, fs)
    if buffering == 0:
        return raw
    line = buffering == 1
    bufsize = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
    if "+" in modes:
        buf = io.BufferedRandom(raw, bufsize)
    elif modes & set("wax"):
        buf = io.BufferedWriter(raw, bufsize)
    else:
        buf = io.BufferedReader(raw, bufsize)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line)
    t.mode = mode
    return t


def _w_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = _ACTIVE
    if fs is None or dir_fd is not None or not fs.owns(path):
        return _REAL["open"](path, flags, mode, dir_fd=dir_fd)
    exists = os.path.exists(path)
    writing = flags & (os.O_WRONLY | os.O_RDWR)
    fs.op("openr" if not writing else ("openw" if exists else "create"))
    fd = _REAL["open"](path, flags, mode)
    if os.path.isdir(path):
        fs.fd_ino[fd] = ("dir", fs.rel(path))
        return fd
    m = "w" if flags & os.O_TRUNC else ("r" if not writing else "r+")
    _after_open(fs, path, m, exists, fd)
    return fd


def _w_close(fd):
    fs = _ACTIVE
    if fs is None or fd not in fs.fd_ino:
        return _REAL["close"](fd)
    try:
        if not fs.dead:
            fs.op("close")
    finally:
        fs.fd_ino.pop(fd, None)
        _REAL["close"](fd)


def _w_write(fd, data):
    fs = _ACTIVE
    if fs is None or fd not in fs.fd_ino:
        return _REAL["write"](fd, data)
    data = bytes(memoryview(data).cast("B"))
    if fs.dead:
        raise SimKill()
    pos = os.lseek(fd, 0, os.SEEK_CUR)
    act = fs.op("write", len(data))
    if act is not None:
        data = data[:act[1]]
    n = _REAL["write"](fd, data) if data else 0
    if n:
        fs.journal.append(("write", fs.fd_ino[fd], pos, data[:n]))
    if act is not None and act[0] == "die":
        fs.dead = True
        raise SimKill()
    return n


def _w_pwrite(fd, data, offset):
    fs = _ACTIVE
    if fs is None or fd not in fs.fd_ino:
        return _REAL["pwrite"](fd, data, offset)
    data = bytes(memoryview(data).cast("B"))
    act = fs.op("write", len(data))
    if act is not None:
        data = data[:act[1]]
    n = _REAL["pwrite"](fd, data, offset) if data else 0
    if n:
        fs.journal.append(("write", fs.fd_ino[fd], offset, data[:n]))
    if act is not None and act[0] == "die":
        fs.dead = True
        raise SimKill()
    return n


def _fsync(real):
    def f(fd):
        fs = _ACTIVE
        n = fd if isinstance(fd, int) else fd.fileno()
        if fs is None or n not in fs.fd_ino:
            return real(fd)
        fs.op("fsync")
        ino = fs.fd_ino[n]
        if isinstance(ino, tuple):
            fs.journal.append(("fsyncdir", ino[1]))
        else:
            fs.journal.append(("fsync", ino))
    return f


def _w_sync():
    fs = _ACTIVE
    if fs is None:
        return _REAL["sync"]()
    fs.op("fsync")
    fs.journal.append(("syncall",))


def _rename(real):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        fs = _ACTIVE
        if fs is None or not (fs.owns(src) or fs.owns(dst)):
            return real(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        fs.op("rename")
        real(src, dst)
        s = fs.rel(src) if fs.owns(src) else None
        d = fs.rel(dst) if fs.owns(dst) else None
        ino = fs.names.pop(s, None)
        if s is None or ino is None:
            # came from outside the simulated disk: content is durable only as data
            ino = fs._new_ino()
            fs.journal.append(("name", d, ino))
            with _REAL_OPEN(dst, "rb") as fh:
                fs.journal.append(("write", ino, 0, fh.read()))
            fs.names[d] = ino
        elif d is None:
            fs.journal.append(("unlink", s))
        else:
            fs.journal.append(("rename", s, d, ino))
            fs.names[d] = ino
    return f


def _unlink(real):
    def f(path, *, dir_fd=None):
        fs = _ACTIVE
        if fs is None or not fs.owns(path):
            return real(path, dir_fd=dir_fd)
        fs.op("unlink")
        real(path)
        fs.names.pop(fs.rel(path), None)
        fs.journal.append(("unlink", fs.rel(path)))
    return f


def _w_link(src, dst, **kw):
    fs = _ACTIVE
    if fs is None or not (fs.owns(src) or fs.owns(dst)):
        return _REAL["link"](src, dst, **kw)
    fs.op("rename")
    _REAL["link"](src, dst, **kw)
    ino = fs.names.get(fs.rel(src))
    fs.names[fs.rel(dst)] = ino
    fs.journal.append(("name", fs.rel(dst), ino))


def _w_truncate(path, length):
    fs = _ACTIVE
    if fs is None or not fs.owns(path):
        return _REAL["truncate"](path, length)
    fs.op("trunc")
    _REAL["truncate"](path, length)
    ino = fs.fd_ino.get(path) if isinstance(path, int) else fs.names.get(fs.rel(path))
    fs.journal.append(("trunc", ino, length))


def _w_sendfile(*a, **k):
    fs = _ACTIVE
    if fs is not None and any(isinstance(x, int) and x in fs.fd_ino for x in a[:2]):
        raise OSError(errno.ENOTSOCK, "simulated: use read and write")
    return _REAL["sendfile"](*a, **k)


def _w_listdir(path="."):
    fs = _ACTIVE
    r = _REAL["listdir"](path)
    if fs is not None and fs.owns(path):
        fs.op("listdir")
        r = sorted(r)
        if fs.list_rng is not None:
            fs.list_rng.shuffle(r)
    return r


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _w_scandir(path="."):
    fs = _ACTIVE
    if fs is None or not fs.owns(path):
        return _REAL["scandir"](path)
    fs.op("listdir")
    with _REAL["scandir"](path) as it:
        r = sorted(it, key=lambda e: e.name)
    if fs.list_rng is not None:
        fs.list_rng.shuffle(r)
    return _ScanIter(r)


class _ScanIter:
    def __init__(self, r):
        self._it = iter(r)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


_WRAP = {
    "open": _w_open, "close": _w_close, "write": _w_write, "pwrite": _w_pwrite,
    "fsync": _fsync(_REAL["fsync"]), "fdatasync": _fsync(_REAL["fdatasync"]), "sync": _w_sync,
    "replace": _rename(_REAL["replace"]), "rename": _rename(_REAL["rename"]),
    "unlink": _unlink(_REAL["unlink"]), "remove": _unlink(_REAL["remove"]),
    "link": _w_link, "truncate": _w_truncate, "ftruncate": _w_truncate, "sendfile": _w_sendfile,
    "listdir": _w_listdir, "scandir": _w_scandir,
}


def install():
    builtins.open = sim_open
    io.open = sim_open
    for n, f in _WRAP.items():
        setattr(os, n, f)


def uninstall():
    builtins.open = _REAL_OPEN
    io.open = _REAL_OPEN
    for n in _WRAP:
        setattr(os, n, _REAL[n])


_quiet_installed = False


def quiet_unraisable():
    """destructors of file objects of a dead process may complain: nobody listens"""
    global _quiet_installed
    if not _quiet_installed:
        sys.unraisablehook = lambda *a: None
        _quiet_installed = True


def write_state(root, state):
    """materialise a crash state"""
    if os.path.exists(root):
        shutil.rmtree(root)
    os.makedirs(root)
    for rel, b in state.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _REAL_OPEN(p, "wb") as f:
            f.write(b)


_seq = 0


def scratch(name="d"):
    """fresh empty directory inside this process' scratch area"""
    global _seq
    _seq += 1
    base = os.environ["VERIF_SCRATCH"]
    p = os.path.join(base, f"{os.getpid()}-{name}{_seq}")
    os.makedirs(p)
    return p


def drop(path):
    shutil.rmtree(path, ignore_errors=True)
