"""Seams: every source of nondeterminism and I/O the library can reach from Python.

`install()` replaces the entry points once, before the library is imported.  Outside a simulated
client they pass straight through to the originals.
"""
import builtins
import errno
import io
import os
import random
import shutil
import stat as _stat
import sys
import tempfile
import threading
import time

from . import world as W

R = {}  # the real functions
_fd_path = {}
_ESC_OK = ("/dev/null", "/dev/stdout", "/dev/stderr", "/dev/tty")

WRITE_KINDS = {"fs.write", "fs.open_w", "fs.mkdir", "fs.rename", "fs.unlink", "fs.truncate", "fs.close_w",
               "fs.link", "fs.utime", "fs.fsync"}


def _abs(path):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        p = os.path.join(R["getcwd"](), p)
    return os.path.normpath(p)


def in_root(w, path):
    if w.root is None:
        return False
    p = _abs(path)
    return p == w.root or p.startswith(w.root + "/")


def rel(w, path):
    p = _abs(path)
    return p[len(w.root) + 1:] if p.startswith(w.root) else p


def _escape(w, what, path):
    w.fired["escape_blocked"] += 1
    w.escapes = getattr(w, "escapes", [])
    w.escapes.append((what, str(path)))
    raise PermissionError(errno.EACCES, "simulator: write outside the scratch folder", str(path))


ERRNO = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES, "emfile": errno.EMFILE,
         "erofs": errno.EROFS, "edquot": errno.EDQUOT, "epipe": errno.EPIPE}


def apply_fault(w, f, kind, path):
    """Turn a planned fault into its effect at this event (raises), or return a special request."""
    if f is None:
        return None
    what = f["what"]
    t = W.current()
    if what == "crash":
        w.crash(t, "crash")
    if what == "interrupt":
        w.fired["interrupt"] += 1
        w.note("FAULT interrupt")
        raise KeyboardInterrupt("simulated Ctrl-C")
    if what in ("torn_crash", "short_enospc"):
        if kind == "fs.write":
            return f
        if what == "torn_crash":
            w.crash(t, "crash")
        what = "enospc"
    if what in ERRNO:
        if kind == "stdout" and what in ("eacces", "emfile", "erofs", "edquot"):
            what = "epipe"
        if what in ("enospc", "edquot", "erofs") and kind not in WRITE_KINDS and kind != "stdout":
            what = "eio"
        if kind in ("fs.stat",) and what in ("emfile",):
            what = "eio"
        w.fired[what] += 1
        w.note("FAULT", what)
        raise OSError(ERRNO[what], os.strerror(ERRNO[what]), str(path))
    if what.startswith("net_"):
        return None
    raise W.HarnessError(f"unknown fault {what}")


def ev(w, kind, path):
    f = w.event(kind, rel(w, path))
    return apply_fault(w, f, kind, path)


class Out(io.TextIOBase):
    """Standard output: it may be a pipe whose reader has gone, or a file on a full disk."""
    encoding = "utf-8"
    errors = "strict"

    def writable(self):
        return True

    def write(self, s):
        w = W.world()
        if w is not None and s.strip():
            apply_fault(w, w.event("stdout", ""), "stdout", "<stdout>")
        return len(s)

    def flush(self):
        pass


def stamp(w, path):
    """File times follow the virtual clock."""
    try:
        R["utime"](path, (w.now, w.now))
    except OSError:
        pass


class SimFileIO(io.FileIO):
    def __init__(self, file, mode="r", closefd=True, opener=None):
        t = W.current()
        self.sim_w = W.WORLD
        self.sim_proc = t.proc
        self.sim_path = _fd_path.get(file, str(file)) if isinstance(file, int) else _abs(file)
        self.sim_writable = any(c in mode for c in "wax+")
        super().__init__(file, mode, closefd, opener)
        if t.proc is not None:
            t.proc.files.append(self)

    def _mine(self):
        w = W.world()
        return w if (w is self.sim_w and w is not None) else None

    def _dead(self):
        return self.sim_proc is not None and self.sim_proc.dead

    def _forget(self):
        try:
            _fd_path.pop(self.fileno(), None)
        except (OSError, ValueError):
            pass

    def abandon(self):
        self._forget()
        try:
            super().close()
        except OSError:
            pass

    def readinto(self, b):
        w = self._mine()
        if w:
            ev(w, "fs.read", self.sim_path)
        return super().readinto(b)

    def read(self, n=-1):
        w = self._mine()
        if w:
            ev(w, "fs.read", self.sim_path)
        return super().read(n)

    def readall(self):
        w = self._mine()
        if w:
            ev(w, "fs.read", self.sim_path)
        return super().readall()

    def write(self, b):
        if self._dead():
            if W.world() is not None:
                raise W.SimCrash("process is dead")
            return len(b)  # late flush by the garbage collector: the process is gone
        w = self._mine()
        if not w:
            return super().write(b)
        f = ev(w, "fs.write", self.sim_path)
        if f is None:
            n = super().write(b)
            stamp(w, self.sim_path)
            return n
        data = bytes(b)
        k = int(len(data) * float(f.get("frac", 0.5)))
        if k:
            super().write(data[:k])
        if f["what"] == "torn_crash":
            w.crash(None, "torn_write_crash")
        w.fired["short_write_enospc"] += 1
        w.note("FAULT short write")
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.sim_path)

    def truncate(self, size=None):
        w = self._mine()
        if w:
            ev(w, "fs.truncate", self.sim_path)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        w = self._mine()
        self._forget()
        if w and not self._dead() and self.sim_writable:
            try:
                ev(w, "fs.close_w", self.sim_path)
            finally:
                super().close()
                if not self._dead():
                    stamp(w, self.sim_path)
            return
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W.world()
    if w is None:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        scoped = file in _fd_path
    else:
        scoped = in_root(w, file)
        if not scoped and any(c in mode for c in "wax+") and _abs(file) not in _ESC_OK:
            _escape(w, "open", file)
    if not scoped:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw_mode = "".join(c for c in mode if c not in "bt")
    writing = any(c in raw_mode for c in "wax+")
    if not isinstance(file, int):
        ev(w, "fs.open_w" if writing else "fs.open_r", file)
    raw = SimFileIO(file, raw_mode, closefd, opener)
    if writing:
        stamp(w, raw.sim_path)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _wrap1(name, kind, mutating):
    def fn(path, *a, **k):
        w = W.world()
        if w is not None and not isinstance(path, int):
            if in_root(w, path):
                ev(w, kind, path)
            elif mutating:
                _escape(w, name, path)
        return R[name](path, *a, **k)
    fn.__name__ = name
    return fn


def _dev(w, path):
    p = _abs(path)
    for i, m in enumerate(w.plan.get("mounts", ())):
        if p.startswith(os.path.join(w.root, m) + "/"):
            return i + 1
    return 0


def _wrap2(name, kind):
    def fn(src, dst, *a, **k):
        w = W.world()
        if w is not None:
            for p in (src, dst):
                if name == "symlink" and p is src:
                    continue
                if not in_root(w, p):
                    _escape(w, name, p)
            ev(w, kind, dst)
            if name in ("rename", "replace", "link") and _dev(w, src) != _dev(w, dst):
                w.fired["exdev"] += 1
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), str(src), None, str(dst))
        return R[name](src, dst, *a, **k)
    fn.__name__ = name
    return fn


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = W.world()
    if w is None or dir_fd is not None:
        return R["os_open"](path, flags, mode, dir_fd=dir_fd)
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
    if not in_root(w, path):
        if writing and _abs(path) not in _ESC_OK:
            _escape(w, "os.open", path)
        return R["os_open"](path, flags, mode)
    ev(w, "fs.open_w" if writing else "fs.open_r", path)
    fd = R["os_open"](path, flags, mode)
    _fd_path[fd] = _abs(path)
    if W.current().proc is not None:
        W.current().proc.open_fds.add(fd)
    if writing:
        stamp(w, path)
    return fd


def _os_close(fd):
    w = W.world()
    path = _fd_path.pop(fd, None)
    if w is not None and path is not None:
        try:
            ev(w, "fs.close_w", path)
        finally:
            R["os_close"](fd)
        return None
    return R["os_close"](fd)


def _os_write(fd, data):
    w = W.world()
    if w is not None and fd in _fd_path:
        f = ev(w, "fs.write", _fd_path[fd])
        if f is not None:
            data = bytes(data)
            k = int(len(data) * float(f.get("frac", 0.5)))
            if k:
                R["os_write"](fd, data[:k])
            if f["what"] == "torn_crash":
                w.crash(None, "torn_write_crash")
            w.fired["short_write_enospc"] += 1
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
    return R["os_write"](fd, data)


def _os_read(fd, n):
    w = W.world()
    if w is not None and fd in _fd_path:
        ev(w, "fs.read", _fd_path[fd])
    return R["os_read"](fd, n)


def _os_fsync(fd):
    w = W.world()
    if w is not None and fd in _fd_path:
        ev(w, "fs.fsync", _fd_path[fd])
        return None
    return R["os_fsync"](fd)


def _stat_like(name):
    def fn(path, *a, **k):
        w = W.world()
        if w is not None and not isinstance(path, int) and in_root(w, path):
            ev(w, "fs.stat", path)
        return R[name](path, *a, **k)
    fn.__name__ = name
    return fn


class _ScanDir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _order(w, names):
    """Directory order is the file system's choice: a seeded permutation."""
    names = sorted(names, key=lambda e: e if isinstance(e, (str, bytes)) else e.name)
    rng = random.Random(f"{w.plan.get('dir_seed', 0)}/{len(names)}/{w.events['fs.list']}")
    rng.shuffle(names)
    return names


def _scandir(path="."):
    w = W.world()
    if w is not None and not isinstance(path, int) and in_root(w, path):
        ev(w, "fs.list", path)
        with R["scandir"](path) as it:
            return _ScanDir(_order(w, list(it)))
    return R["scandir"](path)


def _listdir(path="."):
    w = W.world()
    if w is not None and not isinstance(path, int) and in_root(w, path):
        ev(w, "fs.list", path)
        return _order(w, R["listdir"](path))
    return R["listdir"](path)


# ---------------------------------------------------------------------- clock and entropy
def _clock(name, ns=False, mono=False):
    def fn(*a):
        w = W.world()
        if w is None:
            return R[name](*a)
        v = (w.now - w.t_start) + 50.0 if mono else w.now
        return int(v * 1e9) if ns else v
    fn.__name__ = name
    return fn


def _sleep(s):
    w = W.world()
    if w is None:
        return R["sleep"](s)
    w.event("sleep", f"{s:.3f}")
    w.now += max(0.0, float(s))
    w.yield_now(W.current())


def _urandom(n):
    w = W.world()
    if w is None:
        return R["urandom"](n)
    if not hasattr(w, "ent"):
        w.ent = random.Random(f"ent/{w.plan.get('entropy_seed', 0)}")
    return w.ent.randbytes(n)


def _getpid():
    w = W.world()
    if w is None:
        return R["getpid"]()
    t = W.current()
    return t.proc.pid if t.proc is not None else R["getpid"]()


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        w = W.world()
        if w is None:
            return next(R["names"]())
        if not hasattr(w, "names"):
            w.names = random.Random(f"names/{w.plan.get('entropy_seed', 0)}")
        return "".join(w.names.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


# ---------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock / RLock handed to library code: blocks in the simulator's scheduler."""

    def __init__(self, reentrant):
        self._real = R["RLock"]() if reentrant else R["Lock"]()
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _free(self, t):
        return self.owner is None or (self.reentrant and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        t = W.current() if W.world() is not None else None
        if t is None:
            if W.FORKED and self.owner is not None:  # held by a thread that does not exist in this process
                if not blocking or timeout >= 0:
                    return False
                os._exit(3)  # stands for waiting for ever
            return self._real.acquire(blocking, timeout)
        W.WORLD.event("lock", "acquire", can_fault=False)
        if self.owner is not None and self.owner.proc is not None and self.owner.proc.dead:
            self.owner, self.count = None, 0
        if not self._free(t):
            if not blocking or timeout == 0:
                return False
            W.WORLD.wait_for(lambda: self._free(t))
        self.owner = t
        self.count += 1
        return True

    def release(self):
        t = W.current() if W.world() is not None else None
        if t is None:
            return self._real.release()
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0
        self._real._at_fork_reinit()

    # for threading.Condition
    def _is_owned(self):
        return self.owner is W.current()


def _lock_factory(name, reentrant):
    def make(*a, **k):
        g = sys._getframe(1).f_globals.get("__name__", "")
        if g == "torchiva" or g.startswith("torchiva."):
            return SimLock(reentrant)
        return R[name](*a, **k)
    make.__name__ = name
    return make


def _flock(fd, op):
    import fcntl
    w = W.world()
    if w is None or op & fcntl.LOCK_UN:
        return R["flock"](fd, op)
    w.event("lock", "flock", can_fault=False)
    if op & fcntl.LOCK_NB:
        return R["flock"](fd, op)

    def got():
        try:
            R["flock"](fd, op | fcntl.LOCK_NB)
            return True
        except OSError:
            return False
    w.wait_for(got, "flock")


def _patch_datetime():
    import datetime as dt
    real = dt.datetime

    class datetime(real):
        @classmethod
        def now(cls, tz=None):
            w = W.world()
            return real.now(tz) if w is None else real.fromtimestamp(w.now, tz)

        @classmethod
        def utcnow(cls):
            w = W.world()
            return real.utcnow() if w is None else real.fromtimestamp(w.now, dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    dt.datetime = datetime
    for name in ("localtime", "gmtime", "ctime"):
        R[name] = getattr(time, name)

        def fn(secs=None, name=name):
            w = W.world()
            if secs is None and w is not None:
                secs = w.now
            return R[name](secs)
        setattr(time, name, fn)
    R["strftime"] = time.strftime
    time.strftime = lambda fmt, t=None: R["strftime"](fmt, t if t is not None else time.localtime())


def _patch_torch_seed():
    """torch.seed() draws a seed from the operating system."""
    try:
        import torch
    except ImportError:
        return
    R["torch_seed"] = torch.seed

    def seed():
        w = W.world()
        if w is None:
            return R["torch_seed"]()
        n = int.from_bytes(_urandom(7), "little")
        torch.manual_seed(n)
        return n
    torch.seed = torch.random.seed = seed

    class Generator(torch.Generator):
        def seed(self):
            if W.world() is None:
                return super().seed()
            n = int.from_bytes(_urandom(7), "little")
            self.manual_seed(n)
            return n
    Generator.__qualname__ = Generator.__name__ = "Generator"
    torch.Generator = Generator


def install():
    if R:
        return
    R.update(open=io.open, os_open=os.open, os_close=os.close, os_write=os.write, os_read=os.read, os_fsync=os.fsync,
             scandir=os.scandir, listdir=os.listdir, getcwd=os.getcwd, getpid=os.getpid, urandom=os.urandom,
             sleep=time.sleep, names=tempfile._get_candidate_names, Lock=threading.Lock, RLock=threading.RLock)
    builtins.open = io.open = sim_open
    os.open, os.close, os.write, os.read, os.fsync = _os_open, _os_close, _os_write, _os_read, _os_fsync
    os.fdatasync = _os_fsync
    os.scandir, os.listdir = _scandir, _listdir
    for name, kind in (("mkdir", "fs.mkdir"), ("rmdir", "fs.unlink"), ("unlink", "fs.unlink"), ("remove", "fs.unlink"),
                       ("truncate", "fs.truncate"), ("utime", "fs.utime"), ("chmod", "fs.utime")):
        R[name] = getattr(os, name)
        setattr(os, name, _wrap1(name, kind, True))
    for name in ("rename", "replace", "link", "symlink"):
        R[name] = getattr(os, name)
        setattr(os, name, _wrap2(name, "fs.rename" if name in ("rename", "replace") else "fs.link"))
    for name in ("stat", "lstat", "readlink", "access"):
        R[name] = getattr(os, name)
        setattr(os, name, _stat_like(name))
    for fam in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
        for name in list(R):
            if R[name] in fam:
                fam.add(getattr(os, name, R[name]))
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    for name, ns, mono in (("time", 0, 0), ("time_ns", 1, 0), ("monotonic", 0, 1), ("monotonic_ns", 1, 1),
                           ("perf_counter", 0, 1), ("perf_counter_ns", 1, 1)):
        R[name] = getattr(time, name)
        setattr(time, name, _clock(name, ns, mono))
    time.sleep = _sleep
    _patch_datetime()
    os.urandom = random._urandom = _urandom
    os.getpid = _getpid
    tempfile._get_candidate_names = lambda: _Names()
    _patch_torch_seed()
    threading.Lock = _lock_factory("Lock", False)
    threading.RLock = _lock_factory("RLock", True)
    import fcntl
    R["flock"] = fcntl.flock
    fcntl.flock = _flock
