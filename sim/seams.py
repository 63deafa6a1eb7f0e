"""
The seam between the library (with the third-party readers it calls) and the
operating system.

`install()` must run before pdr, PIL, astropy, pandas, ... are imported; it
replaces, at their module attributes, every entry point through which this code
base reaches storage, clocks and locks:

    builtins.open, io.open, bz2._builtin_open     -> sim_open
    numpy.fromfile                                -> sim_fromfile
    mmap.mmap                                     -> SimMmap
    os.open/read/pread/close/lseek/stat/lstat/
    listdir/scandir/fstat-size users              -> wrappers
    time.time/monotonic/perf_counter              -> virtual clock when enabled
    threading.Lock/RLock                          -> cooperative locks
    an audit hook                                 -> every open and every
                                                     mutating call, also those
                                                     that bypass the above

With no active `Ctx`, or for paths outside the context's root, all of these are
transparent.  Bytes themselves live in real files under a scratch root; what the
simulator owns is *delivery* (how many bytes a raw read hands over, which call
fails, when a file shrinks or vanishes, how a directory is ordered, who runs
next).
"""
from __future__ import annotations

import builtins
import bz2
import errno
import io
import mmap as _mmap_mod
import os
import random
import stat
import sys
import threading
import time as _time_mod

real_open = builtins.open
real_os_open = os.open
real_os_close = os.close
real_os_read = os.read
real_os_pread = os.pread
real_os_stat = os.stat
real_os_lstat = os.lstat
real_os_listdir = os.listdir
real_os_scandir = os.scandir
real_mmap = _mmap_mod.mmap
real_Lock = threading.Lock
real_RLock = threading.RLock
real_time = _time_mod.time
real_monotonic = _time_mod.monotonic
real_perf = _time_mod.perf_counter
real_FileIO = io.FileIO
real_fromfile = None

CTX = None  # the active context of this process


class SimInterrupt(KeyboardInterrupt):
    """The injected user interrupt."""


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


OPEN_ERRNOS = ("EIO", "EACCES", "ENOENT", "EMFILE", "ESTALE")
READ_ERRNOS = ("EIO", "ESTALE")


class Ctx:
    """One simulated execution's view of the world."""

    def __init__(self, root, *, seed=0, delivery=None, faults=(), sched=None,
                 dirseed=None, extra_roots=()):
        self.root = os.path.realpath(str(root))
        self.pref = self.root + os.sep
        self.rng = random.Random(f"ctx:{seed}")
        self.delivery = delivery or {}
        self.faults = [dict(f) for f in faults]
        self.sched = sched
        self.dirseed = dirseed
        self.n = 0              # seam steps so far
        self.log = []
        self.armed = True
        self.fired = {}         # fault kind -> times it took effect
        self.benign = {}        # benign delivery events
        self.opens = {}         # id(raw) -> (rel, mode)
        self.audit = []         # (event, args) of opens-for-write, mutations
        self.watch_all_writes = False
        self.in_sim = 0
        self.sticky = {}        # rel path -> errno name, until healed
        self.vanished = []      # (moved, original)
        self.fds = {}           # raw os.open fds
        self.op = ""            # label of the current operation
        self.fired_steps = []
        self.maxsteps = 200_000
        self.wall_start = None
        self.write_faults = None
        self.lenlog = True
        self.disk_left = None   # bytes that still fit on the disk
        self.threaded = sched is not None
        self.keep_whole = None  # paths that are never to shrink
        self._index_faults()

    def arm(self, faults, total):
        """
        from here on, inject these; a fault's `pos` in [0, 1) is its place among
        the `total` steps a faultless run takes from here
        """
        self.faults = [dict(f) for f in faults]
        base = self.n
        for f in self.faults:
            if f.get("pos") is not None:
                f["at"] = base + min(int(f["pos"] * total), max(total - 1, 0))
        self._index_faults()
        self.armed = True

    def _index_faults(self):
        self.by_step = {}
        self.by_match = []
        for f in self.faults:
            if f.get("at") is not None:
                self.by_step.setdefault(int(f["at"]), []).append(f)
            else:
                self.by_match.append(f)

    # -- paths -----------------------------------------------------------
    def rel(self, path):
        """path relative to the root, or None if outside"""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p)) \
            if not p.startswith(self.pref) or ".." in p else p
        if p == self.root:
            return "."
        if p.startswith(self.pref):
            return p[len(self.pref):]
        return None

    # -- the step --------------------------------------------------------
    def step(self, op, rel, size=None):
        """
        One seam event.  Lets the scheduler switch threads, then decides whether
        a fault fires here.  Returns None or the fault to be applied by the
        caller; simple error faults are raised from here.
        """
        if self.sched is not None:
            self.sched.point(f"{op}:{rel}")
        n = self.n
        self.n += 1
        if n > self.maxsteps:
            raise HarnessError("simulated run exceeded its step budget")
        self.log.append((op, rel) if size is None or not self.lenlog
                        else (op, rel, size))
        if not self.armed:
            return None
        if self.sticky:
            k = self.sticky.get(rel)
            if k is not None and op in ("open", "read", "fread", "osread"):
                self.fire("sticky_" + k)
                raise OSError(getattr(errno, k), os.strerror(getattr(errno, k)),
                              rel)
        todo = self.by_step.get(n)
        if todo:
            for f in todo:
                r = self.apply(f, op, rel)
                if r is not None:
                    return r
        for f in self.by_match:
            if f.get("op") and f["op"] != op:
                continue
            if f.get("path") and f["path"] != rel:
                continue
            f["seen"] = f.get("seen", -1) + 1
            if f["seen"] == f.get("nth", 0) or f.get("every"):
                r = self.apply(f, op, rel)
                if r is not None:
                    return r
        return None

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.fired_steps.append((self.n - 1, kind))

    def apply(self, f, op, rel):
        kind = f["kind"]
        if kind == "KBI":
            self.fire("interrupt")
            raise SimInterrupt("simulated interrupt")
        if kind == "MEM":
            if op in ("read", "fread", "mmap", "osread"):
                self.fire("failed_allocation")
                raise MemoryError("simulated allocation failure")
            return None
        if kind == "ERR":
            no = f.get("errno", "EIO")
            if op in ("read", "fread", "osread") and no not in READ_ERRNOS:
                no = "EIO"
            if op in ("write", "closew") and no not in ("ENOSPC", "EIO", "EDQUOT"):
                no = "ENOSPC"
            if op == "write":
                self.fire(f"error_write_{no}")
                return {"partial": f.get("frac", 0.0), "errno": no}
            if op == "fread":
                # numpy.fromfile uses fread() and does not look at ferror():
                # a failing device shows up as a short count
                self.fire(f"error_fread_{no}")
                return {"short": f.get("frac", 0.0)}
            if op in ("stat",) and no == "EMFILE":
                no = "EIO"
            self.fire(f"error_{op}_{no}")
            # (no variable: an exception its own traceback's frame refers to would
            # keep everything alive until the garbage is collected)
            raise OSError(getattr(errno, no), os.strerror(getattr(errno, no)), rel)
        if kind == "STICKY":
            if rel and rel != ".":
                self.sticky[rel] = f.get("errno", "EIO")
                self.fire(f"sticky_on")
                if op in ("open", "read", "osread"):
                    no = self.sticky[rel]
                    raise OSError(getattr(errno, no),
                                  os.strerror(getattr(errno, no)), rel)
                if op == "fread":
                    return {"short": 0.0}
            return None
        if kind == "TRUNC":
            if not rel or rel == "." or not os.path.isfile(self.root + "/" + rel):
                return None
            if self.keep_whole is not None and self.keep_whole(rel):
                return None
            if self.mapped_now():
                return None  # a real shrink would be SIGBUS, not an error
            size = real_os_stat(self.root + "/" + rel).st_size
            to = int(size * f.get("frac", 0.5))
            self._truncate(rel, to)
            self.fire("file_shrinks")
            return None
        if kind == "VANISH":
            if not rel or rel == ".":
                return None
            p = self.root + "/" + rel
            if not os.path.isfile(p):
                return None
            self.in_sim += 1
            try:
                aside = f"{self.root}.vanished.{len(self.vanished)}"
                os.rename(p, aside)
            finally:
                self.in_sim -= 1
            self.vanished.append((aside, p))
            self.fire("file_vanishes")
            return None
        raise HarnessError(f"unknown fault {f}")

    def _truncate(self, rel, to):
        p = self.root + "/" + rel
        self.in_sim += 1
        try:
            with real_open(p, "rb") as fh:
                whole = fh.read()
            self.vanished.append((None, p, whole))
            os.truncate(p, to)
        finally:
            self.in_sim -= 1

    def heal(self):
        """end all faults, bring back what vanished or shrank"""
        self.armed = False
        self.sticky = {}
        self.disk_left = None
        self.in_sim += 1
        try:
            for rec in reversed(self.vanished):
                if rec[0] is None:
                    with real_open(rec[1], "wb") as fh:
                        fh.write(rec[2])
                else:
                    os.rename(rec[0], rec[1])
        finally:
            self.in_sim -= 1
        self.vanished = []

    # -- lifetime --------------------------------------------------------
    def __enter__(self):
        global CTX
        if CTX is not None:
            raise HarnessError("nested contexts")
        CTX = self
        return self

    def __exit__(self, *exc):
        global CTX
        CTX = None
        if self.vanished:
            self.heal()
        return False

    # -- open files ------------------------------------------------------
    def open_now(self):
        """relative paths that are open in this process right now (kernel's view)"""
        out = []
        for fd in real_os_listdir("/proc/self/fd"):
            try:
                t = os.readlink(f"/proc/self/fd/{fd}")
            except OSError:
                continue
            if t.endswith(" (deleted)"):
                t = t[:-10]
            if t.startswith(self.pref):
                out.append(t[len(self.pref):])
        return sorted(out)

    def mapped_now(self):
        out = []
        with real_open("/proc/self/maps") as fh:
            for line in fh:
                ix = line.find("/")
                if ix < 0:
                    continue
                t = line[ix:].rstrip("\n")
                if t.endswith(" (deleted)"):
                    t = t[:-10]
                if t.startswith(self.pref):
                    out.append(t[len(self.pref):])
        return sorted(out)


def _ctx_for(path):
    c = CTX
    if c is None or c.in_sim:
        return None, None
    if isinstance(path, int):
        return None, None
    rel = c.rel(path)
    if rel is None:
        return None, None
    return c, rel


# ---------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------
class SimRaw(io.FileIO):
    """A raw file whose reads and writes the simulator delivers."""

    def __init__(self, path, mode, ctx, rel):
        self._ctx, self._rel = None, rel
        ctx.in_sim += 1
        try:
            super().__init__(path, mode)
        finally:
            ctx.in_sim -= 1
        self._ctx = ctx
        ctx.opens[id(self)] = (rel, mode)

    # reading
    def _deliver(self, want):
        """how many bytes this raw read hands over"""
        c = self._ctx
        if want <= 1:
            return want
        p = c.delivery.get("p_short", 0)
        if p and c.rng.random() < p:
            c.benign["short_read"] = c.benign.get("short_read", 0) + 1
            style = c.rng.random()
            if style < 0.3:
                return 1
            if style < 0.6:
                return min(want, 1 + c.rng.randrange(16))
            return 1 + c.rng.randrange(want)
        return want

    def readinto(self, b):
        c = self._ctx
        if c is None or CTX is not c:
            return super().readinto(b)
        mv = memoryview(b).cast("B")
        want = len(mv)
        c.step("read", self._rel, want)
        if c.delivery.get("p_eintr") and c.rng.random() < c.delivery["p_eintr"]:
            # the call is interrupted, python runs signal handlers and retries
            c.benign["eintr_retry"] = c.benign.get("eintr_retry", 0) + 1
            c.step("read", self._rel, want)
        n = self._deliver(want)
        return super().readinto(mv[:n])

    def readall(self):
        c = self._ctx
        if c is None or CTX is not c:
            return super().readall()
        out = bytearray()
        while True:
            buf = bytearray(c.delivery.get("readall_piece", 65536))
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def read(self, size=-1):
        c = self._ctx
        if c is None or CTX is not c:
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    # writing
    def write(self, b):
        c = self._ctx
        if c is None or CTX is not c:
            return super().write(b)
        mv = memoryview(b).cast("B")
        if self._failing:
            raise OSError(getattr(errno, self._failing),
                          os.strerror(getattr(errno, self._failing)), self._rel)
        r = c.step("write", self._rel, len(mv))
        if c.disk_left is not None:
            if c.disk_left < len(mv):
                if c.disk_left == 0:
                    c.fire("disk_full")
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._rel)
                mv = mv[:c.disk_left]
            c.disk_left -= len(mv)
        if r is not None and "partial" in r:
            # the device takes a part, and refuses from then on
            self._failing = r["errno"]
            n = int(len(mv) * r["partial"])
            if n == 0:
                raise OSError(getattr(errno, self._failing),
                              os.strerror(getattr(errno, self._failing)),
                              self._rel)
            return super().write(mv[:n])
        p = c.delivery.get("p_short_write", 0)
        if p and len(mv) > 1 and c.rng.random() < p:
            c.benign["short_write"] = c.benign.get("short_write", 0) + 1
            mv = mv[: 1 + c.rng.randrange(len(mv))]
        return super().write(mv)

    _failing = None

    def fileno(self):
        if self._ctx is not None and CTX is self._ctx and self.writable() and \
                "PIL" in sys._getframe(1).f_code.co_filename:
            # pillow's encoders then write through this object, not beside it
            raise io.UnsupportedOperation("fileno")
        return super().fileno()

    def close(self):
        c = self._ctx
        if c is not None:
            c.opens.pop(id(self), None)
            if not self.closed and CTX is c and self.writable():
                try:
                    c.step("closew", self._rel)
                except OSError:
                    super().close()
                    raise
        super().close()


class SimBufferedReader(io.BufferedReader):
    pass


class SchedBufferedReader(SimBufferedReader):
    """
    a buffered file whose lock is one the scheduler knows: threads that share it
    wait for one another at the simulator's points, not inside C code
    """

    def __init__(self, *a):
        super().__init__(*a)
        self._coop = CoopLock(real_RLock)


def _locked(name):
    base = getattr(io.BufferedReader, name)

    def method(self, *args):
        with self._coop:
            return base(self, *args)
    method.__name__ = name
    return method


for _n in ("read", "read1", "readinto", "readinto1", "peek", "seek", "tell",
           "readline", "readlines", "truncate", "flush"):
    setattr(SchedBufferedReader, _n, _locked(_n))


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    c, rel = _ctx_for(file)
    if c is None or opener is not None:
        return real_open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    if not isinstance(mode, str):
        raise TypeError(f"invalid mode: {mode!r}")
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError(f"invalid mode: {mode!r}")
    text, binary = "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    writing = bool(modes & set("axw+"))
    c.step("open" if not writing else "openw", rel)
    rawmode = "".join(m for m in "axrw" if m in modes) + \
        ("+" if "+" in modes else "")
    try:
        isdir = stat.S_ISDIR(real_os_stat(os.fspath(file)).st_mode)
    except OSError:
        isdir = False
    if isdir:
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR),
                                os.fspath(file))
    raw = SimRaw(os.fspath(file), rawmode, c, rel)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = False
        if buffering == 1 and not binary:
            buffering, line = -1, True
        size = buffering
        if size < 0 or size == 1:
            size = c.delivery.get("bufsize", io.DEFAULT_BUFFER_SIZE)
        if "+" in modes:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = (SchedBufferedReader if c.threaded else io.BufferedReader)(raw, size)
        if binary:
            return buf
        encoding = io.text_encoding(encoding)
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _rawof(f):
    raw = getattr(f, "raw", None)
    if isinstance(raw, SimRaw):
        return raw
    if isinstance(f, SimRaw):
        return f
    return None


def sim_fromfile(file, dtype=float, count=-1, sep="", offset=0, *, like=None):
    """
    numpy.fromfile, with the reading done through the seam.  As in numpy, an
    I/O error met by fread() is not reported: the array is just shorter.
    """
    import numpy as np

    kw = {} if like is None else {"like": like}
    if CTX is None:
        return real_fromfile(file, dtype=dtype, count=count, sep=sep,
                             offset=offset, **kw)
    if isinstance(file, (str, os.PathLike)):
        c, rel = _ctx_for(file)
        if c is None or sep != "":
            return real_fromfile(file, dtype=dtype, count=count, sep=sep,
                                 offset=offset, **kw)
        with sim_open(file, "rb") as fh:
            return sim_fromfile(fh, dtype, count, sep, offset, like=like)
    raw = _rawof(file)
    if raw is None or sep != "" or raw._ctx is not CTX:
        return real_fromfile(file, dtype=dtype, count=count, sep=sep,
                             offset=offset, **kw)
    c = CTX
    dtype = np.dtype(dtype)
    if file.closed:
        raise ValueError("I/O operation on closed file")
    pos = file.tell() + offset
    want = None if count is None or count < 0 else int(count) * dtype.itemsize
    fd = raw.fileno()
    size = os.fstat(fd).st_size
    if want is None:
        want = max(0, ((size - pos) // dtype.itemsize if dtype.itemsize else 0)
                   * dtype.itemsize)
    r = c.step("fread", raw._rel, want)
    lim = want
    if r is not None and "short" in r:
        lim = int(want * r["short"])
    out = bytearray()
    while len(out) < lim:
        n = raw._deliver(min(lim - len(out), 1 << 20))
        chunk = real_os_pread(fd, n, pos + len(out))
        if not chunk:
            break
        out += chunk
    nitems = len(out) // dtype.itemsize if dtype.itemsize else 0
    arr = np.empty(nitems, dtype=dtype)
    if nitems:
        arr.view("V%d" % dtype.itemsize)[:] = np.frombuffer(
            bytes(out[: nitems * dtype.itemsize]), dtype="V%d" % dtype.itemsize) \
            if not dtype.hasobject else None
    file.seek(pos + nitems * dtype.itemsize)
    return arr


class SimMmap(_mmap_mod.mmap):
    def __new__(cls, fileno, length, *args, **kwargs):
        c = CTX
        if c is not None and not c.in_sim and isinstance(fileno, int) and fileno >= 0:
            try:
                t = os.readlink(f"/proc/self/fd/{fileno}")
            except OSError:
                t = ""
            if t.startswith(c.pref):
                acc = kwargs.get("access", args[0] if args else None)
                c.step("mmap", t[len(c.pref):])
                c.audit.append(("mmap", t[len(c.pref):], str(acc)))
        return super().__new__(cls, fileno, length, *args, **kwargs)


# ---------------------------------------------------------------------------
# os level
# ---------------------------------------------------------------------------
def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    c, rel = _ctx_for(path) if dir_fd is None else (None, None)
    if c is None:
        return real_os_open(path, flags, mode, dir_fd=dir_fd)
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    c.step("openw" if w else "open", rel)
    fd = real_os_open(path, flags, mode)
    c.fds[fd] = rel
    return fd


def _fdrel(fd):
    c = CTX
    if c is None or c.in_sim:
        return None, None
    return (c, c.fds[fd]) if fd in c.fds else (None, None)


def sim_os_read(fd, n):
    c, rel = _fdrel(fd)
    if c is None:
        return real_os_read(fd, n)
    c.step("osread", rel, n)
    p = c.delivery.get("p_short", 0)
    if n > 1 and p and c.rng.random() < p:
        c.benign["short_read"] = c.benign.get("short_read", 0) + 1
        n = 1 + c.rng.randrange(n)
    return real_os_read(fd, n)


def sim_os_close(fd):
    c = CTX
    if c is not None:
        c.fds.pop(fd, None)
    return real_os_close(fd)


def sim_os_stat(path, *, dir_fd=None, follow_symlinks=True):
    c, rel = _ctx_for(path) if dir_fd is None else (None, None)
    if c is not None:
        c.step("stat", rel)
    if dir_fd is None:
        return real_os_stat(path, follow_symlinks=follow_symlinks)
    return real_os_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def _order(c, rel, names):
    names = sorted(names)
    seed = c.dirseed
    if seed == "sorted" or seed is None:
        return names
    if seed == "reversed":
        return names[::-1]
    random.Random(f"dir:{seed}:{rel}:{len(names)}").shuffle(names)
    return names


def sim_os_listdir(path="."):
    c, rel = _ctx_for(path)
    if c is None:
        return real_os_listdir(path)
    c.step("listdir", rel)
    return _order(c, rel, real_os_listdir(path))


class _ScandirIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def sim_os_scandir(path="."):
    c, rel = _ctx_for(path)
    if c is None:
        return real_os_scandir(path)
    c.step("listdir", rel)
    with real_os_scandir(path) as it:
        byname = {e.name: e for e in it}
    return _ScandirIter([byname[n] for n in _order(c, rel, byname)])


# ---------------------------------------------------------------------------
# clocks
# ---------------------------------------------------------------------------
class Clock:
    """virtual clock; advances by a seeded amount per reading, may jump"""

    def __init__(self, seed, start=1_700_000_000.0, jump=0.0):
        self.rng = random.Random(f"clock:{seed}")
        self.now = start
        self.start = start
        self.jump = jump
        self.reads = 0
        self.jumps = 0
        self.covered = 0.0

    def read(self):
        self.reads += 1
        d = self.rng.random() * 0.01
        if self.jump and self.rng.random() < self.jump:
            self.jumps += 1
            d = self.rng.choice((-1, 1)) * self.rng.random() * 86400 * 400
        self.now += d
        self.covered += abs(d)
        return self.now


CLOCK = None


def sim_time():
    return real_time() if CLOCK is None else CLOCK.read()


def sim_monotonic():
    return real_monotonic() if CLOCK is None else CLOCK.read()


def sim_perf():
    return real_perf() if CLOCK is None else CLOCK.read()


# ---------------------------------------------------------------------------
# locks
# ---------------------------------------------------------------------------
class CoopLock:
    """a lock whose waiters yield to the simulator's scheduler"""

    def __init__(self, factory):
        self._l = factory()

    def acquire(self, blocking=True, timeout=-1):
        c = CTX
        s = c.sched if c is not None else None
        if s is None or not s.managed():
            return self._l.acquire(blocking, timeout)
        while True:
            if self._l.acquire(False):
                return True
            if not blocking or timeout == 0:
                return False
            s.point("lock", blocked=True)

    def release(self):
        self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._l.locked()

    def __getattr__(self, k):
        return getattr(self._l, k)


def sim_Lock():
    return CoopLock(real_Lock)


def sim_RLock():
    return CoopLock(real_RLock)


# ---------------------------------------------------------------------------
# audit
# ---------------------------------------------------------------------------
MUTATORS = {
    "os.remove", "os.rename", "os.truncate", "os.chmod", "os.chown", "os.utime",
    "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.setxattr",
    "os.removexattr", "shutil.copyfile", "shutil.move", "shutil.rmtree",
    "shutil.copymode", "shutil.copystat", "os.mkfifo", "os.mknod",
    "tempfile.mkstemp", "tempfile.mkdtemp",
}


def _audit(event, args):
    c = CTX
    if c is None or c.in_sim:
        return
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, (str, bytes)):
            return
        w = (isinstance(flags, int) and
             flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if mode is not None and isinstance(mode, str) and set(mode) & set("wax+"):
            w = True
        if w:
            p = os.fsdecode(path)
            c.audit.append(("open-for-write", p, str(mode)))
    elif event in MUTATORS:
        c.audit.append((event,) + tuple(
            os.fsdecode(a) if isinstance(a, (str, bytes)) else str(a)
            for a in args[:2]))


_installed = False


def install():
    global _installed, real_fromfile
    if _installed:
        return
    _installed = True
    if "pdr" in sys.modules:
        raise HarnessError("seams must be installed before pdr is imported")
    builtins.open = sim_open
    io.open = sim_open
    bz2._builtin_open = sim_open
    os.open = sim_os_open
    os.read = sim_os_read
    os.close = sim_os_close
    os.stat = sim_os_stat
    os.listdir = sim_os_listdir
    os.scandir = sim_os_scandir
    _mmap_mod.mmap = SimMmap
    _time_mod.time = sim_time
    _time_mod.monotonic = sim_monotonic
    _time_mod.perf_counter = sim_perf
    threading.Lock = sim_Lock
    threading.RLock = sim_RLock
    import numpy as np
    real_fromfile = np.fromfile
    np.fromfile = sim_fromfile
    sys.addaudithook(_audit)
