"""Simulated operating system: file access with faults and crash points.

Files live in a private scratch directory (the process chdir()s into it); every
call mplang makes goes through these wrappers, which are scheduling points,
inject disk errors / short / torn writes, place crashes between and inside
operations, and refuse (and record) any change outside the scratch directory.
"""

from __future__ import annotations

import errno
import io
import os as _os
import posix as _posix
import sys
import types

from . import kernel as K
from . import prims
from .kernel import TaskKilled

SCRATCH: str | None = None
ALLOW_WRITE: list[str] = []


class FSFaults:
    """Per-run disk behaviour; attached to the kernel as k.fs."""

    def __init__(self, k):
        self.k = k
        self.ops = 0
        self.p_write_err = 0.0
        self.p_read_err = 0.0
        self.p_meta_err = 0.0
        self.p_short = 0.0
        self.crash_at = {}  # node -> remaining mutating operations
        self.on_crash = None
        self.escapes = []
        self.mutations = 0
        self.filter = None  # path predicate limiting where faults apply
        self.yields = True
        self.links = None   # "within" a directory only, "never", or everywhere
        self.history = None
        self.durable = None  # Durable, when power failures are simulated


class Durable:
    """What a power failure may undo: unsynced file contents and directory changes.

    Contents of a file written since its last fsync become the previous synced
    contents, any prefix of the new ones, or stay. Directory changes (create,
    rename, unlink, ...) since the last fsync of anything are lost in reverse
    order, as on a journalling file system. The model is kind to the code under
    test: one fsync commits every earlier directory change.
    """

    def __init__(self, k):
        self.k = k
        self.dirty = {}     # path -> synced contents (None: did not exist)
        self.undo = []      # (path, function) oldest first

    @staticmethod
    def _read(path):
        try:
            with io.open(path, "rb") as f:
                return f.read()
        except OSError:
            return None

    @staticmethod
    def _write(path, data):
        try:
            with io.open(path, "wb") as f:
                f.write(data)
        except OSError:
            pass

    def opening(self, path):
        path = _os.path.realpath(path)
        if path in self.dirty:
            if not _os.path.exists(path):
                self.undo.append((path, lambda: self._gone(path)))
            return
        old = self._read(path)
        if old is None:
            self.undo.append((path, lambda: self._gone(path)))
        self.dirty[path] = old

    @staticmethod
    def _gone(path):
        try:
            if _os.path.isdir(path) and not _os.path.islink(path):
                _os.rmdir(path)
            else:
                _os.unlink(path)
        except OSError:
            pass

    def synced(self, fd):
        try:
            path = _os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            return
        self.dirty.pop(path, None)
        self.undo.clear()

    def meta(self, name, a):
        """Called before a directory change; returns a function for after it."""
        path = _os.path.abspath(_os.fspath(a[0]))
        if name in ("rename", "replace"):
            dst = _os.path.abspath(_os.fspath(a[1]))
            old = self._read(dst) if not _os.path.islink(dst) else None
            link = _os.readlink(dst) if _os.path.islink(dst) else None
            was = self.dirty.get(dst)
            had = dst in self.dirty

            def after():
                if path in self.dirty:
                    self.dirty[dst] = self.dirty.pop(path)
                else:
                    self.dirty.pop(dst, None)

                def undo():
                    try:
                        _os.rename(dst, path)
                    except OSError:
                        return
                    if link is not None:
                        _os.symlink(link, dst)
                    elif old is not None:
                        self._write(dst, (was or b"") if had else old)
                self.undo.append((dst, undo))
            return after
        if name in ("unlink", "remove"):
            old = self._read(path) if not _os.path.islink(path) else None
            link = _os.readlink(path) if _os.path.islink(path) else None

            def after():
                def undo():
                    if _os.path.lexists(path):
                        return
                    if link is not None:
                        _os.symlink(link, path)
                    elif old is not None:
                        self._write(path, old)
                self.undo.append((path, undo))
            return after
        if name in ("mkdir", "symlink", "link"):
            made = path if name == "mkdir" else _os.path.abspath(_os.fspath(a[1]))
            return lambda: self.undo.append((made, lambda: self._gone(made)))
        return None

    def writeback(self, prefix):
        """The system wrote everything below `prefix` to the disk."""
        prefix = _os.path.realpath(prefix)
        self.dirty = {p: o for p, o in self.dirty.items() if not p.startswith(prefix)}
        self.undo = [(p, f) for p, f in self.undo if not p.startswith(prefix)]

    def power_loss(self, prefix):
        """The machine owning everything below `prefix` loses power."""
        k = self.k
        k.count_fault("power-loss")
        prefix = _os.path.realpath(prefix)
        mine = [(p, f) for p, f in self.undo if p.startswith(prefix)]
        n = k.fault_int(len(mine) + 1)
        for p, old in list(self.dirty.items()):
            if not p.startswith(prefix):
                continue
            cur = self._read(p)
            if cur is not None:
                c = k.fault_int(4)
                if c == 1:
                    self._write(p, old or b"")
                    k.count_fault("lost-write")
                elif c >= 2:
                    self._write(p, cur[:k.fault_int(len(cur) + 1)])
                    k.count_fault("lost-write")
            del self.dirty[p]
        for p, f in reversed(mine[len(mine) - n:]):
            f()
            k.count_fault("lost-directory-change")
        self.undo = [(p, f) for p, f in self.undo if not p.startswith(prefix)]


def _fs():
    k = K.CURRENT
    return getattr(k, "fs", None) if k is not None else None


def inside(path):
    """True if a change to `path` stays in the scratch area."""
    try:
        p = _os.fspath(path)
        if isinstance(p, bytes):
            p = _os.fsdecode(p)
        p = _os.path.abspath(p)
        parent = _os.path.realpath(_os.path.dirname(p))
        full = _os.path.join(parent, _os.path.basename(p))
    except TypeError:
        return True  # a descriptor
    roots = ([SCRATCH] if SCRATCH else []) + ALLOW_WRITE
    return any(full == r or full.startswith(r + "/") for r in roots)


def _guard(path):
    if isinstance(path, int):
        return
    if not inside(path):
        fs = _fs()
        if fs is not None:
            fs.escapes.append(str(path))
        raise PermissionError(errno.EACCES, "outside the simulated disk", str(path))


def _applies(fs, path):
    if fs.filter is None or path is None:
        return True
    if isinstance(path, int):
        return True
    return fs.filter(str(path))


def _pre(kind, path, mutating):
    """Scheduling point, crash point and error injection before an operation."""
    k = K.CURRENT
    if k is None:
        return
    t = K.current_task()
    if t is None:
        return
    if k.over:
        raise TaskKilled()
    fs = _fs()
    if fs is None:
        return
    fs.ops += 1
    if fs.yields:
        k.yield_("fs." + kind)
    if mutating:
        fs.mutations += 1
        if fs.history is not None:
            fs.history.append((kind, str(path)))
        left = fs.crash_at.get(t.node)
        if left is not None and _applies(fs, path):
            if left <= 0:
                del fs.crash_at[t.node]
                k.count_fault("crash-at-disk-op")
                _crash(k, t)
            fs.crash_at[t.node] = left - 1
        if fs.p_meta_err and kind not in ("write",) and _applies(fs, path):
            if k.chance(fs.p_meta_err, "disk-meta-error"):
                raise OSError(
                    (errno.EIO, errno.ENOSPC)[k.fault_int(2)], "injected", str(path)
                )


def _crash(k, t):
    fs = _fs()
    if fs.on_crash is not None:
        fs.on_crash(t.node)
    else:
        k.kill_node(t.node)
    k.yield_("crashed")
    k._switch_away(t)


def _opening(path):
    fs = _fs()
    if fs is not None and fs.durable is not None and K.current_task() is not None:
        fs.durable.opening(path)


class SimFileIO(io.FileIO):
    _path = None

    def write(self, b):
        k = K.CURRENT
        t = K.current_task()
        if k is None or t is None:
            if k is not None and k.over:
                return len(b)
            return super().write(b)
        if k.over or not t.node.alive or t.killed:
            return len(b)  # data of a dead process never reaches the disk
        fs = _fs()
        if fs is None:
            return super().write(b)
        n = len(memoryview(b).cast("B"))
        fs.ops += 1
        fs.mutations += 1
        if fs.yields:
            k.yield_("fs.write")
        if fs.history is not None:
            fs.history.append(("write", str(self._path)))
        if _applies(fs, self._path):
            left = fs.crash_at.get(t.node)
            if left is not None:
                if left <= 0:
                    del fs.crash_at[t.node]
                    j = k.fault_int(n + 1)
                    if j:
                        super().write(memoryview(b).cast("B")[:j])
                    k.count_fault("torn-write-crash" if j < n else "crash-at-disk-op")
                    _crash(k, t)
                    return n
                fs.crash_at[t.node] = left - 1
            if fs.p_write_err and k.chance(fs.p_write_err, "disk-write-error"):
                j = k.fault_int(n + 1)
                if j:
                    super().write(memoryview(b).cast("B")[:j])
                raise OSError((errno.ENOSPC, errno.EIO)[k.fault_int(2)], "injected")
            if fs.p_short and n > 1 and k.chance(fs.p_short, "short-write"):
                j = 1 + k.fault_int(n - 1)
                return super().write(memoryview(b).cast("B")[:j])
        return super().write(b)

    def readinto(self, b):
        self._rd()
        return super().readinto(b)

    def read(self, *a):
        self._rd()
        return super().read(*a)

    def readall(self):
        self._rd()
        return super().readall()

    def _rd(self):
        k = K.CURRENT
        t = K.current_task()
        if k is None or t is None or k.over:
            return
        fs = _fs()
        if fs is None:
            return
        fs.ops += 1
        if fs.yields:
            k.yield_("fs.read")
        if fs.p_read_err and _applies(fs, self._path):
            if k.chance(fs.p_read_err, "disk-read-error"):
                raise OSError(errno.EIO, "injected")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    writing = any(c in mode for c in "wax+")
    if not isinstance(file, int):
        if writing:
            _guard(file)
        elif SCRATCH and not inside(file):
            return io.open(file, mode, buffering, encoding, errors, newline,
                           closefd, opener)
        _pre("open-" + ("w" if writing else "r"), file, writing)
        if writing:
            _opening(file)
    binary = "b" in mode
    rawmode = "".join(c for c in mode if c in "rwax+")
    raw = SimFileIO(file, rawmode, closefd, opener)
    raw._path = file if not isinstance(file, int) else None
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = buffering if buffering > 1 else 8192
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, bs)
    elif writing:
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    text.mode = mode
    return text


def sim_urandom(n):
    k = K.CURRENT
    if k is None:
        return _os.urandom(n)
    t = K.current_task()
    if t is not None:
        k.ev("urandom", n)
    hook = getattr(k, "urandom_hook", None)
    b = k.entropy.randbytes(n)
    if hook is not None:
        hook(n, b)
    return b


# ----------------------------------------------------------------- fake posix
fake_posix = types.ModuleType("posix")
fake_posix.__dict__.update(
    {k: v for k, v in _posix.__dict__.items() if not k.startswith("__")}
)
fake_posix.environ = dict(_posix.environ)


def _wrap(name, npaths, mutating, link=False):
    real = getattr(_posix, name)

    def f(*a, **kw):
        if mutating:
            if any(v is not None for k_, v in kw.items() if k_.endswith("dir_fd")):
                raise PermissionError(errno.EACCES, "dir_fd is not simulated")
            # for links only the place being created matters, not the target
            for p in a[1:2] if link else a[:npaths]:
                _guard(p)
        _pre(name, a[0] if a else "", mutating)
        fs = _fs()
        if name == "link" and fs is not None and fs.links and K.current_task() is not None:
            d = [_os.path.dirname(_os.path.abspath(_os.fspath(p))) for p in a[:2]]
            if fs.links == "never" or d[0] != d[1]:
                fs.k.count_fault("no-hard-link")
                raise OSError(errno.EPERM if fs.links == "never" else errno.EXDEV,
                              "no hard link", str(a[0]))
        if fs is None or fs.durable is None or K.current_task() is None:
            return real(*a, **kw)
        if name in ("fsync", "fdatasync"):
            fs.durable.synced(a[0])
            return None
        after = fs.durable.meta(name, a) if mutating else None
        r = real(*a, **kw)
        if after is not None:
            after()
        return r

    f.__name__ = name
    return f


for _n, _np in (("mkdir", 1), ("rmdir", 1), ("unlink", 1), ("remove", 1),
                ("rename", 2), ("replace", 2), ("truncate", 1), ("chmod", 1),
                ("utime", 1), ("mkfifo", 1), ("chown", 1), ("lchown", 1),
                ("fsync", 1), ("fdatasync", 1)):
    setattr(fake_posix, _n, _wrap(_n, _np, True))
for _n in ("symlink", "link"):
    setattr(fake_posix, _n, _wrap(_n, 2, True, link=True))
for _n in ("stat", "lstat", "listdir", "scandir", "readlink", "access",
           "statvfs"):
    setattr(fake_posix, _n, _wrap(_n, 1, False))

_access = fake_posix.access


def _may(path, mode, **kw):
    return bool(not (mode & _os.W_OK and not inside(path)) and _access(path, mode, **kw))


fake_posix.access = _may        # only the simulated disk may be written

_W = _os.O_WRONLY | _os.O_RDWR | _os.O_CREAT | _os.O_TRUNC | _os.O_APPEND


def _open(path, flags, mode=0o777, *, dir_fd=None):
    if flags & _W:
        _guard(path)
    if dir_fd is not None:
        raise PermissionError(errno.EACCES, "dir_fd is not simulated")
    _pre("open-fd", path, bool(flags & _W))
    if flags & _W:
        _opening(path)
    return _posix.open(path, flags, mode, dir_fd=dir_fd)


def _write(fd, data):
    _pre("write-fd", fd, True)
    return _posix.write(fd, data)


def _deny(name):
    def f(*a, **kw):
        raise K.HarnessError(f"os.{name} is not simulated")

    return f


fake_posix.open = _open
fake_posix.write = _write
fake_posix.urandom = sim_urandom
fake_posix.getrandom = lambda n, flags=0: sim_urandom(n)


def _getpid():
    """Every simulated process (an incarnation of a node) has its own."""
    t = K.current_task()
    if t is None:
        return 4242
    k = K.CURRENT
    pid = getattr(t.node, "pid", None)
    if pid is None:
        k.pids = getattr(k, "pids", 4241) + 1
        pid = t.node.pid = k.pids
    return pid


fake_posix.getpid = _getpid
for _n in ("fork", "forkpty", "kill", "killpg", "_exit", "abort", "execv", "execve",
           "posix_spawn", "posix_spawnp", "system", "chroot", "setuid", "setgid"):
    if hasattr(fake_posix, _n):
        setattr(fake_posix, _n, _deny(_n))

# --------------------------------------------- private os / pathlib / shutil...
S = prims.SHIMS
S["posix"] = fake_posix
_saved_path = sys.modules["os.path"]
_osm = types.ModuleType("os")
S["os"] = _osm
prims.load_private("genericpath")
prims.load_private("posixpath")


def _load_into(m, name):
    m.__file__ = _os.__file__
    m.__dict__["__builtins__"] = prims.make_builtins()
    with open(_os.__file__, encoding="utf-8") as f:
        src = f.read()
    exec(compile(src, _os.__file__, "exec"), m.__dict__)


_load_into(_osm, "os")
sys.modules["os.path"] = _saved_path
S["os.path"] = S["posixpath"]
_osm.cpu_count = lambda: 8

_fake_io = types.ModuleType("io")
_fake_io.__dict__.update({k: v for k, v in io.__dict__.items() if k != "__builtins__"})
_fake_io.open = sim_open
_fake_io.FileIO = SimFileIO
S["io"] = _fake_io
prims.EXTRA_BUILTINS["open"] = sim_open

for _m in list(S.values()):
    b = _m.__dict__.get("__builtins__")
    if isinstance(b, dict) and _m.__name__ in ("os", "posixpath", "genericpath"):
        b["open"] = sim_open

prims.load_private("glob")
prims.load_private("pathlib")
shutil = prims.load_private("shutil")
shutil._USE_CP_SENDFILE = False
shutil._use_fd_functions = False
shutil.rmtree.avoids_symlink_attacks = False
prims.load_private("random")
tempfile = prims.load_private("tempfile")
uuid = prims.load_private("uuid")
uuid._generate_time_safe = None
uuid._UuidCreate = None
secrets = prims.load_private("secrets")
gzip = prims.load_private("gzip")  # its header carries the time of day
tarfile = prims.load_private("tarfile")
S["datetime"] = prims.load_private("_pydatetime")


def reset(scratch):
    """Point the simulated disk at a fresh scratch directory."""
    global SCRATCH
    SCRATCH = scratch
    tempfile.tempdir = _os.path.join(scratch, "tmp")
    _os.makedirs(tempfile.tempdir, exist_ok=True)
    tempfile._once_lock = prims.SimLock()
    tempfile._name_sequence = None
    S["random"].seed(12345)
    _osm.environ.clear()
    for k in ("PATH", "HOME", "LANG"):
        if k in _os.environ:
            _osm.environ._data[k.encode()] = _os.environ[k].encode()
