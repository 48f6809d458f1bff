"""Simulated locks, and private copies of the standard library built on them.

The standard library's own threading.Condition/Event/Semaphore/Thread, queue,
concurrent.futures, pathlib, shutil, tempfile, uuid and secrets run unchanged -
from a private copy of their source whose lowest layer (_thread, time, os) is
the simulation kernel - so that their semantics are the real ones.
"""

from __future__ import annotations

import _thread
import os
import sys
import sysconfig
import types

from . import kernel as K
from .kernel import HarnessError, TaskKilled


class SimLock:
    """_thread.lock on the simulated scheduler."""

    __slots__ = ("_locked", "_waiters", "_owner", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        k = K.CURRENT
        t = K.current_task()
        if t is None:
            if self._locked:
                if not blocking or k is None or k.over:
                    return False
                raise HarnessError("blocking lock acquire outside a simulated task")
            self._locked = True
            return True
        k.yield_("acq")
        if not self._locked or self._orphan():
            self._locked = True
            self._owner = t
            return True
        if not blocking or timeout == 0:
            return False
        end = None if timeout is None or timeout < 0 else k.now + timeout
        while self._locked and not self._orphan():
            left = None
            if end is not None:
                left = end - k.now
                if left <= 0:
                    return False
            self._waiters.append(t)
            try:
                r = k.block("lock", left)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
            if r == "timeout" and self._locked and not self._orphan():
                return False
        self._locked = True
        self._owner = t
        return True

    def _orphan(self):
        """Held by a crashed process: its copy of the lock died with it.

        Locks of library modules are one object here for all simulated processes.
        """
        return self._owner is not None and not self._owner.node.alive

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._owner = None
        k = K.CURRENT
        if k is None or k.over:
            return
        ws = [w for w in self._waiters if w.node.alive]
        if ws:
            i = 0
            if len(ws) > 1 and K.current_task() is not None:
                i = k.tapes["sched"].next(len(ws))
            w = ws[i]
            self._waiters.remove(w)
            k.make_ready(w, "lock")
        if K.current_task() is not None:
            k.yield_("rel")

    def locked(self):
        return self._locked

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []


class SimRLock:
    __slots__ = ("_block", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = sim_get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != sim_get_ident():
            k = K.CURRENT
            if k is not None and k.over:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return st

    def _is_owned(self):
        return self._owner == sim_get_ident()

    def _recursion_count(self):
        return self._count if self._owner == sim_get_ident() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def sim_get_ident():
    t = K.current_task()
    if t is None:
        return _thread.get_ident()
    return 1000 + t.id


def _set_sentinel():
    lk = SimLock()
    t = K.current_task()
    if t is not None:
        t.sentinels.append(lk)

        def rel():
            if lk._locked:
                lk._locked = False
                for w in list(lk._waiters):
                    K.CURRENT.make_ready(w, "lock")

        t.on_exit.append(rel)
    return lk


def start_new_thread(fn, args, kwargs=None):
    k = K.CURRENT
    if k is None:
        raise HarnessError("thread started outside a simulation")
    owner = getattr(fn, "__self__", None)
    name = getattr(owner, "name", None) or getattr(fn, "__name__", "thread")
    t = k.spawn(lambda: fn(*args, **(kwargs or {})), str(name))
    k.yield_("start")
    return 1000 + t.id


# ---------------------------------------------------------------- fake _thread
fake_thread = types.ModuleType("_thread")
fake_thread.__dict__.update(
    {k: v for k, v in _thread.__dict__.items() if not k.startswith("__")}
)
fake_thread.allocate_lock = SimLock
fake_thread.allocate = SimLock
fake_thread.LockType = SimLock
fake_thread.lock = SimLock
fake_thread.RLock = SimRLock
fake_thread._set_sentinel = _set_sentinel
fake_thread.get_ident = sim_get_ident
fake_thread.get_native_id = sim_get_ident
fake_thread.start_new_thread = start_new_thread
fake_thread.start_new = start_new_thread

# ------------------------------------------------------------------- fake time
import time as _time  # noqa: E402

fake_time = types.ModuleType("time")
fake_time.__dict__.update(
    {k: v for k, v in _time.__dict__.items() if not k.startswith("__")}
)


def _now():
    k = K.CURRENT
    return k.now if k is not None else 0.0


def _tick():
    k = K.CURRENT
    if k is not None:
        k.now += 1e-7
        return k.now
    return 0.0


def sim_sleep(d):
    k = K.CURRENT
    if k is None or K.current_task() is None:
        return
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    k.sleep(d)


def _wall():
    k = K.CURRENT
    return (_tick() + k.wall_offset) if k is not None else 1_700_000_000.0


fake_time.monotonic = _tick
fake_time.perf_counter = _tick
fake_time.process_time = _tick
fake_time.thread_time = _tick
fake_time.time = _wall
fake_time.monotonic_ns = lambda: int(_tick() * 1e9)
fake_time.perf_counter_ns = lambda: int(_tick() * 1e9)
fake_time.process_time_ns = lambda: int(_tick() * 1e9)
fake_time.time_ns = lambda: int(_wall() * 1e9)
fake_time.sleep = sim_sleep

# ------------------------------------------------------- private stdlib copies
SHIMS: dict[str, types.ModuleType] = {"_thread": fake_thread, "time": fake_time}
_real_import = __import__
import builtins as _b  # noqa: E402

EXTRA_BUILTINS: dict = {}


def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        m = SHIMS.get(name)
        if m is None and "." not in name:
            return _guarded_import(name, globals, locals, fromlist, level)
        if m is None:
            head = name.partition(".")[0]
            if head in SHIMS and not fromlist:
                _guarded_import(name, globals, locals, fromlist, level)
                return SHIMS[head]
            return _guarded_import(name, globals, locals, fromlist, level)
        if fromlist:
            return m
        head = name.partition(".")[0]
        return SHIMS.get(head) or sys.modules[head]
    return _guarded_import(name, globals, locals, fromlist, level)


def _guarded_import(name, globals, locals, fromlist, level):
    # the import lock is a real lock: never switch tasks while holding it
    t = K.current_task()
    if t is not None:
        t.nopreempt += 1
        try:
            return _real_import(name, globals, locals, fromlist, level)
        finally:
            t.nopreempt -= 1
    return _real_import(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(_b))
    d["__import__"] = sim_import
    d.update(EXTRA_BUILTINS)
    return d


def stdlib_source(name):
    base = sysconfig.get_path("stdlib") + "/" + name.replace(".", "/")
    return base + "/__init__.py" if os.path.isdir(base) else base + ".py"


def load_private(name, pkg=None, pre=None, is_pkg=False):
    """Exec the source of stdlib module `name` against the shims."""
    origin = stdlib_source(name)
    m = types.ModuleType(name)
    m.__file__ = origin
    m.__package__ = name if is_pkg else name.rpartition(".")[0]
    m.__dict__["__builtins__"] = make_builtins()
    if pre:
        m.__dict__.update(pre)
    with open(origin, encoding="utf-8") as f:
        src = f.read()
    SHIMS[name] = m
    exec(compile(src, origin, "exec"), m.__dict__)
    return m


threading = load_private("threading")


class _NoC:
    pass


# queue: force the pure-Python SimpleQueue (the C one would block for real)
_noq = types.ModuleType("_queue")
_noq.Empty = type("Empty", (Exception,), {"__module__": "queue"})
SHIMS["_queue"] = _noq
queue = load_private("queue")
SHIMS["queue"] = queue

import concurrent.futures._base as _rb  # noqa: E402,F401
import concurrent.futures.thread as _rt  # noqa: E402,F401

_cf_base = load_private("concurrent.futures._base")
_cf_pkg = types.ModuleType("concurrent.futures")
_cf_pkg.__path__ = []
_cf_pkg._base = _cf_base
SHIMS["concurrent.futures"] = _cf_pkg
SHIMS["concurrent.futures._base"] = _cf_base
_cf_thread = load_private("concurrent.futures.thread")
for _n in (
    "FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED", "CancelledError",
    "TimeoutError", "InvalidStateError", "BrokenExecutor", "Future", "Executor",
    "wait", "as_completed",
):
    setattr(_cf_pkg, _n, getattr(_cf_base, _n))
_cf_pkg.ThreadPoolExecutor = _cf_thread.ThreadPoolExecutor
_cf_pkg.thread = _cf_thread


def _no_procs(*a, **k):
    raise HarnessError("ProcessPoolExecutor is not simulated")


_cf_pkg.ProcessPoolExecutor = _no_procs
_conc = types.ModuleType("concurrent")
_conc.__path__ = []
_conc.futures = _cf_pkg
SHIMS["concurrent"] = _conc
futures = _cf_pkg


def _stable_hash(self):
    """Identity hash that does not depend on addresses: set order is decided by
    the seed (any order is legal), not by the allocator."""
    d = self.__dict__
    h = d.get("_vsim_h")
    if h is None:
        k = K.CURRENT
        if k is None:
            h = object.__hash__(self)
        else:
            k.hash_seq += 1
            h = (k.hash_seq * 0x9E3779B1 + k.hash_salt) & 0xFFFFFF
        d["_vsim_h"] = h
    return h


for _cls in (
    _cf_base.Future, threading.Thread, threading.Condition, threading.Event,
    threading.Semaphore, _cf_base._Waiter, _cf_thread._WorkItem,
    _cf_thread.ThreadPoolExecutor, queue.Queue,
):
    _cls.__hash__ = _stable_hash
_cf_base.__dict__["id"] = hash


_thread_run = threading.Thread.run


def _late_run(self):
    """A started thread may have to wait for a CPU before it does anything."""
    k = K.CURRENT
    if k is not None and k.start_stall and K.current_task() is not None \
            and k.chance(k.start_stall, "thread-start-late"):
        k.sleep(k.delay(k.stall_scale))
    _thread_run(self)


threading.Thread.run = _late_run


def reset_between_runs():
    """Forget per-process history kept by the private stdlib copies."""
    threading._active.clear()
    threading._limbo.clear()
    threading._shutdown_locks.clear()
    threading._dangling.clear() if hasattr(threading, "_dangling") else None
    from itertools import count

    threading._counter = count(1).__next__
    _cf_thread.ThreadPoolExecutor._counter = count().__next__
    _cf_thread._threads_queues.clear()
    _cf_thread._shutdown = False
    lk = _cf_thread._global_shutdown_lock
    if lk._locked:
        lk._at_fork_reinit()
    for l in (threading._active_limbo_lock, threading._shutdown_locks_lock):
        if hasattr(l, "_at_fork_reinit"):
            l._at_fork_reinit()
