"""Simulated operating-system processes for the command-line tools.

A Proc is a failure domain with a main task, signal dispositions, children, an exit code
and captured output.  Shims for `signal`, `multiprocessing` and `uvicorn` act on the
process of the calling task.  As in CPython, signal handlers run in the main task, between
operations: here, at every call into a shim, at every write to stdout and in waits.
"""

from __future__ import annotations

import io
import signal as _sig
import sys
import traceback
import types

from . import kernel as K
from . import net as N
from . import prims
from .kernel import HarnessError, TaskKilled, Violation

CATCHABLE = (_sig.SIGINT, _sig.SIGTERM)


def here():
    t = K.current_task()
    return None if t is None else getattr(t.node, "proc", None)


class Proc:
    def __init__(self, k, name, target, *, machine="local", parent=None, daemon=False):
        self.k = k
        self.name = name
        self.machine = machine
        self.parent = parent
        self.daemon = daemon
        self.target = target
        self.node = K.Node(name)
        self.node.proc = self
        self.code = None
        self.children = []
        self.out = io.StringIO()
        self.error = None
        self.waiters = []
        self.pending = []
        self.masked = set(parent.masked) if parent else set()
        self.handlers = dict(parent.handlers) if parent else {
            _sig.SIGINT: _sig.default_int_handler, _sig.SIGTERM: _sig.SIG_DFL}
        self.interruptible = False
        self.busy = 0
        self.host = None
        self.main = k.spawn(self._run, f"{name}.main", self.node)

    @property
    def alive(self):
        return self.code is None

    @property
    def text(self):
        return self.out.getvalue()

    # ------------------------------------------------------------------ life
    def _run(self):
        code = self._call(self.target)
        # interpreter exit: daemonic children are terminated, the others awaited
        for c in self.children:
            if c.daemon and c.alive:
                c.signal(_sig.SIGTERM)
        for c in list(self.children):
            while c.alive:
                self._call(lambda c=c: c.wait(None))
        self._die(code)

    def _call(self, fn):
        try:
            fn()
            return 0
        except SystemExit as e:
            if e.code is None or isinstance(e.code, int):
                return e.code or 0
            return 1
        except (TaskKilled, Violation, HarnessError, K.Stop):
            raise
        except BaseException as e:  # noqa: BLE001
            self.error = e
            self.out.write("".join(traceback.format_exception(e)))
            return 1

    def _die(self, code):
        if self.code is not None:
            return
        self.code = code
        self.k.ev("exit", self.name, code)
        if self.host is not None:
            self.host.gone()
        for w in self.waiters:
            self.k.make_ready(w, "child")
        self.k.kill_node(self.node)

    def wait(self, timeout):
        """Called in the parent's main task (or by the check)."""
        k = self.k
        end = None if timeout is None else k.now + timeout
        me = here()
        while self.alive:
            if me is not None:
                me.poll()
            if not self.alive:
                break
            left = None if end is None else end - k.now
            if left is not None and left <= 0:
                return False
            self.waiters.append(k.cur)
            if me is not None:
                me.interruptible = k.cur is me.main
            try:
                k.block(f"wait {self.name}", left)
            finally:
                if me is not None:
                    me.interruptible = False
                if k.cur in self.waiters:
                    self.waiters.remove(k.cur)
        return True

    # --------------------------------------------------------------- signals
    def signal(self, sig):
        if not self.alive:
            return
        self.k.ev("signal", self.name, int(sig))
        if sig == _sig.SIGKILL:
            self._die(-int(sig))
            return
        h = self.handlers.get(sig, _sig.SIG_DFL)
        if sig in self.masked or callable(h) and h not in (_sig.SIG_DFL, _sig.SIG_IGN):
            self.pending.append(sig)
            if self.interruptible and sig not in self.masked:
                self.k.make_ready(self.main, "signal")
        elif h == _sig.SIG_IGN:
            pass
        else:
            self._die(-int(sig))

    def poll(self):
        """Run due signal handlers; a scheduling point of the main task."""
        if self.k.cur is not self.main:
            return
        while True:
            due = [s for s in self.pending if s not in self.masked]
            if not due:
                return
            self.pending.remove(due[0])
            h = self.handlers.get(due[0], _sig.SIG_DFL)
            if h == _sig.SIG_IGN:
                continue
            if h == _sig.SIG_DFL:
                self._die(-int(due[0]))
                continue
            self.k.probe("handler-ran")
            h(due[0], None)


# --------------------------------------------------------------------- signal
def _signal(sig, handler):
    p = here()
    if p is None:
        raise HarnessError("signal.signal outside a simulated process")
    if p.k.cur is not p.main:
        raise ValueError("signal only works in main thread of the main interpreter")
    p.poll()
    old = p.handlers.get(sig, _sig.SIG_DFL)
    p.handlers[sig] = handler
    return old


def _sigmask(how, mask):
    p = here()
    old = set(p.masked)
    mask = set(mask)
    if how == _sig.SIG_BLOCK:
        p.masked |= mask
    elif how == _sig.SIG_UNBLOCK:
        p.masked -= mask
    else:
        p.masked = mask
    for s in list(p.pending):       # default actions of what was held back
        if s not in p.masked and p.handlers.get(s, _sig.SIG_DFL) == _sig.SIG_DFL:
            p._die(-int(s))
    p.poll()
    return old


def _kill(pid, sig):
    for t in K.CURRENT.tasks:
        if getattr(t.node, "pid", None) == pid and getattr(t.node, "proc", None):
            return t.node.proc.signal(sig)
    raise ProcessLookupError(pid)


signal = types.ModuleType("signal")
signal.__dict__.update({a: b for a, b in vars(_sig).items() if a.startswith("SIG")
                        or a in ("Signals", "Handlers", "Sigmasks", "default_int_handler",
                                 "valid_signals", "strsignal")})
signal.signal = _signal
signal.getsignal = lambda s: here().handlers.get(s, _sig.SIG_DFL)
signal.pthread_sigmask = _sigmask
signal.raise_signal = lambda s: (here().signal(s), here().poll())[0]


# ------------------------------------------------------------ multiprocessing
class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *,
                 daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name = name or "Process"
        self.daemon = bool(daemon)
        self.proc = None
        self._parent = here()

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        p = here()
        k = p.k
        assert self.proc is None, "cannot start a process twice"
        p.poll()
        k.spawned = getattr(k, "spawned", 0) + 1
        self.proc = Proc(k, f"{p.name}.{k.spawned}", self.run, machine=p.machine,
                         parent=p, daemon=self.daemon)
        p.children.append(self.proc)
        if FORK_TIME[0]:
            k.sleep(k.delay(FORK_TIME[0]))      # parent and child go on at any pace
        p.poll()

    @property
    def pid(self):
        if self.proc is None:
            return None
        k = self.proc.k
        if getattr(self.proc.node, "pid", None) is None:
            k.pids = getattr(k, "pids", 4241) + 1
            self.proc.node.pid = k.pids
        return self.proc.node.pid

    ident = pid

    @property
    def exitcode(self):
        return None if self.proc is None else self.proc.code

    def is_alive(self):
        here().poll()
        self._mine("test")
        return self.proc is not None and self.proc.alive

    def terminate(self):
        here().poll()
        self.proc.signal(_sig.SIGTERM)

    def kill(self):
        here().poll()
        self.proc.signal(_sig.SIGKILL)

    def _mine(self, what):
        assert self._parent is here(), f"can only {what} a child process"

    def join(self, timeout=None):
        self._mine("join")
        assert self.proc is not None, "can only join a started process"
        self.proc.wait(timeout)

    def close(self):
        if self.proc is not None and self.proc.alive:
            raise ValueError("Cannot close a process while it is still running")


FORK_TIME = [0.0]


class _Context:
    Process = Process

    @staticmethod
    def get_start_method(allow_none=False):
        return "fork"


multiprocessing = types.ModuleType("multiprocessing")
multiprocessing.Process = Process
multiprocessing.get_context = lambda method=None: _Context
multiprocessing.set_start_method = lambda *a, **k: None
multiprocessing.get_start_method = _Context.get_start_method
multiprocessing.cpu_count = lambda: 8
multiprocessing.freeze_support = lambda: None


def _active_children():
    out = []
    for c in here().children:
        if c.alive:
            q = Process()
            q.proc = c
            q.name = c.name
            out.append(q)
    return out


multiprocessing.active_children = _active_children


# -------------------------------------------------------------------- uvicorn
LOOPBACK = ("127.0.0.1", "localhost", "[::1]")


def resolve(machine, addr):
    """The socket address a connection from `machine` to `addr` reaches."""
    host, _, port = addr.rpartition(":")
    if host in LOOPBACK:
        host = machine
    return f"{host}:{port}"


class Served:
    """What uvicorn does around an application: startup, serving, graceful exit."""

    def __init__(self, k, proc, app, host, port):
        self.k, self.proc = k, proc
        where = proc.machine if host in ("0.0.0.0", "::", *LOOPBACK) else host
        self.addr = f"{where}:{port}"
        self.local_only = host in LOOPBACK
        old = k.net.hosts.get(self.addr)
        self.inner = N.Host(k.net, proc.name, self.addr, lambda: app)
        self.taken = old is not None and old.node.alive
        if not self.taken:
            self.inner.local_only = self.local_only
            self.inner.start(node=proc.node)

    def gone(self):
        net = self.k.net
        if net.hosts.get(self.addr) is self.inner:
            del net.hosts[self.addr]
        net.host_crashed(self.inner)


def _run(app, *, host="127.0.0.1", port=8000, **kw):
    p = here()
    k = p.k
    if p.k.cur is not p.main:
        raise HarnessError("uvicorn.run outside the main thread is not simulated")
    if not isinstance(port, int):
        raise TypeError(f"port {port!r}")
    got = []

    def handle(sig, frame):
        got.append(sig)

    old = {s: _signal(s, handle) for s in CATCHABLE}
    served = Served(k, p, app, host, port)
    if served.taken:
        print(f"ERROR: [Errno 98] address already in use {served.addr}")
        sys.exit(1)
    p.host = served
    k.probe("served")
    p.poll()
    while not got:
        p.interruptible = True
        try:
            k.block("uvicorn serving")
        finally:
            p.interruptible = False
        p.poll()
    # graceful exit: no new connections, what is being answered is finished first
    k.net.hosts.pop(served.addr, None)
    until = k.now + getattr(k, "slow_exit", lambda: 0.0)()
    while (served.inner.serving or k.now < until) and len(got) < 2:
        k.sleep(0.1)
        p.poll()
    served.inner.stop()
    p.host = None
    for s, h in old.items():
        _signal(s, h)
    for s in reversed(got):
        p.signal(s)
        p.poll()


uvicorn = types.ModuleType("uvicorn")
uvicorn.run = _run


# -------------------------------------------------------------------- stdout
class Router:
    """sys.stdout: text goes to the output of the writing process."""

    def __init__(self, under):
        self.under = under

    def write(self, s):
        p = here()
        if p is None:
            return self.under.write(s)
        p.out.write(s)
        p.poll()
        return len(s)

    def flush(self):
        if here() is None:
            self.under.flush()

    def __getattr__(self, n):
        return getattr(self.under, n)


def install():
    prims.SHIMS.setdefault("signal", signal)
    prims.SHIMS.setdefault("multiprocessing", multiprocessing)
    prims.SHIMS.setdefault("uvicorn", uvicorn)


def begin(k, fork_time=0.0):
    """For one run: route stdout, resolve addresses by machine."""
    if not isinstance(sys.stdout, Router):
        sys.stdout = Router(sys.stdout)
    FORK_TIME[0] = fork_time
    k.net.resolve = lambda addr: resolve(getattr(here(), "machine", "local"), addr)
