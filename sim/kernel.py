"""The simulation kernel: one seeded scheduler that owns threads, time and faults.

Every simulated thread is a real, parked OS thread; exactly one of them runs at
any instant and the kernel decides which one at every intercepted point
(lock/condition/queue operation, sleep, file operation, network operation, and
- for the modules listed as preemptible - every source line of mplang).

All choices are drawn from *tapes*.  A tape is fed by a PRNG derived from the
run's seed, and records what was drawn; replaying a recorded tape (0 = "the
quiet choice", also used past its end) reproduces the execution exactly, and
minimisation works on the recorded integers.
"""

from __future__ import annotations

import _thread
import gc
import heapq
import os
import random
import sys
import zlib

TICK = 1e-6  # simulated seconds charged per scheduling point


class HarnessError(Exception):
    """The harness (not the code under test) is broken."""


class TaskKilled(BaseException):
    """Unwinds a simulated thread when the run is over."""


class Violation(Exception):
    """A property does not hold in this execution."""

    def __init__(self, kind: str, detail: str = ""):
        super().__init__(f"{kind}: {detail}" if detail else kind)
        self.kind = kind
        self.detail = detail


class Stop(BaseException):
    """Run ended (budget, deadlock, ...)."""


class Tape:
    """A recorded stream of small integers; 0 is always the quiet choice."""

    __slots__ = ("name", "rng", "out", "src", "pos", "limit")

    def __init__(self, name, seed, src=None, limit=400000):
        self.name = name
        self.rng = None if src is not None else random.Random(f"{name}:{seed}")
        self.src = src
        self.pos = 0
        self.out = []
        self.limit = limit

    def next(self, n, gen=None):
        """An integer in [0, n); `gen(rng)` gives the PRNG-side distribution."""
        if n <= 1:
            return 0
        if self.src is not None:
            v = self.src[self.pos] if self.pos < len(self.src) else 0
            self.pos += 1
            if v >= n or v < 0:
                v = v % n
        else:
            v = gen(self.rng) if gen is not None else self.rng.randrange(n)
            if v >= n:
                v = n - 1
        self.out.append(v)
        if len(self.out) > self.limit:
            raise HarnessError(f"tape {self.name} overflow")
        return v


class Task:
    __slots__ = (
        "id", "name", "node", "lock", "state", "deadline_id", "killed", "ident",
        "wake", "exc", "result", "done", "daemon", "on_exit", "prio", "sentinels",
        "nopreempt", "waiting_on", "waiters", "fn", "tag",
    )

    def __init__(self, tid, name, node, daemon):
        self.id = tid
        self.name = name
        self.node = node
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "ready"
        self.deadline_id = 0
        self.killed = False
        self.ident = 0
        self.wake = None
        self.exc = None
        self.result = None
        self.done = False
        self.daemon = daemon
        self.on_exit = []
        self.prio = 0.0
        self.sentinels = []
        self.nopreempt = 0
        self.waiting_on = ""
        self.waiters = []
        self.tag = None


CURRENT: "Kernel | None" = None  # the kernel of the run in progress
_TOOL = sys.monitoring.DEBUGGER_ID
_mon_ready = False
_real_get_ident = _thread.get_ident


def current_kernel():
    return CURRENT


def current_task():
    k = CURRENT
    if k is None:
        return None
    t = k.cur
    if t is not None and t.ident == _real_get_ident():
        return t
    return None


class Node:
    """A failure domain: tasks of a dead node are never scheduled again."""

    def __init__(self, name):
        self.name = name
        self.alive = True
        self.epoch = 0

    def __repr__(self):
        return f"<node {self.name}{'' if self.alive else ' DEAD'}>"


class Kernel:
    def __init__(self, seed, tapes=None, *, strategy=None, trace=False,
                 max_steps=200_000, max_time=1e7, max_lines=3_000_000,
                 line_preempt=True):
        self.seed = seed
        tapes = tapes or {}
        self.tapes = {
            n: Tape(n, seed, tapes.get(n)) for n in ("work", "fault", "sched", "conf")
        }
        self.entropy = random.Random(f"entropy:{seed}")
        self.hash_seq = 0
        self.hash_salt = self.entropy.randrange(1 << 24)
        self.now = 0.0
        self.wall_offset = 1_700_000_000.0
        self.tasks = []
        self.ready = []
        self.timers = []
        self._tseq = 0
        self.cur = None
        self.cur_ident = 0
        self.steps = 0
        self.lines = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.max_lines = max_lines
        self.trace = trace
        self.log = []
        self.h = 0
        self.sched_h = 0
        self.nlog = 0
        self.switches = 0
        self.preempts = 0
        self.fault_counts = {}
        self.fault_enabled = True
        self.probes = {}
        self.over = False
        self.outcome = None
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self._exit_lock = _thread.allocate_lock()
        self.live_threads = 0
        self.harness_errors = []
        self.violation = None
        self.root_node = Node("root")
        self.line_preempt = line_preempt
        self.deadlock_info = None
        self.main_ident = _real_get_ident()
        self.invariants = []
        self.stall_rate = 0.0
        self.line_stall = 0.0    # a thread loses the CPU for a while, between two lines
        self.stall_scale = 0.5
        self.start_stall = 0.0   # a started thread runs late
        self.teardown_hooks = []
        # --- scheduling strategy, drawn on the configuration tape
        st = self.tapes["conf"].next(5) if strategy is None else strategy
        self.strategy = st
        conf = self.tapes["conf"]
        if st == 0:  # run to block, round-robin order; no preemption
            self.p_switch = 0.0
            self.line_gap = 0
        elif st == 1:  # light random
            self.p_switch = 0.08
            self.line_gap = (400, 150, 60)[conf.next(3)]
        elif st == 2:  # heavy random
            self.p_switch = 0.4
            self.line_gap = (60, 25, 8)[conf.next(3)]
        elif st == 3:  # uniform over runnable tasks at every point
            self.p_switch = 1.0
            self.line_gap = (0, 120, 30)[conf.next(3)]
        else:  # priorities with change points (PCT)
            self.p_switch = -1.0
            self.line_gap = (0, 200, 40)[conf.next(3)]
        self._prio_rng = random.Random(f"prio:{seed}")
        self._next_change = self._prio_rng.randint(1, 300)
        self._gap = self._draw_gap()

    # ------------------------------------------------------------------ draws
    def work(self, n):
        return self.tapes["work"].next(n)

    def conf(self, n):
        return self.tapes["conf"].next(n)

    def choose(self, seq):
        """Pick one element (index 0 is the simplest)."""
        return seq[self.tapes["work"].next(len(seq))]

    def chance(self, p, label, tape="fault"):
        """A fault coin: 0 = no fault."""
        if not self.fault_enabled or p <= 0:
            return False
        v = self.tapes[tape].next(2, lambda r: 1 if r.random() < p else 0)
        if v:
            self.fault_counts[label] = self.fault_counts.get(label, 0) + 1
            self.ev("fault", label)
        return bool(v)

    def fault_int(self, n):
        return self.tapes["fault"].next(n)

    def delay(self, scale):
        """A random latency in seconds, heavy tailed; tape value in microseconds/10."""
        v = self.tapes["fault"].next(
            10_000_000, lambda r: int(min(9_999_999, r.expovariate(1.0) * scale * 1e5))
        )
        return v / 1e5

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count_fault(self, label, n=1):
        self.fault_counts[label] = self.fault_counts.get(label, 0) + n

    def _draw_gap(self):
        if not self.line_gap or not self.line_preempt:
            return -1
        g = self.line_gap
        v = self.tapes["sched"].next(
            1 << 20, lambda r: 1 + int(r.expovariate(1.0 / g))
        )
        return v if v > 0 else -1  # 0: never again

    # -------------------------------------------------------------------- log
    def ev(self, *what):
        self.nlog += 1
        s = "|".join(map(str, what))
        self.h = zlib.crc32(s.encode(), self.h)
        if self.trace:
            c = self.cur
            self.log.append(
                f"{self.nlog} t={self.now:.6f} {c.name if c else '-'}: {s}"
            )

    # ------------------------------------------------------------------ tasks
    def spawn(self, fn, name, node=None, daemon=True):
        if self.over:
            raise TaskKilled()
        if node is None:
            node = self.cur.node if self.cur is not None else self.root_node
        t = Task(len(self.tasks), name, node, daemon)
        self.tasks.append(t)
        t.fn = fn
        t.prio = self._prio_rng.random()
        self.live_threads += 1
        _thread.start_new_thread(self._bootstrap, (t,))
        self.ready.append(t)
        self.ev("spawn", t.id, name, node.name)
        return t

    def _bootstrap(self, t):
        t.lock.acquire()
        t.ident = _real_get_ident()
        self.cur_ident = t.ident
        try:
            if not t.killed:
                t.result = t.fn()
        except TaskKilled:
            pass
        except Violation as v:
            self._fail(v)
        except HarnessError as e:
            self.harness_errors.append(f"{t.name}: {e}")
            self._finish("harness")
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        t.fn = None
        self._exit(t)

    def _fail(self, v):
        if self.violation is None:
            self.violation = v
        self._finish("violation")

    def fail(self, kind, detail=""):
        """Record a violation (callable from any simulated context) and unwind."""
        if os.environ.get("VERIF_DEBUG"):
            self.dump()
        v = Violation(kind, detail)
        self._fail(v)
        raise TaskKilled()

    def dump(self):
        """For people: what every simulated thread is doing."""
        import traceback

        _dbg = open(os.environ["VERIF_DEBUG"], "a", 1)
        fr = sys._current_frames()
        for t in self.tasks:
            if not t.done:
                print(f"--- {t.id} {t.name} {t.state} {t.waiting_on}", file=_dbg)
                f = fr.get(t.ident)
                if f is not None:
                    for x in traceback.extract_stack(f)[-14:]:
                        if "/sim/" not in x.filename:
                            print(f"   {x.filename}:{x.lineno} {x.name}: {x.line}",
                                  file=_dbg)

    def _finish(self, outcome):
        if self.outcome is None:
            self.outcome = outcome
        self.over = True

    def _exit(self, t):
        t.done = True
        t.state = "done"
        if not t.killed and not self.over:
            for cb in t.on_exit:
                try:
                    cb()
                except TaskKilled:
                    pass
            for w in t.waiters:
                self.make_ready(w, "joined")
            self.ev("exit", t.id)
        with self._exit_lock:
            self.live_threads -= 1
        if t.killed:
            # teardown: control goes straight back to the main controller
            self.main_lock.release()
            return
        if self.over:
            self.main_lock.release()
            return
        try:
            nxt = self._pick(None)
        except TaskKilled:
            nxt = None
        if nxt is None:
            self.main_lock.release()
            return
        self._resume(nxt)

    def _resume(self, t):
        self.cur = t
        self.cur_ident = t.ident
        t.state = "running"
        t.lock.release()

    # -------------------------------------------------------------- scheduling
    def _runnable(self, me):
        r = [t for t in self.ready if t.node.alive]
        if len(r) != len(self.ready):
            for t in self.ready:
                if not t.node.alive:
                    t.state = "dead"
            self.ready = r
        return r

    def _pick(self, me):
        """Remove and return the next task to run; `me` is kept if chosen.

        `me` (when given) is runnable and is not in self.ready.
        """
        while True:
            if self.over:
                return None
            if self.steps > self.max_steps:
                self._finish("budget")
                return None
            cands = self._runnable(me)
            if me is None and not cands:
                if not self._advance():
                    self._finish("deadlock")
                    return None
                continue
            break
        if me is None:
            i = self._draw_index(cands, False)
            t = cands[i]
            self.ready.remove(t)
            return t
        if not cands:
            return me
        i = self._draw_index([me, *cands], True)
        if i == 0:
            return me
        t = cands[i - 1]
        self.ready.remove(t)
        return t

    def _draw_index(self, cands, have_me):
        n = len(cands)
        if n == 1:
            return 0
        ps = self.p_switch
        if ps < 0:
            self._next_change -= 1
            if self._next_change <= 0:
                self._next_change = self._prio_rng.randint(1, 600)
                cands[0].prio = self._prio_rng.random() * 0.5
            want = max(range(n), key=lambda j: (cands[j].prio, -j))
            gen = lambda r: want  # noqa: E731
        elif have_me:
            gen = lambda r: 0 if r.random() >= ps else r.randrange(n)  # noqa: E731
        elif ps == 0.0:
            gen = lambda r: 0  # noqa: E731
        else:
            gen = lambda r: r.randrange(n)  # noqa: E731
        return self.tapes["sched"].next(n, gen)

    def _advance(self):
        """Jump the clock to the next timer and fire it. False if none is left."""
        while self.timers:
            at, _s, ev = heapq.heappop(self.timers)
            fn = ev[0]
            if fn is None:
                continue
            if at > self.now:
                if at > self.max_time:
                    self._finish("time")
                    return True
                self.now = at
            ev[0] = None
            self._call(fn)
            return True
        return False

    def _call(self, fn):
        # a timer runs on whichever thread found it due: it must not be switched
        # away from in the middle
        c = self.cur
        if c is not None:
            c.nopreempt += 1
        try:
            fn()
        except Violation as v:
            self._fail(v)
        except HarnessError as e:
            self.harness_errors.append(f"timer: {e}")
            self._finish("harness")
        except TaskKilled:
            pass
        finally:
            if c is not None:
                c.nopreempt -= 1

    def _fire_due(self):
        while self.timers and self.timers[0][0] <= self.now:
            _at, _s, ev = heapq.heappop(self.timers)
            fn = ev[0]
            if fn is not None:
                ev[0] = None
                self._call(fn)

    def at(self, when, fn):
        self._tseq += 1
        ev = [fn]
        heapq.heappush(self.timers, (when, self._tseq, ev))
        return ev

    def after(self, d, fn):
        return self.at(self.now + max(0.0, d), fn)

    @staticmethod
    def cancel(ev):
        ev[0] = None

    def make_ready(self, t, why=None):
        if t.state == "blocked":
            t.state = "ready"
            t.wake = why
            t.deadline_id += 1
            self.ready.append(t)

    def _check_alive(self, t):
        if t.killed or self.over:
            raise TaskKilled()

    def yield_(self, what=""):
        """A scheduling point: another runnable task may be chosen."""
        t = self.cur
        if t is None or t.ident != _real_get_ident():
            return
        if t.killed or self.over:
            raise TaskKilled()
        self.steps += 1
        self.now += TICK
        self.ev("y", t.id, what)
        if t.nopreempt:
            return
        if self.invariants:
            for inv in self.invariants:
                inv()
        if self.stall_rate and self.chance(self.stall_rate, "stall"):
            self.sleep(self.delay(0.5))
            return
        if self.timers and self.timers[0][0] <= self.now:
            self._fire_due()
        if not t.node.alive:
            t.state = "dead"
            self._switch_away(t)
            return
        nxt = self._pick(t)
        if nxt is t:
            return
        if nxt is None:
            raise TaskKilled() if self.over else HarnessError("no task")
        self.switches += 1
        t.state = "ready"
        self.ready.append(t)
        self._switch(t, nxt)

    def _switch(self, t, nxt):
        self.sched_h = zlib.crc32(b"%d>%d@%d" % (t.id, nxt.id, self.steps & 7), self.sched_h)
        self._resume(nxt)
        t.lock.acquire()
        self._after_resume(t)

    def _after_resume(self, t):
        if t.killed:
            raise TaskKilled()

    def _switch_away(self, t):
        """Block the current task: run something else until made ready."""
        nxt = self._pick(None)
        if nxt is None:
            # run is over: give control back to the controller and park
            self.cur = None
            self.main_lock.release()
            t.lock.acquire()
            raise TaskKilled()
        if nxt is t:
            t.state = "running"
            return
        self._switch(t, nxt)

    def block(self, what, timeout=None):
        """Block the current task until make_ready(); returns the wake reason
        ("timeout" when the deadline fired first)."""
        t = self.cur
        if t is None or t.ident != _real_get_ident():
            raise HarnessError(f"block({what}) outside a simulated task")
        if t.killed or self.over:
            raise TaskKilled()
        if t.state == "blocked":
            raise HarnessError(f"block({what}) inside a timer")
        self.steps += 1
        self.ev("b", t.id, what)
        t.state = "blocked"
        t.waiting_on = what
        t.wake = None
        timer = None
        if timeout is not None:
            d = t.deadline_id

            def fire():
                if t.state == "blocked" and t.deadline_id == d:
                    self.make_ready(t, "timeout")

            timer = self.after(timeout, fire)
        self._switch_away(t)
        if timer is not None:
            timer[0] = None
        t.waiting_on = ""
        return t.wake

    def sleep(self, d):
        self.block("sleep", max(0.0, d))

    def join(self, t, timeout=None):
        if t.done:
            return True
        me = self.cur
        t.waiters.append(me)
        r = self.block(f"join {t.name}", timeout)
        if r == "timeout" and me in t.waiters:
            t.waiters.remove(me)
        return t.done

    def line_tick(self):
        """Called by sys.monitoring for each line of a preemptible module."""
        self.lines += 1
        if self.lines > self.max_lines:
            self._finish("lines")
            raise TaskKilled()
        g = self._gap
        if g > 0:
            g -= 1
            self._gap = g
            if g == 0:
                self._gap = self._draw_gap()
                t = self.cur
                if t.nopreempt or self.over or t.killed:
                    return
                self.preempts += 1
                self.steps += 1
                if self.line_stall and self.chance(self.line_stall, "thread-stall"):
                    self.sleep(self.delay(self.stall_scale))
                    return
                cands = self._runnable(t)
                if not cands:
                    return
                n = len(cands)
                i = self.tapes["sched"].next(n)
                nxt = cands[i]
                self.ready.remove(nxt)
                self.ev("preempt", t.id, nxt.id)
                self.switches += 1
                t.state = "ready"
                self.ready.append(t)
                self._switch(t, nxt)

    # ------------------------------------------------------------------- nodes
    def kill_node(self, node):
        node.alive = False
        self.ev("crash", node.name)
        for w in self.tasks:
            if w.waiting_on == "lock" and w.node.alive and not w.done:
                self.make_ready(w, "lock")
        t = self.cur
        if t is not None and t.node is node and t.ident == _real_get_ident():
            # the crashing task itself never runs again
            t.state = "dead"
            self._switch_away(t)

    # --------------------------------------------------------------------- run
    def run(self, fn, name="client"):
        """Run `fn` as the root task until it ends; returns the outcome string."""
        global CURRENT
        if CURRENT is not None:
            raise HarnessError("nested kernels")
        CURRENT = self
        install_monitor()
        gc_was = gc.isenabled()
        gc.disable()  # a collection would run finalizers at arbitrary points
        root = None
        try:
            root = self.spawn(fn, name, self.root_node, daemon=False)
            root.on_exit.append(lambda: self._finish("done"))
            nxt = self._pick(None)
            if nxt is not None:
                self._resume(nxt)
                self.main_lock.acquire()
            if self.outcome is None:
                self._finish("deadlock")
            if self.outcome in ("deadlock", "budget", "time", "lines"):
                self.deadlock_info = [
                    f"{t.name}[{t.node.name}]: {t.state} {t.waiting_on}"
                    for t in self.tasks
                    if not t.done and t.node.alive
                ][:40]
            if root.exc is not None and self.outcome == "done":
                self.outcome = "exception"
        finally:
            self._teardown()
            CURRENT = None
            if gc_was:
                gc.enable()
        self.root = root
        return self.outcome

    def _teardown(self):
        self.over = True
        for h in self.teardown_hooks:
            h()
        for t in self.tasks:
            if t.done:
                continue
            t.killed = True
            self.cur = t
            self.cur_ident = t.ident
            t.lock.release()
            self.main_lock.acquire()
        self.cur = None
        self.cur_ident = 0
        for t in self.tasks:
            t.on_exit = []
            t.waiters = []
        self.tasks_count = len(self.tasks)


# ------------------------------------------------------------------ monitoring
_codes = []


def _on_line(code, line):
    k = CURRENT
    if k is not None and not k.over and k.cur_ident == _real_get_ident():
        k.line_tick()


def watch_code(code):
    """Make every line of this code object (and those nested in it) preemptible."""
    _codes.append(code)
    if _mon_ready:
        _watch(code)


def _watch(code):
    # module bodies and class bodies are not preemptible: they run under the
    # import lock, which is a real lock
    if code.co_name != "<module>":
        sys.monitoring.set_local_events(_TOOL, code, sys.monitoring.events.LINE)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _watch(c)


def install_monitor():
    global _mon_ready
    if _mon_ready:
        return
    sys.monitoring.use_tool_id(_TOOL, "vsim")
    sys.monitoring.register_callback(_TOOL, sys.monitoring.events.LINE, _on_line)
    _mon_ready = True
    for c in _codes:
        _watch(c)
