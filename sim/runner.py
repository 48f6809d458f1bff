"""Seeded search, classification, minimisation and replay of simulated runs."""

from __future__ import annotations

import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Variant:
    """One workload: `fn(k)` is the root task of a simulated world."""

    def __init__(self, fn, quick, thorough=None, *, boundary=True, **opts):
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.opts = opts
        self.name = None


class Result:
    __slots__ = ("kind", "detail", "status", "outcome", "k")

    def __init__(self, status, kind, detail, outcome, k):
        self.status = status  # ok | violation | harness
        self.kind = kind
        self.detail = detail
        self.outcome = outcome
        self.k = k


def world(scratch):
    """Import the code under test into the simulated world (once per process)."""
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["XLA_FLAGS"] = (
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    )
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    from . import kernel, loader, net, prims, simos  # noqa: F401

    loader.install()
    os.chdir(scratch)
    simos.reset(scratch)
    import jax

    jax.config.update("jax_enable_x64", True)
    jax.config.update("jax_enable_compilation_cache", False)
    # import everything up front: an import inside a run would make the first
    # run of a process different from the others
    import pkgutil

    import mplang

    for m in pkgutil.walk_packages(mplang.__path__, "mplang."):
        if any(x in m.name for x in (".cli", ".v1", ".tool", ".protos")):
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    import mplang.backends

    mplang.backends.load_builtins()
    import anyio._backends._asyncio  # noqa: F401
    import fastapi.testclient  # noqa: F401



def _repo_frames(exc):
    out = []
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        for f in traceback.extract_tb(e.__traceback__):
            if f.filename.startswith(REPO + "/mplang"):
                out.append(f"{f.filename[len(REPO) + 1:]}:{f.lineno}")
        todo += [e.__cause__, e.__context__]
        todo += list(getattr(e, "exceptions", ()) or ())
    return out


_counter = 0
IDENT = "verif"


def run_one(variant, seed, tapes=None, trace=False, scratch_root=None):
    """One simulated execution. Pure function of (variant, seed or tapes, code)."""
    global _counter
    from . import kernel as K
    from . import prims, simos

    _counter += 1
    # the path has the same length and content for every run: it may end up in
    # messages, and messages may end up in hashes
    d = os.path.join(scratch_root, "run")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.chdir(d)
    simos.reset(d)
    opts = dict(variant.opts)
    k = K.Kernel(seed, tapes, trace=trace, **opts)
    k.fs = simos.FSFaults(k)
    from . import net

    net.Net(k)
    k.scratch = d
    harness = None
    try:
        outcome = k.run(lambda: variant.fn(k))
    except K.HarnessError as e:
        outcome, harness = "harness", str(e)
    prims.reset_between_runs()
    for f in RESETS:
        f()
    os.chdir(scratch_root)
    return classify(k, outcome, harness)


RESETS = []


def classify(k, outcome, harness=None):
    if outcome == "done":
        return Result("ok", "", "", outcome, k)
    if outcome == "violation":
        return Result("violation", k.violation.kind, k.violation.detail, outcome, k)
    if outcome == "harness" or harness:
        return Result("harness", "harness", harness or "; ".join(k.harness_errors),
                      outcome, k)
    if outcome == "exception":
        e = k.root.exc
        tb = "".join(traceback.format_exception(e))[-3000:]
        from . import kernel as K

        if isinstance(e, K.HarnessError):
            return Result("harness", "harness", tb, outcome, k)
        if caused_by_code(e):
            return Result("violation", f"unexpected-{type(e).__name__}", tb, outcome, k)
        return Result("harness", "harness", tb, outcome, k)
    # deadlock / budget / time / lines: no progress
    return Result("violation", "no-progress",
                  outcome + ": " + " ;; ".join(k.deadlock_info or []), outcome, k)


VALUE_ERRORS = (AssertionError, KeyError, IndexError, ValueError, ArithmeticError,
                UnicodeError)


def caused_by_code(exc):
    """Whether an exception is about what the code did: it was raised in the code, or the
    check came upon a value it cannot be given by correct code. (Missing attributes and
    files, wrong calls and the like mean that the check does not fit the code.)"""
    return bool(_repo_frames(exc)) or (isinstance(exc, VALUE_ERRORS)
                                       and not isinstance(exc, ImportError))


# ------------------------------------------------------------------ checks
def load_check(pid):
    m = importlib.import_module(f"checks.{pid.lower()}")
    for n, v in m.VARIANTS.items():
        v.name = n
    return m


def seed_of(base, pid, variant, i):
    return f"{base}:{pid}:{variant}:{i}"


def tapes_of(k):
    out = {}
    for n, t in k.tapes.items():
        o = list(t.out)
        while o and o[-1] == 0:
            o.pop()
        out[n] = o
    return out


class Deadline:
    """Real-time watchdog for one run: code that never reaches the simulator."""

    def __init__(self, limit, report):
        self.limit = limit
        self.report = report

    def __enter__(self):
        signal.signal(signal.SIGALRM, self._fire)
        signal.alarm(self.limit)

    def __exit__(self, *a):
        signal.alarm(0)

    def _fire(self, *_):
        frames = []
        for _tid, fr in sys._current_frames().items():
            st = traceback.extract_stack(fr)
            fs = [f"{f.filename}:{f.lineno}" for f in st
                  if f.filename.startswith(REPO + "/mplang")]
            if fs and "/sim/kernel.py" not in st[-1].filename:
                frames.append(fs[-1])
        self.report(frames)
        os._exit(3)


# ------------------------------------------------------------- minimisation
def minimise(variant, tapes, kind, scratch_root, budget_s=40.0, max_runs=1500):
    """Shrink the recorded choices while the same kind of violation remains."""
    t_end = time.monotonic() + budget_s
    best = {n: list(v) for n, v in tapes.items()}
    runs = 0

    def ok(c):
        nonlocal runs
        if time.monotonic() > t_end or runs > max_runs:
            return False
        runs += 1
        r = run_one(variant, "min", c, scratch_root=scratch_root)
        if r.status == "violation" and r.kind == kind:
            return tapes_of(r.k)
        return False

    def size(c):
        return (sum(len(v) for v in c.values()), sum(sum(v) for v in c.values()))

    def attempt(c):
        nonlocal best
        r = ok(c)
        if r is not False and size(r) <= size(best):
            best = r
            return True
        return False

    for names in (("sched", "conf", "fault"), ("sched", "conf"), ("fault",), ("work",)):
        attempt({**best, **{n: [] for n in names}})
    changed = True
    rounds = 0
    while changed and time.monotonic() < t_end and rounds < 4:
        changed = False
        rounds += 1
        for n in ("fault", "sched", "work", "conf"):
            # truncation
            cut = len(best[n]) // 2
            while cut >= 1:
                if len(best[n]) > cut and attempt({**best, n: best[n][:-cut]}):
                    changed = True
                else:
                    cut //= 2
            # zero chunks
            step = max(1, len(best[n]) // 2)
            while step >= 1 and time.monotonic() < t_end:
                i = 0
                while i < len(best[n]):
                    seg = best[n][i:i + step]
                    if any(seg):
                        c = best[n][:i] + [0] * len(seg) + best[n][i + step:]
                        if attempt({**best, n: c}):
                            changed = True
                    i += step
                step //= 2
            # drop chunks of the work tape (fewer operations)
            if n in ("work", "fault"):
                for step in (8, 4, 2, 1):
                    i = 0
                    while i < len(best[n]) and time.monotonic() < t_end:
                        c = best[n][:i] + best[n][i + step:]
                        if not attempt({**best, n: c}):
                            i += step
                        else:
                            changed = True
            # smaller values
            for i in range(min(len(best[n]), 400)):
                while i < len(best[n]) and best[n][i] > 1:
                    v = best[n][i]
                    if not attempt({**best, n: best[n][:i] + [v // 2] + best[n][i + 1:]}):
                        break
                    changed = True
    return best, runs


def replay_doc(pid, variant, seed, r, tapes, note=""):
    k = r.k
    keep = [x for x in k.log if ": fault|" in x or "crash|" in x or "net|" in x
            or "op|" in x or "deliver|" in x]
    return {
        "property": pid,
        "variant": variant,
        "seed": seed,
        "kind": r.kind,
        "detail": r.detail[-6000:],
        "trace_hash": k.h,
        "steps": k.steps,
        "simulated_seconds": round(k.now, 6),
        "faults": k.fault_counts,
        "tapes": tapes,
        "note": note,
        "events": keep[-300:],
        "schedule_tail": k.log[-300:],
    }


def make_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    try:
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 200e6:
                base = None
    except OSError:
        base = None
    root = tempfile.mkdtemp(prefix="vsim-", dir=base)
    # a fixed-length name inside, so that paths do not vary between processes
    return root


def dumps(x):
    return json.dumps(x, default=str)
