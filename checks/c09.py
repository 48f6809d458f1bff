"""C09: a failure surfaces as an error, never as a wrong result, hang or poisoned cluster."""

from checks import spmd
from checks.common import Variant, go, join_all, net_faults, raise_unexpected
from checks.common import stalls

PLAN = {"mem": (480, 4000), "net": (450, 4000), "crash": (330, 3000), "boom": (330, 3000),
        "nonuniform": (180, 1500)}
LEVEL = "exploration"
RULE = ("Random programs with a failing computation, message loss / duplication / errors / "
        "timeouts, or worker crashes and restarts at random points; afterwards the faults "
        "stop and another program has to work.")
REAL = ["SimpHttpDriver, SimpMemDriver, worker app and routes, communicators, request "
        "interpreters, object stores"]
STUB = ["clock, OS threads, event loop scheduling (simulated)",
        "TCP/uvicorn (simulated network)", "local kernels (harness arithmetic)", "libspu"]
ASSUMPTIONS = ["a crashed worker loses its transient objects; the client then starts over"]
MUST_PROBE = ["failed", "succeeded", "recovered", "crashed"]
LIMIT = 60_000.0


def plant(k, prog):
    """Make one local call of the program fail on one of its parties."""
    calls = []

    def walk(steps):
        for i, s in enumerate(steps):
            if s[0] == "call":
                calls.append((steps, i))
            for x in s:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], list):
                    walk(x[0])
                elif isinstance(x, list) and x and isinstance(x[0], tuple):
                    walk(x)
    walk(prog.steps)
    return calls[k.work(len(calls))] if calls else None


def attempt(k, cl, prog, mode, tag):
    """One client call: ('ok', None) or ('error', e); a wrong value is a violation."""
    want = prog.expect()
    try:
        t = cl.compile(prog)
        if mode:
            got = cl.run_whole(prog, tag, t)
        else:
            got = cl.run_traced(prog, t)
    except Exception as e:  # noqa: BLE001
        return "error", e
    spmd.compare(k, got, want, tag, "wrong-result-after-fault")
    return "ok", None


def _net(k, kinds, crash=False):
    n = 2 + k.work(2)
    g = spmd.Gen(k, n, slow=(0.01, 0.5, 5.0)[k.work(3)], slow_p=4)
    progs = [g.__class__(k, n, slow=0.2, slow_p=6, uid0=1000 * i).program(1 + k.work(5))
             for i in range(4)]
    on = net_faults(k, kinds, (0.02, 0.08)[k.work(2)])
    k.net.faults.slow_scale = (3.0, 80.0)[k.work(2)]
    k.net.faults.slow_cap = 20.0 if crash else None
    stalls(k)
    cl = spmd.HttpCluster(k, n)
    modes = [k.work(2) for _ in progs]
    state = {}
    ran = spmd.Executions()

    def client():
        for i, p in enumerate(progs[:-1]):
            r, e = attempt(k, cl, p, modes[i], f"try-{i}")
            k.probe("succeeded" if r == "ok" else "failed")
            if r == "error" and not on and not crash:
                raise e
        state["tried"] = True

    j = go(k, client, "client")
    if crash:
        for _ in range(1 + k.work(2)):
            k.sleep((0.05, 0.5, 3.0)[k.work(3)] + k.delay(0.2))
            if j.finished:
                break
            r = k.work(n)
            cl.hosts[r].crash()
            k.probe("crashed")
            k.sleep((0.0, 0.5, 30.0)[k.work(3)])
            cl.start(r)
    join_all(k, [j], LIMIT, "calls during faults")
    raise_unexpected(k, [j])
    k.fault_enabled = False
    if k.work(2):
        k.sleep(3000.0)

    def after():
        r, e = attempt(k, cl, progs[-1], modes[-1], "after")
        if r == "error":
            k.fail("not-recovered", f"after faults stopped: {type(e).__name__}: "
                   f"{str(e)[:800]}")
        k.probe("recovered")
        cl.close()

    j = go(k, after, "client2")
    join_all(k, [j], LIMIT, "the program after faults stopped")
    raise_unexpected(k, [j])
    if "dup" not in on:
        # nothing is executed again because its answer was lost
        ran.check(k, progs, most=True)


def net(k):
    _net(k, ["slow", "refuse", "lost", "dup", "500"])


def crash(k):
    _net(k, ["slow"], crash=True)


def boom(k):
    """A computation fails on one party; the next programs run normally."""
    n = 2 + k.work(2)
    progs = [spmd.Gen(k, n, slow=0.2, slow_p=6, uid0=1000 * i).program(2 + k.work(5))
             for i in range(3)]
    net_faults(k, ["slow"], 0.03)
    stalls(k)
    cl = spmd.HttpCluster(k, n)
    reached = []

    def client():
        for i, p in enumerate(progs):
            fails = i < 2 and k.work(3) > 0
            hit = BoomAt(k, p) if fails else None
            mode = k.work(2)
            r, e = attempt(k, cl, hit.prog if hit else p, mode, f"try-{i}")
            if hit and hit.fired:
                reached.append(i)
                if r == "ok":
                    k.fail("failure-swallowed", f"program {i}: the computation failed on "
                           f"party {hit.rank} but the call succeeded")
                k.probe("failed")
            elif r == "error":
                k.fail("not-recovered", f"program {i} (failures so far: {reached}): "
                       f"{type(e).__name__}: {str(e)[:800]}")
            else:
                k.probe("succeeded")
                if reached:
                    k.probe("recovered")
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], LIMIT, "the programs")
    raise_unexpected(k, [j])


class BoomAt:
    def __init__(self, k, prog):
        self.fired = False
        self.prog = prog
        self.rank = None
        c = plant(k, prog)
        if c is None:
            return
        steps, i = c
        s = steps[i]
        self.rank = s[2][k.work(len(s[2]))]
        uid = s[4]

        def observe(what, u, rank):
            if what == "lin" and u == uid and rank == self.rank:
                self.fired = True
                raise spmd.Boom(f"planned failure of uid {uid} on party {rank}")

        spmd.OBSERVER[0] = observe


def mem(k):
    """In-process: the error reaches the client; nobody is left hanging."""
    n = 1 + k.work(4)
    prog = spmd.Gen(k, n, slow=0.2, slow_p=5).program(2 + k.work(6))
    stalls(k)
    cl = spmd.MemCluster(k, n)
    hit = BoomAt(k, prog)
    out = {}

    def client():
        mode = k.work(2)
        r, e = attempt(k, cl, prog, mode, "try")
        if hit.fired and r == "ok":
            k.fail("failure-swallowed", f"the computation failed on party {hit.rank} but "
                   "the call succeeded")
        if not hit.fired and r == "error":
            raise e
        k.probe("failed" if hit.fired else "succeeded")
        if hit.fired and not _blames(e):
            k.fail("failure-misreported", f"{e!r} does not name the failing computation")
        if hit.fired:
            # the mesh is gone: a further call is refused, it does not hang
            spmd.OBSERVER[0] = None
            r, e = attempt(k, cl, prog, mode, "again")
            out["again"] = r
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], LIMIT, "the call")
    raise_unexpected(k, [j])


def _blames(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, spmd.Boom) or "planned failure" in str(e) or "shut" in str(e).lower():
            return True
        e = e.__cause__ or e.__context__
    return False


def disagreeing(k):
    """A program in which the parties disagree on a predicate; None if none was found."""
    n = 2 + k.work(3)
    full = tuple(range(n))
    m = 1
    x = 0
    puid = 7 + k.work(3)
    while True:
        x += 1
        uid = 1 + k.work(50) + x
        vals = {spmd.pred_value(puid, [spmd.src_value(uid, r, m)]) for r in range(n)}
        if len(vals) == 2:
            break
        if x > 60:
            return None
    o1, o2, o3 = 10, 11, 12
    steps = [("src", 0, full, uid, m, True, 0.0)]
    inner = [("shuf", o1, 0, {t: 0 for t in full})] if k.work(2) else \
        [("call", [o1], full, [0], 5, m, 0, 0.0)]
    steps.append(("cond", [o3], 0, puid, [0], (inner, [o1]),
                  ([("call", [o2], full, [0], 6, m, 0, 0.0)], [o2])))
    return spmd.Program(n, steps, [o3], {})


def nonuniform(k):
    """A predicate the parties disagree on is reported, on either runtime."""
    prog = disagreeing(k)
    if prog is None:
        return
    n = prog.n
    http = k.work(2)
    cl = (spmd.HttpCluster if http else spmd.MemCluster)(k, n)

    def client():
        t = cl.compile(prog)
        try:
            cl.run_whole(prog, "j", t) if k.work(2) else cl.run_traced(prog, t)
        except Exception as e:  # noqa: BLE001
            k.probe("failed")
            if not http and "uniform" not in str(e) and "shut" not in str(e).lower():
                raise
            cl.close()
            return
        k.fail("non-uniform-accepted", "parties disagreed on the predicate and a result "
               "came back")

    j = go(k, client, "client")
    join_all(k, [j], LIMIT, "the call")
    raise_unexpected(k, [j])


VARIANTS = {"mem": Variant(mem, 0), "net": Variant(net, 0), "crash": Variant(crash, 0),
            "boom": Variant(boom, 0), "nonuniform": Variant(nonuniform, 0)}
