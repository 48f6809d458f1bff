"""C08: the same program gives the same result over HTTP, whatever the timing."""

from checks import spmd
from checks.common import Variant, go, join_all, net_faults, how_many, raise_unexpected
from checks.common import stalls

PLAN = {"traced": (360, 3000), "whole": (480, 4000), "eager": (150, 1200), "literals": (180, 1500)}
LEVEL = "exploration"
RULE = ("Random programs on 1 to 4 worker processes reached over HTTP, with random "
        "latency, stalls and slow computations but no lost message.")
REAL = ["SimpHttpDriver, worker app and routes, HttpCommunicator, request interpreters",
        "tracer, serde of graphs and values, object stores", "httpx request building, "
        "starlette/fastapi"]
STUB = ["clock, OS threads, event loop scheduling (simulated)",
        "TCP/uvicorn (simulated network)", "local kernels (harness arithmetic)", "libspu"]
ASSUMPTIONS = ["programs are traced from one client thread"]
MUST_PROBE = ["call", "shuf", "conv", "cond", "while", "dyn", "literals"]


def run(k, mode):
    n = how_many(k, 1 + k.work(4))
    g = spmd.Gen(k, n, control=mode != "eager", dynamic=True,
                 slow=(0.05, 1.0, 70.0)[k.work(3)], slow_p=6)
    prog = g.program(g.long(2 + k.work(6)))
    for x in prog.kinds():
        k.probe(x)
    net_faults(k, ["slow"], 0.05)
    k.net.faults.slow_scale = 8.0
    stalls(k)
    cl = spmd.HttpCluster(k, n)
    ran = spmd.Executions()

    def client():
        want = prog.expect()
        t = cl.compile(prog)
        times = 1 + k.work(2)
        for i in range(times):
            if mode == "eager":
                got = cl.run_eager(prog)
            elif mode == "whole":
                got = cl.run_whole(prog, f"job-{i}", t)
            else:
                got = cl.run_traced(prog, t)
            spmd.compare(k, got, want, f"{mode} run {i}")
        ran.check(k, [prog], times)
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], 30_000.0, "the program")
    raise_unexpected(k, [j])


def literals(k):
    net_faults(k, ["slow"], 0.05)
    stalls(k)
    cl = spmd.HttpCluster(k, 1 + k.work(3))
    spmd.literals(k, cl, ["eager", "traced", "whole"][k.work(3)])


VARIANTS = {m: Variant(lambda k, m=m: run(k, m), 0) for m in PLAN if m != "literals"}
VARIANTS["literals"] = Variant(literals, 0)
