"""C10: jobs that run at the same time on one cluster do not affect each other."""

from checks import spmd
from checks.common import Variant, go, join_all, net_faults, how_many, raise_unexpected
from checks.common import stalls
from sim import kernel as K

PLAN = {"mem": (660, 6000), "http": (480, 4000), "failing": (330, 3000),
        "side": (300, 3000)}
LEVEL = "exploration"
RULE = ("2 to 5 programs evaluated at once by different client threads (per operation or "
        "as whole-graph jobs, same or different programs, one or several drivers), with "
        "random schedules, latency and, in one variant, failing neighbours.")
REAL = ["drivers, worker apps, communicators, request interpreters, object stores, "
        "thread pools (real concurrent.futures code)"]
STUB = ["clock, OS threads, event loop scheduling (simulated)",
        "TCP/uvicorn (simulated network)", "local kernels (harness arithmetic)", "libspu"]
ASSUMPTIONS = ["programs are traced from one client thread; up to 5 jobs at once"]
MUST_PROBE = ["overlap", "same-graph", "alike", "per-op", "whole", "neighbour-failed", "clusters",
              "after-close"]
LIMIT = 60_000.0


NAMES = [lambda i: f"job-{i}", lambda i: f"run.{i}", lambda i: f"{i}.run", lambda i: "j" * (i + 1),
         lambda i: f"tenant/a/{i}", lambda i: f"{i:032x}", lambda i: "job" + " " * i,
         lambda i: "".join(c.upper() if i >> j & 1 else c for j, c in enumerate("train")),
         lambda i: f"{'x' * 60}-{i}-{'y' * 60}", lambda i: f"a:{i}:0", lambda i: f"é{i}%2F#{i}?"]


class Replay:
    """Makes the generator take the same choices again."""

    def __init__(self, k, taken=None):
        self.k, self.taken, self.i = k, taken, 0
        self.made = []

    def work(self, n):
        if self.taken is None:
            self.made.append(self.k.work(n))
            return self.made[-1]
        self.i += 1
        return self.taken[self.i - 1]

    def probe(self, name):
        self.k.probe(name)

    @property
    def max_steps(self):
        return self.k.max_steps

    @max_steps.setter
    def max_steps(self, n):
        self.k.max_steps = n


def _run(k, http, failing):
    n = how_many(k, 1 + k.work(3)) if not failing else 2 + k.work(2)
    jobs_n = 2 + k.work(4)
    same = k.work(3) == 0
    slow = (0.0, 0.01, 0.3)[k.work(3)]
    alike = not same and k.work(2)
    progs = []
    taken = None
    for i in range(jobs_n):
        if same and progs:
            progs.append(progs[0])
            k.probe("same-graph")
        else:
            # "alike": the same steps on other data
            g = Replay(k, taken if alike else None)
            progs.append(spmd.Gen(g, n, uid0=1000 * (i + 1), slow=slow, slow_p=4)
                         .program(1 + g.work(4)))
            taken = taken or g.made
    if alike:
        k.probe("alike")
    if http:
        net_faults(k, ["slow"], 0.03)
        k.net.faults.slow_scale = 4.0
        stalls(k)
        cl = spmd.HttpCluster(k, n)
        clients = [cl] * jobs_n
        if k.work(2):
            class Other(spmd.HttpCluster):
                def __init__(self):
                    self.k, self.n, self.eps = k, n, cl.eps
                    self.attach()
            other = Other()
            clients = ([cl, other] * jobs_n)[:jobs_n] if alike else [
                cl if k.work(2) else other for _ in range(jobs_n)]
    else:
        stalls(k)
        cl = spmd.MemCluster(k, n)
        clients = [cl] * jobs_n
    traced = [c.compile(p) for c, p in zip(clients, progs)]
    bad = None
    if failing:
        # one program fails on one party; it shares no value with the others
        from checks.c09 import BoomAt

        while progs[0] in progs[1:]:
            progs[0] = spmd.Gen(k, n, uid0=500_000).program(2)
            traced[0] = clients[0].compile(progs[0])
        bad = BoomAt(k, progs[0])
    ran = None if failing else spmd.Executions()
    running = [0]
    wholes = set() if alike and k.work(2) else {i for i in range(jobs_n) if k.work(3)}
    name = NAMES[k.work(len(NAMES))]
    gaps = [k.work(n + 1) for _ in range(jobs_n)]

    def client(i):
        if i % 2:
            k.sleep(k.delay(0.002))
        running[0] += 1
        if running[0] > 1:
            k.probe("overlap")
        whole = i in wholes
        try:
            if whole:
                k.probe("whole")
                got = clients[i].run_whole(progs[i], name(i), traced[i],
                                           gap=gaps[i])
            else:
                k.probe("per-op")
                got = clients[i].run_traced(progs[i], traced[i])
        except Exception:
            running[0] -= 1
            if bad is not None and i == 0 and bad.fired:
                k.probe("neighbour-failed")
                return
            raise
        running[0] -= 1
        if bad is not None and i == 0 and bad.fired:
            k.fail("failure-swallowed", f"job 0 failed on party {bad.rank} but succeeded")
        spmd.compare(k, got, progs[i].expect(), f"job {i} of {jobs_n}")

    nodes = {id(c): K.Node(f"driver{i}") for i, c in enumerate(clients)}
    js = [go(k, lambda i=i: client(i), f"client{i}", nodes[id(clients[i])])
          for i in range(jobs_n)]
    join_all(k, js, LIMIT, "concurrent jobs")
    raise_unexpected(k, js)
    if ran:
        ran.check(k, progs)
    for c in {id(c): c for c in clients}.values():
        c.close()


def side(k):
    """Several clusters in one process, each with its own jobs; some close early."""
    sizes = [1 + k.work(3) for _ in range(2 + k.work(2))]
    if k.work(2):
        sizes = [sizes[0]] * len(sizes)
    over = k.work(3) == 0
    stalls(k)
    if over:
        net_faults(k, ["slow"], 0.03)
        k.net.faults.slow_scale = 4.0
    cls = [spmd.HttpCluster(k, n) if over and i == 0 else spmd.MemCluster(k, n)
           for i, n in enumerate(sizes)]
    slow = (0.0, 0.01, 0.3)[k.work(3)]
    jobs = []
    for c, cl in enumerate(cls):
        for i in range(1 + k.work(2)):
            prog = spmd.Gen(k, sizes[c], uid0=10_000 * (c + 1) + 1000 * i, slow=slow,
                            slow_p=4).program(1 + k.work(4))
            jobs.append((c, i, prog, cl.compile(prog), k.work(3), 1 + k.work(2)))
    early = k.work(2)
    left = [sum(j[0] == c for j in jobs) for c in range(len(cls))]
    closed = [0] * len(cls)

    def client(c, i, prog, traced, mode, times):
        cl = cls[c]
        for t in range(times):
            if any(closed):
                k.probe("after-close")
            # the same job names on every cluster
            got = (cl.run_whole(prog, f"job-{i}.{t}", traced) if mode
                   else cl.run_traced(prog, traced))
            spmd.compare(k, got, prog.expect(), f"job {i} of cluster {c}")
        left[c] -= 1
        if early and left[c] == 0:
            closed[c] = 1
            cl.close()
        k.probe("clusters")

    js = [go(k, lambda a=a: client(*a), f"c{a[0]}j{a[1]}") for a in jobs]
    join_all(k, js, LIMIT, "jobs on several clusters")
    raise_unexpected(k, js)
    for c, cl in enumerate(cls):
        if not closed[c]:
            cl.close()


VARIANTS = {"side": Variant(side, 0), "mem": Variant(lambda k: _run(k, False, False), 0),
            "http": Variant(lambda k: _run(k, True, False), 0),
            "failing": Variant(lambda k: _run(k, True, True), 0)}
