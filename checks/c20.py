"""C20: the command-line tools drive and report the cluster truthfully."""

import json
import os
import re
import signal
import sys

import numpy as np
import yaml

import mplang as mp
from checks import c17
from checks.common import (HarnessError, Variant, go, join_all, net_faults, how_many,
                           raise_unexpected)
from mplang import cli
from mplang.edsl import context
from mplang.libs import device as D
from mplang.libs.device import api
from sim import kernel as K
from sim import procs
from sim import runner as R

PLAN = {"jobs": (200, 2800), "report": (470, 6500), "up": (470, 6500), "merge": (220, 2500)}
LEVEL = "exploration"
RULE = ("Whole commands (config, up, worker, run, sim, status, objects, trace merge) as simulated "
        "processes on one or several machines, over clusters described by generated or hand-made "
        "files, endpoint lists or port options, with and without SPU addresses; jobs that succeed "
        "and fail, next to each other and to status queries; workers absent, crashed, cut off, "
        "slow or answering errors; signals to the tools at any moment; trace files torn or of "
        "several parties.")
REAL = ["mplang.cli from argument parsing to exit code", "cluster specification, driver, HTTP "
        "workers, device API, simulator", "argparse, yaml, httpx client, FastAPI"]
STUB = ["processes, signals, stdout (simulated)", "uvicorn: startup, port binding, graceful exit",
        "clock, OS threads, event loop, network (simulated)", "libspu, including its brpc links"]
ASSUMPTIONS = ["signal handlers run between operations that reach the operating system",
               "jobs run one at a time (tracing is per process)"]
MUST_PROBE = ["form-gen", "form-file", "form-ports", "form-endpoints", "many-machines", "spu-brpc",
              "job-done", "job-failed", "sim-same", "served", "handler-ran", "stopped-early",
              "up-again", "reported-up", "reported-down", "reported-slow", "objects-listed",
              "torn-trace", "ranks-merged", "asked-while-running", "job-without-worker"]
JOB = [None]


def _reset():
    JOB[0] = None
    context._context_stack.clear()


R.RESETS.append(_reset)


# ------------------------------------------------------------------- commands
def command(k, name, argv, machine="local"):
    def target():
        sys.argv = ["mplang", *argv]
        cli.main()

    k.ev("command", name, " ".join(map(str, argv)))
    return procs.Proc(k, name, target, machine=machine)


def finish(k, p, within, what):
    if not p.wait(within):
        k.fail("no-progress", f"{what} did not end within {within} simulated seconds; its main "
               f"thread waits on {p.main.waiting_on}; output {p.text[-600:]!r}")
    for e in [p.error] if p.error is not None else []:
        if isinstance(e, HarnessError):
            raise e
    return p


def call(k, argv, machine="local", within=4000.0):
    k.calls = getattr(k, "calls", 0) + 1
    p = command(k, f"{argv[0]}{k.calls}", argv, machine)
    return finish(k, p, within, " ".join(argv))


# ------------------------------------------------------------------- clusters
class Deployment:
    """A cluster described in one of the supported ways."""

    def __init__(self, k, n=None, local=False, plain=False):
        w = k.work
        self.k = k
        self.n = n = n or how_many(k, 2 + w(3))
        self.form = ("gen", "file", "ports", "endpoints")[w(4)]
        k.probe("form-" + self.form)
        many = not local and self.form in ("file", "endpoints") and w(2)
        base = 8100 if w(3) == 0 else 7000 + 100 * w(9)
        self.machines = ["local"] * n
        if many:
            k.probe("many-machines")
            named = w(3) == 0
            names = ["bank.example", "httpd1", "org-c", "https-lab.example", "e"]
            self.machines = [names[i % 5] + str(i // 5 or "") if named else f"10.0.0.{1 + i}" for i in
                             (w(n) if w(3) == 0 else r for r in range(n))]
        ports = [base + i for i in range(n)]
        if self.form in ("file", "endpoints"):
            for i in range(n - 1, 0, -1):       # any ports in any order
                j = w(i + 1)
                ports[i], ports[j] = ports[j], ports[i]
        self.ports = ports
        self.addrs = [f"{m if m != 'local' else '127.0.0.1'}:{p}"
                      for m, p in zip(self.machines, ports)]
        self.eps = ["http://" + a for a in self.addrs]
        self.spu = None
        self.home = self.machines[w(n)] if w(2) and many else ("laptop" if many else "local")
        args = []
        spu_port = 9000 + 50 * w(5)
        kind = 0 if plain else w(3)
        self.conf = None
        if self.form == "gen":
            a = ["config", "gen", "-w", str(n), "-p", str(base), "-o", "cluster.yaml"]
            if kind:
                a += ["--spu-base-port", str(spu_port)]
            r = call(k, a)
            if r.code != 0:
                k.fail("command-failed", f"{a}: exit {r.code}: {r.text[-800:]}")
            args = ["-c", "cluster.yaml"]
            with open("cluster.yaml") as f:
                self.conf = yaml.safe_load(f)
            got = [x["endpoint"].removeprefix("http://") for x in self.conf["nodes"]]
            if got != self.addrs:
                k.fail("wrong-config", f"{a} wrote endpoints {got}, expected {self.addrs}")
            if kind:
                self.spu = "SPU0"
        elif self.form == "file":
            http = w(3)
            nodes = [{"name": f"org{r}", "endpoint": a if http == 0 or http == 1 and r % 2
                      else "http://" + a} for r, a in enumerate(self.addrs)]
            devs = {f"P{r}": {"kind": "PPU", "members": [f"org{r}"]} for r in range(n)}
            if kind:
                k_ = ("SPU", "spu")[w(2)]
                m = list(range(n))
                if w(2):
                    m = m[::-1][:2 + w(n - 1)]
                devs["SPX"] = {"kind": k_, "members": [f"org{r}" for r in m],
                               "config": {"protocol": "SEMI2K", "field": "FM64"}}
                self.spu = "SPX"
            if w(2):
                devs["T"] = {"kind": "TEE", "members": [f"org{w(n)}"]}
            self.conf = {"nodes": nodes, "devices": devs}
            with open("my.yaml", "w") as f:
                yaml.dump(self.conf, f, sort_keys=False)
            args = ["-c", "my.yaml"]
        else:
            if self.form == "ports":
                if n != 3 or w(2):
                    args += ["-w", str(n)]
                if base != 8100 or w(2):
                    args += ["-p", str(base)]
            else:
                sep = (",", ", ")[w(2)]
                args = ["--endpoints", sep.join(a if w(2) else "http://" + a
                                                for a in self.addrs)]
            self.conf = None
            self.spu = "SP0"
        self.args = args
        # where the parties' SPU runtimes listen (workers only need to know)
        self.worker_args = list(args)
        self.brpc = False
        if self.form in ("gen", "file"):
            self.brpc = self.spu is not None
            if self.spu and w(2):
                self.worker_args += ["--spu-base-port", str(spu_port)]
        elif kind == 1 and (self.form == "ports" or not many):
            self.worker_args += ["--spu-base-port", str(spu_port)]
            self.brpc = True
        if kind == 2 and w(2):
            self.worker_args += ["--spu-endpoints", ",".join(
                f"{m if m != 'local' else '127.0.0.1'}:{spu_port + 7 * r}"
                for r, m in enumerate(self.machines))]
            self.brpc = True
        if self.conf is not None:
            self.spec = mp.ClusterSpec.from_dict(self.conf)
        else:
            self.spec = mp.ClusterSpec.simple(n, endpoints=self.eps)
        self.procs = [None] * n
        self.up = None

    def key(self, r):
        return procs.resolve(self.machines[r], self.addrs[r])

    def host(self, r):
        h = self.k.net.hosts.get(self.key(r))
        return h if h is not None and h.node.alive else None

    def start(self, ranks=None):
        """By `up`, or one `worker` each."""
        k = self.k
        ranks = list(range(self.n)) if ranks is None else ranks
        if len(ranks) == self.n and set(self.machines) == {"local"} and k.work(2):
            self.up = command(k, f"up{k.now}", ["up", *self.worker_args])
        else:
            order = ranks[::-1] if k.work(2) else ranks
            for r in order:
                self.start_worker(r)
        self.wait_up(ranks)

    def start_worker(self, r):
        self.procs[r] = command(
            self.k, f"worker{r}.{self.k.now}",
            ["worker", "--rank", str(r), *self.worker_args], self.machines[r])

    def wait_up(self, ranks):
        k = self.k
        end = k.now + 60
        while any(self.host(r) is None for r in ranks):
            if k.now > end:
                bad = [r for r in ranks if self.host(r) is None]
                ps = [p for p in [self.up, *self.procs] if p is not None]
                k.fail("workers-missing", f"{self.worker_args}: no worker {bad} at "
                       f"{[self.addrs[r] for r in bad]}; listening {sorted(k.net.hosts)}; "
                       + " ".join(p.text[-500:] for p in ps))
            k.sleep(0.1)

    def all_procs(self):
        out = [p for p in self.procs if p is not None]
        if self.up is not None:
            out += [self.up, *self.up.children]
        return out


# ----------------------------------------------------------------------- jobs
class Work:
    """A device program as the entry point of a user's script."""

    def __init__(self, k, dep, tag):
        self.prog = c17.Prog(k, dep.spec, 1 + k.work(5), tag)
        self.vals = sorted(self.prog.val)
        self.compiled = k.work(2)

    def emit(self):
        p = self.prog
        env = p.finals(p.execute())
        return [env[v] for v in self.vals]

    def __call__(self):
        if self.compiled:
            t = mp.compile(self.emit)
            got = [mp.fetch(x) for x in mp.evaluate(t)]
        else:
            got = [mp.device_fetch(x) if D.is_device_obj(x) else mp.fetch(x)
                   for x in self.emit()]
        out = []
        for g in got:
            if isinstance(g, list):
                there = [x for x in g if x is not None]
                g = there[0] if len(there) == 1 else there
            g = g.unwrap() if hasattr(g, "unwrap") else g
            out.append(np.asarray(g).tolist())
        return out

    def expect(self):
        return [np.asarray(self.prog.val[v]).tolist() for v in self.vals]


class Boom(Exception):
    pass


SCRIPT = """
from checks import c20
print("script loaded")
CONSTANT = 5
def __mp_main__(*args):
    return c20.entered("__mp_main__", args)
def other(*args):
    return c20.entered("other", args)
"""


def entered(name, args):
    return JOB[0](name, args)


def run_job(k, dep, work, tool):
    """One `run`/`sim`; returns the process and what reached the entry point."""
    w = k.work
    seen = []
    entry = ("__mp_main__", "other")[w(2)]
    extra = [[], ["1000"], ["a b", "c=1"], ["", "0", "x,y"]][w(4)]
    quiet = w(5) == 0
    box = {}

    def job(name, args):
        seen.append((name, args))
        box["value"] = v = work()
        return None if quiet else v

    JOB[0] = job
    if tool == "run":
        argv = ["run", *dep.args]
        if w(3) == 0:
            argv += ["--backend", "http"]
    else:
        cluster = dep.args if dep.form in ("gen", "file") else ["-w", str(dep.n)]
        argv = ["sim", *cluster] if w(2) else ["run", *cluster, "--backend", "sim"]
        if w(3) == 0:
            argv.append("--profile")
    argv += ["-f", "job.py"]
    if entry != "__mp_main__":
        argv += ["--entry", entry]
    if extra:
        argv += ["--args", *extra]
    if w(4) == 0:
        procs.prims.SHIMS["os"].environ["MPLANG_PRINT_GRAPH"] = "1"
    asking = None
    if tool == "run" and w(3) == 0:     # reports while the job runs
        asking = go(k, lambda: ask(k, dep, 1 + w(3)), "asking")
    p = call(k, argv, dep.home)
    if asking is not None:
        join_all(k, [asking], 1000.0, "status queries")
        raise_unexpected(k, [asking])
    JOB[0] = None
    if seen not in ([], [(entry, tuple(extra))]):
        k.fail("wrong-call", f"{argv} called {seen!r}")
    return argv, p, seen, box, quiet


def ask(k, dep, times):
    for _ in range(times):
        k.sleep(k.delay((0.005, 0.2)[k.work(2)]))
        k.probe("asked-while-running")
        if k.work(3):
            statuses(k, dep, {r: dep.sure for r in range(dep.n)})
        else:
            listing(k, dep, {r: dep.sure for r in range(dep.n)}, steady=False)


def jobs(k):
    import warnings

    warnings.simplefilter("ignore")
    api._tee_session_cache.clear()
    procs.begin(k, (0.0, 0.05)[k.work(2)])
    c17.WIRE[0] = None
    if k.work(2):
        net_faults(k, ["slow"], 0.04)
    sure = "up" if not k.net.faults.p_slow and k.net.faults.latency < 0.1 else None
    dep = Deployment(k)
    dep.sure = sure
    if dep.brpc:
        k.probe("spu-brpc")
    with open("job.py", "w") as f:
        f.write(SCRIPT)
    dep.start()
    for i in range(2 + k.work(2)):
        c = k.work(8)
        work = Work(k, dep, i)
        if c < 5:
            argv, p, seen, box, quiet = run_job(k, dep, work, "run")
            good(k, dep, work, argv, p, seen, quiet)
            k.probe("job-done")
            if k.work(2):
                argv, p, seen, box, quiet = run_job(k, dep, work, "sim")
                good(k, dep, work, argv, p, seen, quiet)
                k.probe("sim-same")
        elif c == 5 and dep.up is None:
            without_a_worker(k, dep, work)
        else:
            tool = ("run", "run", "sim")[k.work(3)]
            failing(k, dep, work, c, tool)
        if k.work(3) == 0:
            statuses(k, dep, {r: sure for r in range(dep.n)})
        if k.work(3) == 0:
            listing(k, dep, {r: sure for r in range(dep.n)})
    stop_all(k, dep)


def good(k, dep, work, argv, p, seen, quiet):
    if p.code != 0:
        said = [str(x[4])[:700] for x in k.net.responses if x[3] not in (200, "exc")][-3:]
        k.fail("command-failed", f"{argv} ({dep.form}, worker options {dep.worker_args}): exit "
               f"{p.code}: {p.text[-1200:]}; workers said {said}")
    if not seen:
        k.fail("wrong-call", f"{argv} never called the entry point")
    want = work.expect()
    lines = p.text.splitlines()
    if not quiet and repr(want) not in lines:
        k.fail("wrong-result", f"{argv}: printed {lines!r}, expected {want!r}; "
               f"program {work.prog.steps!r}")


def without_a_worker(k, dep, work):
    """Whatever is missing, a result that is printed is right; then all is well again."""
    r = k.work(dep.n)
    dep.procs[r].signal(signal.SIGKILL)
    k.count_fault("node-crash")
    sure, dep.sure = dep.sure, None
    argv, p, seen, box, quiet = run_job(k, dep, work, "run")
    if p.code == 0:
        good(k, dep, work, argv, p, seen, quiet)
    else:
        k.probe("job-without-worker")
    _reset()
    dep.sure = sure
    if dep.brpc:            # links between the survivors and the lost one are gone
        for q in dep.procs:
            q.signal(signal.SIGTERM)
        for q in dep.procs:
            q.wait(2000.0)
        k.sleep(1)
        for i in range(dep.n):
            dep.start_worker(i)
        dep.wait_up(range(dep.n))
    else:
        dep.start_worker(r)
        dep.wait_up([r])


def failing(k, dep, work, c, tool):
    """A job that cannot succeed ends with an error, and the cluster stays usable."""
    w = k.work
    if c == 5:
        def work():
            raise Boom("job gave up")
    elif c == 6:
        real = work

        def work():
            real.prog.execute()
            raise Boom("job gave up later")
    else:
        base = ["run", *dep.args] if tool == "run" else ["sim", *(
            dep.args if dep.form in ("gen", "file") else ["-w", str(dep.n)])]
        argv = base + [["-f", "job.py", "--entry", "missing"],
                       ["-f", "job.py", "--entry", "CONSTANT"],
                       ["-f", "no_such_file.py"]][w(3)]
        JOB[0] = None
        p = call(k, argv, dep.home)
        if p.code == 0:
            k.fail("failure-hidden", f"{argv} exited 0: {p.text[-500:]}")
        k.probe("job-failed")
        _reset()
        return
    argv, p, seen, box, quiet = run_job(k, dep, work, tool)
    if p.code == 0:
        k.fail("failure-hidden", f"{argv} exited 0 although the job raised: {p.text[-500:]}")
    if seen and not isinstance(p.error, Boom):
        k.fail("failure-hidden", f"{argv} ended with {p.error!r}, the job raised Boom: "
               f"{p.text[-900:]}")
    if not seen:
        k.fail("command-failed", f"{argv}: {p.text[-900:]}")
    k.probe("job-failed")


# --------------------------------------------------------------------- reports
def statuses(k, dep, truth, machine=None):
    t0 = k.now
    p = call(k, ["status", *dep.args], machine or dep.home, within=dep.n * 4.0 + 30)
    rows = [x for x in p.text.splitlines() if re.match(r"\s*(OK|ERR)\b", x)]
    if p.code != 0 or len(rows) != dep.n:
        k.fail("wrong-report", f"status {dep.args}: exit {p.code}, {len(rows)} lines for "
               f"{dep.n} workers: {p.text[-900:]}")
    for r in range(dep.n):
        ok = rows[r].split()[0] == "OK"
        if dep.eps[r] not in rows[r]:
            k.fail("wrong-report", f"status line {r} is {rows[r]!r}, worker at {dep.eps[r]}")
        if truth[r] is None:
            continue
        if ok != (truth[r] == "up"):
            k.fail("wrong-report", f"status says {rows[r]!r}, worker {r} is {truth[r]}")
        if ok and not re.search(rf"['\"]rank['\"]: ['\"]?{r}\b", rows[r]):
            k.fail("wrong-worker", f"not worker {r} at {dep.eps[r]}: {rows[r]!r}")
        k.probe("reported-up" if ok else "reported-slow" if truth[r] == "slow"
                else "reported-down")
    return k.now - t0


def held(k, dep, r):
    """What a worker's store holds, asked directly."""
    app = dep.host(r).app
    for route in app.routes:
        if getattr(route, "path", None) == "/objects":
            return route.endpoint()["objects"]
    raise HarnessError("no /objects route")


def listing(k, dep, truth, steady=True):
    p = call(k, ["objects", *dep.args], dep.home, within=dep.n * 4.0 + 30)
    rows = [[y.strip() for y in x.split("|")] for x in p.text.splitlines()
            if re.match(r"\s*\d+\s*\|", x)]
    if p.code != 0 or [x[0] for x in rows] != [str(r) for r in range(dep.n)] or [
            x[1] for x in rows] != dep.eps:
        k.fail("wrong-report", f"objects {dep.args}: exit {p.code}: {p.text[-900:]}")
    for r, row in enumerate(rows):
        if truth[r] is None:
            continue
        if truth[r] != "up":
            if row[2] != "Err":
                k.fail("wrong-report", f"objects says {row!r}, worker {r} is {truth[r]}")
            continue
        if row[2] == "Err":
            k.fail("wrong-report", f"objects says {row!r}, worker {r} is up")
        if not steady:
            continue
        want = [str(x) for x in held(k, dep, r)]
        shown = [x.strip() for x in "|".join(row[3:]).split(",") if x.strip()]
        more = shown and shown[-1] == "..."
        shown = shown[:-1] if more else shown
        if int(row[2]) != len(want) or any(x not in want for x in shown) or len(set(
                shown)) != len(shown) or (not more and len(shown) != len(want)) or (
                more and len(shown) >= len(want)):
            k.fail("wrong-report", f"objects says {row!r}, worker {r} holds {want!r}")
        if want:
            k.probe("objects-listed")


def report(k):
    import warnings

    warnings.simplefilter("ignore")
    procs.begin(k)
    k.net.faults.latency = (0.001, 0.02)[k.work(2)]
    dep = Deployment(k, plain=True)
    w = k.work
    n = dep.n
    away = [r for r in range(n) if w(4) == 0]
    dep.start([r for r in range(n) if r not in away])
    truth = {r: "down" if r in away else "up" for r in range(n)}
    if not away and w(2):
        seed_objects(k, dep)
    for _ in range(1 + w(3)):
        for r in range(n):
            c = w(9)
            h = dep.host(r)
            if truth[r] == "down":
                if c < 4 and dep.up is None:
                    dep.start_worker(r)
                    dep.wait_up([r])
                    truth[r] = "up"
                continue
            if c == 0:
                h.node.proc.signal(signal.SIGKILL)
                k.count_fault("node-crash")
                truth[r] = "down"
            elif c == 1 and truth[r] == "up":
                k.net.extra[h.name] = 6.0 + k.delay(20.0)
                k.count_fault("net-slow")
                truth[r] = "slow"
            elif c == 2 and truth[r] == "slow":
                del k.net.extra[h.name]
                truth[r] = "up"
            elif c == 3 and truth[r] == "up":
                k.net.cut.add(h.name)
                k.count_fault("partition")
                truth[r] = "cut off"
            elif c == 4 and truth[r] == "cut off":
                k.net.cut.discard(h.name)
                truth[r] = "up"
            elif c == 5 and truth[r] == "up":
                k.net.errors[h.name] = (500, 502, 503, 404)[w(4)]
                k.net.error_body = (b"bad gateway", b'{"detail": "busy"}',
                                    b'{"status": "ok", "objects": []}')[w(3)]
                k.count_fault("net-proxy-500")
                truth[r] = "answering errors"
            elif c == 6 and truth[r] == "answering errors":
                del k.net.errors[h.name]
                truth[r] = "up"
            elif c == 7 and truth[r] == "up":
                k.net.extra[h.name] = (0.3, 1.2)[w(2)]      # slow, but in time
        if w(3):
            statuses(k, dep, truth)
        else:
            listing(k, dep, truth)
    stop_all(k, dep)


def seed_objects(k, dep):
    """Leave some values at the workers."""
    with open("job.py", "w") as f:
        f.write(SCRIPT)
    keep = []
    pairs = [(k.work(dep.n), k.work(dep.n)) for _ in range(1 + k.work(4))]

    def job(name, args):
        for i, (a, b) in enumerate(pairs):
            x = D.put(f"P{a}", np.arange(2) + i)
            keep.append(x)
            if a != b:
                keep.append(D.put(f"P{b}", x))

    JOB[0] = job
    p = call(k, ["run", *dep.args, "-f", "job.py"], dep.home)
    if p.code != 0:
        k.fail("command-failed", f"run {dep.args}: {p.text[-1200:]}")
    KEEP.append(keep)


KEEP = []
R.RESETS.append(KEEP.clear)


# ------------------------------------------------------------------------- up
def stop_all(k, dep):
    """Told to stop, the tools end and nothing of them is left."""
    ps = dep.all_procs()
    sig = (signal.SIGTERM, signal.SIGINT)[k.work(2)]
    if sig == signal.SIGINT:        # Ctrl-C reaches the whole foreground group
        for p in ps:
            p.signal(sig)
    else:
        for p in ps:
            if p.parent is None:
                p.signal(sig)
    gone(k, dep, ps)


def gone(k, dep, ps, within=60.0):
    end = k.now + within
    for p in ps:
        if p.parent is None and not p.wait(max(0.0, end - k.now)):
            k.fail("does-not-stop", f"{p.name} still runs {within} s after it was told to stop; "
                   f"its main thread waits on {p.main.waiting_on}; output {p.text[-500:]!r}")
    left = [p.name for p in dep.all_procs() if p.alive]
    if left:
        k.fail("worker-left", f"still running after the tool ended: {left}")
    busy = [a for a, h in k.net.hosts.items() if h.node.alive]
    if busy:
        k.fail("worker-left", f"still listening after the tools ended: {busy}")


def up(k):
    procs.begin(k, (0.0, 0.02, 0.3)[k.work(3)])
    w = k.work
    dep = Deployment(k, local=True, n=1 + w(4))
    asked = []
    if w(3) == 0:       # requests being answered, a machine under load
        k.slow_exit = lambda: k.delay((3.0, 20.0)[k.fault_int(2)]) * k.fault_int(2)
    for rnd in range(1 + w(3)):
        if rnd:
            k.probe("up-again")
        dep.up = p = command(k, f"up{rnd}", ["up", *dep.worker_args])
        ctrl_c = w(2)
        sig = signal.SIGINT if ctrl_c else signal.SIGTERM
        early = w(3) == 0
        if early:
            k.sleep(k.delay((0.001, 0.05, 0.5)[w(3)]))
            if any(dep.host(r) is None for r in range(dep.n)):
                k.probe("stopped-early")
        else:
            dep.wait_up(range(dep.n))
            truth = {r: "up" for r in range(dep.n)}
            statuses(k, dep, truth)
            if w(3) == 0:
                r = w(dep.n)
                dep.host(r).node.proc.signal((signal.SIGKILL, signal.SIGTERM)[w(2)])
                k.count_fault("node-crash")
                k.sleep(5)
                truth[r] = "down"
                statuses(k, dep, truth)
                if not p.alive and dep.n > 1:
                    k.fail("gave-up", f"up ended by itself: {p.text[-500:]}")
            if w(3) == 0:
                asked.append(command(k, f"asking{rnd}", ["status", *dep.args]))
                k.sleep(k.delay(0.005))
        times = 1 + (w(4) == 0)
        for i in range(times):
            if ctrl_c:
                for c in [p, *p.children]:
                    c.signal(sig)
            else:
                p.signal(sig)
            if i + 1 < times:
                k.sleep(k.delay((0.001, 1.0)[w(2)]))
        gone(k, dep, [p], 300.0)
        for a in asked:
            finish(k, a, 60.0, "status")
        asked.clear()


# ---------------------------------------------------------------------- merge
def merge(k):
    procs.begin(k)
    w = k.work
    n = how_many(k, 1 + w(4))
    files = {}
    os.mkdir("traces")
    style = w(6)        # none ranked, a driver's trace besides, all ranked
    for r in range(-1 if style == 1 else 0, n):
        ranked = style > 0 and r >= 0
        for part in range(1 + (w(4) == 0)):
            name = f"traces/trace_{part}_{r}" + (f"_rank_{r}" if ranked else "") + ".json"
            evs = []
            for i in range(w(6)):
                e = {"name": f"op{r}.{part}.{i}", "ph": "XBEi"[w(4)], "ts": 10 * i,
                     "tid": w(3)}
                if w(5):
                    e["pid"] = (r, 4242, 4242 + r, 70_000 + w(3), 0)[w(5)]
                if w(2):
                    e["args"] = {"op": "x", "n": i}
                evs.append(e)
            files[name] = (r if ranked else None, evs)
            doc = json.dumps({"traceEvents": evs} if w(6) or evs else {})
            torn = w(6) == 0 and len(doc) > 3
            if torn:
                doc = doc[:1 + w(len(doc) - 2)]
                k.count_fault("torn-file")
                files[name] = (None, None)
                k.probe("torn-trace")
            with open(name, "w") as f:
                f.write(doc)
    if w(3) == 0:
        with open("traces/notes.txt", "w") as f:
            f.write("no trace")
    out = ("merged_trace.json", "out/all.json")[w(2)]
    argv = ["trace", "merge", "traces/trace_*.json"]
    if out != "merged_trace.json":
        os.mkdir("out")
        argv += ["-o", out]
    p = call(k, argv)
    if p.code != 0:
        k.fail("command-failed", f"{argv}: {p.text[-900:]}")
    with open(out) as f:
        got = json.load(f)["traceEvents"]
    by_name = {}
    for e in got:
        by_name.setdefault(e["name"], []).append(e)
    for name, (r, evs) in files.items():
        if evs is None:
            if name not in p.text.split("Error", 1)[-1] or "Error" not in p.text:
                k.fail("wrong-report", f"unreadable {name} not reported: {p.text[-600:]}")
            continue
        for e in evs:
            have = by_name.pop(e["name"], [])
            if len(have) != 1:
                k.fail("events-lost", f"{argv}: event {e} of {name} is there {len(have)} times")
            g = dict(have[0])
            a, b = dict(g.get("args") or {}), dict(e.get("args") or {})
            if r is not None and a.pop("rank", None) != r and b.get("rank") is None:
                k.fail("wrong-rank", f"event {e} of rank {r} became {have[0]}")
            if {**g, "args": a, "pid": 0} != {**e, "args": b, "pid": 0}:
                k.fail("event-changed", f"event {e} of {name} became {have[0]}")
            if ("pid" in g) != ("pid" in e):
                k.fail("event-changed", f"event {e} of {name} became {have[0]}")
    if by_name:
        k.fail("events-invented", f"{argv}: {sorted(by_name)}")
    if style:
        pids = {}
        for e in got:
            if "pid" in e:
                pids.setdefault(e["pid"], set()).add((e.get("args") or {}).get("rank", -1))
        if any(len(x) > 1 for x in pids.values()):
            k.fail("ranks-mixed", f"processes shared between ranks: {pids}")
        if len({min(x) for x in pids.values()}) > 1:
            k.probe("ranks-merged")


VARIANTS = {n: Variant(f, 0) for n, f in (("jobs", jobs), ("report", report), ("up", up),
                                          ("merge", merge))}
