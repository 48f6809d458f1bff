"""C13: a program's result does not depend on how its operations are scheduled."""

import mplang.edsl.typing as elt
from checks.common import Variant, futures, go, how_many, join_all, raise_unexpected, stalls
from mplang.edsl.graph import Graph
from mplang.runtime.interpreter import ExecutionTracer, Interpreter

PLAN = {"dag": (6000, 24000), "failing": (3120, 12480), "shared": (2880, 11520),
        "parties": (2400, 9600)}
LEVEL = "exploration"
RULE = ("Random operation graphs (shared and repeated inputs, several or no outputs, unused "
        "values, nested regions, loops and branches) evaluated with operations in the "
        "background, with pools of every size, several evaluations at once on one interpreter, "
        "operations that fail, tracing on and off; several parties evaluating the same graphs "
        "while background operations exchange messages; compared with a sequential model.")
REAL = ["Interpreter.evaluate_graph (sequential and asynchronous), ExecutionTracer",
        "Graph", "concurrent.futures source", "CommContext, LocalMesh (parties)"]
STUB = ["clock and OS threads (simulated)", "operation kernels (harness arithmetic)"]
ASSUMPTIONS = ["operations that evaluate nested graphs are not themselves run in the "
               "background (as in the shipped set of background operations)",
               "operations that wait for other parties are run in the background, on a pool "
               "with room for all of them"]
MUST_PROBE = ["background", "region", "branch", "loop", "void", "multi", "repeated-input",
              "overlap", "failed", "traced", "at-once", "small-pool", "comm-context", "parties", "exchange"]
P = 1_000_003
T = elt.TensorType(elt.i64, ())


class Planned(Exception):
    pass


class Node:
    """Reference graph: the same structure, evaluated directly."""

    def __init__(self, n_in):
        self.n_in = n_in
        self.ops = []       # (uid, kind, args, n_out, async, duration, regions)
        self.outs = []
        self.n_val = n_in

    def eval(self, ins, log, path=()):
        vals = list(ins)
        for uid, kind, args, n_out, _bg, _d, regs in self.ops:
            a = [vals[i] for i in args]
            log[path + (uid,)] = tuple(a)
            if kind == "op":
                r = [val(uid, j, a) for j in range(n_out)]
            elif kind == "region":
                r = regs[0].eval(a, log, path + (uid, 0))
            elif kind == "branch":
                w = a[0] % 2
                r = regs[w].eval(a[1:], log, path + (uid, w))
            else:
                r = a
                for i in range(1 + a[0] % 3):
                    r = regs[0].eval(r, log, path + (uid, i))
            vals += r
        return [vals[i] for i in self.outs]


def val(uid, j, a):
    acc = uid * 7919 + j * 104729 + 17
    for i, x in enumerate(a):
        acc = (acc * 31 + x * (uid + 3 * i + j + 1)) % P
    return acc


class Gen:
    def __init__(self, k):
        self.k = k
        self.uid = 0
        self.bg = (0, 2, 4)[k.work(3)]

    def node(self, n_in, size, depth):
        k = self.k
        g = Node(n_in)
        for _ in range(size):
            self.uid += 1
            uid = self.uid
            kind = "op"
            if depth and g.n_val and k.work(5) == 0:
                kind = ("region", "branch", "loop")[k.work(3)]
            n_arg = k.work(4) if g.n_val else 0
            if kind != "op":
                n_arg = 1 + k.work(3)
            args = [k.work(g.n_val) if k.work(3) else max(0, g.n_val - 1 - k.work(3))
                    for _ in range(n_arg)]
            if len(args) != len(set(args)):
                k.probe("repeated-input")
            n_out = (1, 1, 1, 2, 3, 0)[k.work(6)]
            regs = []
            if kind == "region":
                regs = [self.node(n_arg, 1 + k.work(4), depth - 1)]
                n_out = len(regs[0].outs)
            elif kind == "branch":
                n_out = 1 + k.work(2)
                regs = [self.node(n_arg - 1, 1 + k.work(3), depth - 1) for _ in range(2)]
                for r in regs:
                    r.outs = [k.work(r.n_val) if r.n_val else None for _ in range(n_out)]
                if any(None in r.outs for r in regs):
                    kind, regs, n_out = "op", [], 1
            elif kind == "loop":
                regs = [self.node(n_arg, 1 + k.work(3), depth - 1)]
                n_out = n_arg
                regs[0].outs = [k.work(regs[0].n_val) for _ in range(n_arg)]
            k.probe({"op": "multi" if n_out > 1 else "void" if n_out == 0 else "plain"
                     }.get(kind, kind))
            bg = kind == "op" and k.work(4) < self.bg
            dur = (0.0, 0.0, 0.001, 0.05)[k.work(4)]
            g.ops.append((uid, kind, args, n_out, bg, dur, regs))
            g.n_val += n_out
        g.outs = [k.work(g.n_val) for _ in range(k.work(4) + (1 if depth else 0))] \
            if g.n_val else []
        if not g.outs and g.n_val and n_in:
            g.outs = [k.work(g.n_val)]
        return g


def build(node, uids=None):
    g = Graph()
    vals = [g.add_input(f"in{i}", T) for i in range(node.n_in)]
    for uid, kind, args, n_out, bg, _d, regs in node.ops:
        outs = g.add_op(f"vt13.{'bg' if bg else kind}", [vals[i] for i in args],
                        output_types=[T] * n_out, attrs={"uid": uid},
                        regions=[build(r) for r in regs])
        vals += list(outs)
    for i in node.outs:
        g.add_output(vals[i])
    return g


def walk(node):
    for o in node.ops:
        yield o
        for r in o[6]:
            yield from walk(r)


class Run:
    """Handlers that record every execution of one evaluation."""

    def __init__(self, k):
        self.k = k
        self.info = {}          # uid -> (n_out, duration)
        self.boom = {}          # (eval, uid) -> True
        self.by = {}            # eval tag -> [(uid, args)]
        self.active = 0
        self.ended = set()

    def add(self, node):
        for o in walk(node):
            self.info[o[0]] = (o[3], o[5])

    def handlers(self):
        k = self.k

        def op(interp, op, *args):
            uid = op.attrs["uid"]
            n_out, dur = self.info[uid]
            self.note(uid, args)
            self.active += 1
            if self.active > 1:
                k.probe("overlap")
            try:
                k.yield_("op")
                if dur:
                    k.sleep(k.delay(dur))
                if self.boom.get(uid):
                    k.probe("failed")
                    raise Planned(f"operation {uid}")
            finally:
                self.active -= 1
            r = [val(uid, j, [int(a) for a in args]) for j in range(n_out)]
            return r[0] if n_out == 1 else r if k.work(2) else tuple(r)

        def bg(interp, op_, *args):
            k.probe("background")
            return op(interp, op_, *args)

        def out(op, r):
            return r[0] if len(op.outputs) == 1 else r

        def region(interp, op, *args):
            self.note(op.attrs["uid"], args)
            return out(op, interp.evaluate_graph(op.regions[0], list(args)))

        def branch(interp, op, *args):
            self.note(op.attrs["uid"], args)
            return out(op, interp.evaluate_graph(op.regions[int(args[0]) % 2],
                                                 list(args[1:])))

        def loop(interp, op, *args):
            self.note(op.attrs["uid"], args)
            r = list(args)
            for _ in range(1 + int(args[0]) % 3):
                r = interp.evaluate_graph(op.regions[0], r)
            return out(op, r)

        return {"vt13.op": op, "vt13.bg": bg, "vt13.region": region, "vt13.branch": branch,
                "vt13.loop": loop}

    def note(self, uid, args):
        for a in args:
            if a is None:
                self.k.fail("ran-without-input", f"operation {uid} got {args}")
        self.k.ev("op", uid)
        key = (uid, tuple(int(a) for a in args))
        self.by[key] = self.by.get(key, 0) + 1

    def check(self, want, times=1):
        """Each operation ran exactly once per planned evaluation, on its inputs."""
        if self.by == want:
            return
        for key in set(self.by) | set(want):
            if self.by.get(key, 0) != want.get(key, 0):
                self.k.fail("not-exactly-once", f"operation {key[0]} on {key[1]} ran "
                            f"{self.by.get(key, 0)} times, expected {want.get(key, 0)}")


def count(log, into):
    for path, args in log.items():
        key = (path[-1], tuple(args))
        into[key] = into.get(key, 0) + 1


def interp(k, run, pools):
    ex = None
    if k.work(6):
        n = (1, 2, 3, 8)[k.work(4)]
        if n == 1:
            k.probe("small-pool")
        ex = futures.ThreadPoolExecutor(max_workers=n)
        pools.append(ex)
    tr = None
    if k.work(3) == 0:
        tr = ExecutionTracer(enabled=bool(k.work(4)), trace_dir="trace")
        tr.start()
        k.probe("traced")
    ctx = None
    if k.work(2):
        from mplang.backends.simp_worker.comm_context import CommContext
        from mplang.backends.simp_worker.mem import LocalMesh

        ctx = CommContext(LocalMesh(1).comms[0], "job", 0)
        k.probe("comm-context")
    i = Interpreter(executor=ex, tracer=tr, handlers=run.handlers(), comm_ctx=ctx,
                    root_dir="root")
    i.async_ops = {"vt13.bg"}
    return i


def same(k, got, want, what):
    if len(got) != len(want) or any(int(a) != b for a, b in zip(got, want)):
        k.fail("wrong-result", f"{what}: {got}, expected {want}")


def dag(k):
    run = Run(k)
    node = Gen(k).node(k.work(4), 1 + k.work(12), 2)
    run.add(node)
    g = build(node)
    pools = []
    it = interp(k, run, pools)
    stalls(k)
    times = 1 + k.work(3)
    want = {}

    def client():
        for t in range(times):
            ins = [k.work(50) + t for _ in range(node.n_in)]
            log = {}
            exp = node.eval(ins, log)
            count(log, want)
            same(k, it.evaluate_graph(g, ins, *((f"job{t}",) if k.work(2) else ())), exp,
                 f"evaluation {t}")
        it.shutdown()

    j = go(k, client, "client")
    join_all(k, [j], 600.0, "evaluation")
    raise_unexpected(k, [j])
    run.check(want)


def failing(k):
    """Some operation fails: the caller gets that error; later evaluations are unaffected."""
    run = Run(k)
    node = Gen(k).node(k.work(4), 2 + k.work(9), 1)
    run.add(node)
    g = build(node)
    pools = []
    it = interp(k, run, pools)
    stalls(k)
    ins = [k.work(50) for _ in range(node.n_in)]
    log = {}
    exp = node.eval(ins, log)
    uids = [o[0] for o in walk(node) if o[1] == "op"]
    bad = {uids[k.work(len(uids))] for _ in range(1 + k.work(2))} if uids else set()
    reached = {p[-1] for p in log} & bad

    def client():
        for u in bad:
            run.boom[u] = True
        try:
            got = it.evaluate_graph(g, ins)
        except Planned as e:
            if not any(str(e) == f"operation {u}" for u in reached):
                k.fail("wrong-error", str(e))
        else:
            if reached:
                k.fail("failure-swallowed", f"operations {sorted(reached)} fail, the "
                       f"evaluation returned {got}")
            same(k, got, exp, "no failing operation reached")
        k.sleep(5.0)
        # nothing that depends on a failed operation ran, nothing ran twice
        lim = {}
        count(log, lim)
        for key, n in run.by.items():
            if n > lim.get(key, 0):
                k.fail("ran-without-input", f"operation {key[0]} on {key[1]} ran {n} times, "
                       f"possible {lim.get(key, 0)}")
        run.boom.clear()
        run.by.clear()
        same(k, it.evaluate_graph(g, ins), exp, "after a failure")
        run.check(lim)
        it.shutdown()

    j = go(k, client, "client")
    join_all(k, [j], 600.0, "evaluation")
    raise_unexpected(k, [j])


def shared(k):
    """Several threads evaluate graphs on one interpreter at once."""
    run = Run(k)
    gen = Gen(k)
    nodes = [gen.node(k.work(3), 1 + k.work(7), 1) for _ in range(1 + k.work(2))]
    for n in nodes:
        run.add(n)
    graphs = [build(n) for n in nodes]
    pools = []
    it = interp(k, run, pools)
    stalls(k)
    want = {}

    def client(c):
        for t in range(1 + k.work(3)):
            w = k.work(len(nodes))
            ins = [k.work(50) + 100 * c for _ in range(nodes[w].n_in)]
            log = {}
            exp = nodes[w].eval(ins, log)
            count(log, want)
            same(k, it.evaluate_graph(graphs[w], ins, f"job{c}"), exp,
                 f"thread {c}, evaluation {t}")

    js = [go(k, lambda c=c: client(c), f"client{c}") for c in range(2 + k.work(3))]
    k.probe("at-once")
    join_all(k, js, 600.0, "evaluations")
    raise_unexpected(k, js)
    run.check(want)
    it.shutdown()


def joint(node, parties, log):
    """What every party gets when all evaluate one graph with exchanges in it."""
    vals = [list(v) for v in parties]
    n = len(parties)
    for o in node.ops:
        uid, kind, args, n_out, _bg, _d, regs = o
        if kind != "xchg":
            one = Node(len(args))
            one.ops = [(uid, kind, range(len(args)), n_out, 0, 0, regs)]
            one.outs = range(len(args), len(args) + n_out)
            for p in range(n):
                vals[p] += one.eval([vals[p][i] for i in args], log[p])
            continue
        mine = [val(uid, 0, [vals[p][i] for i in args]) for p in range(n)]
        for p in range(n):
            log[p][uid,] = tuple(vals[p][i] for i in args)
            vals[p].append(meet(mine, p, regs))
    return [[v[i] for i in node.outs] for v in vals]


def meet(mine, p, hops):
    """Party p's result of an exchange over the given distances."""
    acc = mine[p]
    for h in hops:
        acc = (acc * 7 + mine[(p - h) % len(mine)]) % P
    return acc


def parties(k):
    """Several parties evaluate the same graphs; background operations exchange messages."""
    from mplang.backends.simp_worker.comm_context import CommContext
    from mplang.backends.simp_worker.mem import LocalMesh

    n = how_many(k, 2 + k.work(3))
    gen = Gen(k)
    jobs = []
    for j in range(1 + k.work(2)):
        graphs = []
        for _ in range(1 + k.work(2)):
            node = gen.node(k.work(4), 1 + k.work(7), 1)
            for i, o in enumerate(node.ops):
                if o[1] == "op" and o[3] == 1 and k.work(2):
                    hops = [1 + k.work(n - 1) for _ in range(1 + k.work(2))]
                    node.ops[i] = (o[0], "xchg", *o[2:6], hops)
            graphs.append(node)
        turns = [(k.work(len(graphs)), k.work(50)) for _ in range(1 + k.work(3))]
        jobs.append((f"job{j}", graphs, turns))
    size = 4 + sum(o[1] == "xchg" for _, gs, _ in jobs for g in gs for o in g.ops)
    mesh = LocalMesh(n, use_serde=bool(k.work(2)))
    stalls(k)
    runs, clients, done = [], [], []

    def client(p, name, graphs, turns, it, run):
        built = [exchange(build(local(g)), g) for g in graphs]
        want = {}
        for t, (w, x) in enumerate(turns):
            ins = [[x + 10 * i + q for i in range(graphs[w].n_in)] for q in range(n)]
            log = [{} for _ in range(n)]
            exp = joint(graphs[w], ins, log)
            count(log[p], want)
            same(k, it.evaluate_graph(built[w], ins[p]), exp[p],
                 f"party {p}, {name}, evaluation {t}")
            k.probe("parties")
        run.check(want)
        done.append(p)

    def local(node):
        out = Node(node.n_in)
        out.ops = [(*o[:4], o[1] == "xchg" or o[4], o[5], [] if o[1] == "xchg" else o[6])
                   for o in node.ops]
        out.outs = node.outs
        return out

    def exchange(g, node):
        for op, o in zip(g.operations, node.ops, strict=True):
            if o[1] == "xchg":
                op.opcode = "vt13.xchg"
        return g

    for p in range(n):
        pool = futures.ThreadPoolExecutor(max_workers=size)
        for name, graphs, turns in jobs:
            run = Run(k)
            hops = {}
            for g in graphs:
                run.add(local(g))
                hops.update({o[0]: o[6] for o in g.ops if o[1] == "xchg"})

            def xchg(interp, op, *args, run=run, hops=hops, p=p):
                uid = op.attrs["uid"]
                run.note(uid, args)
                ctx = interp.current_comm_ctx()
                dur = run.info[uid][1]
                if dur:
                    k.sleep(k.delay(dur))
                v = val(uid, 0, [int(a) for a in args])
                acc = v
                for h in hops[uid]:
                    for src in range(n):        # one common order of the exchanges
                        if src == p:
                            ctx.send((p + h) % n, v)
                        elif (src + h) % n == p:
                            acc = (acc * 7 + ctx.recv(src)) % P
                k.probe("exchange")
                return acc

            it = Interpreter(executor=pool, handlers={**run.handlers(), "vt13.xchg": xchg},
                             comm_ctx=CommContext(mesh.comms[p], name, p), root_dir="root",
                             owns_executor=False)
            it.async_ops = {"vt13.bg", "vt13.xchg"}
            clients.append(go(k, lambda a=(p, name, graphs, turns, it, run): client(*a),
                              f"{name}p{p}"))
    join_all(k, clients, 600.0, "evaluations")
    raise_unexpected(k, clients)


VARIANTS = {"dag": Variant(dag, 0), "failing": Variant(failing, 0),
            "shared": Variant(shared, 0), "parties": Variant(parties, 0)}
