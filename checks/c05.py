"""C05: collectives return the mathematical result to every participant."""

from checks.common import Variant, go, http_comms, join_all, mem_comms, net_faults, how_many
from checks.common import payload, raise_unexpected, same
from checks.common import stalls

PLAN = {"mem": (3150, 20000), "threads": (1125, 7000), "http": (990, 6000)}
LEVEL = "exploration"
RULE = ("Random SPMD sequences of collectives and point-to-point exchanges over random "
        "subgroups (any listing order, duplicates), in one or several conversations.")
REAL = ["collectives and collective algorithms", "CommContext", "ThreadCommunicator",
        "HttpCommunicator and routes", "serde"]
STUB = ["clock and OS threads (simulated)", "TCP/uvicorn (simulated network)"]
ASSUMPTIONS = ["all participants issue the same sequence (SPMD)"]
MUST_PROBE = ["barrier", "allgather", "broadcast", "and", "or", "xor", "uniform-ok",
              "uniform-bad", "subgroup", "non-member-refused", "p2p"]


class Rank:
    """What a collective needs to know about its worker."""

    def __init__(self, rank, n, comm, current):
        self.rank = rank
        self.world_size = n
        self.communicator = comm
        self.current_parties = current


def gen(k, n, m):
    """A sequence of collective steps, identical on every rank."""
    seq = []
    for s in range(m):
        kind = ("barrier", "allgather", "broadcast", "and", "or", "xor", "uniform",
                "p2p", "spawn")[k.work(9)]
        members = [r for r in range(n) if k.work(3)] or [k.work(n)]
        if k.work(3) == 0:
            members = list(range(n))
        listing = list(members)
        for i in range(len(listing) - 1, 0, -1):
            j = k.work(i + 1)
            listing[i], listing[j] = listing[j], listing[i]
        if k.work(4) == 0:
            listing.append(listing[0])
        how = k.work(3)  # explicit argument, dynamic scope, or operation attribute
        if kind in ("allgather", "broadcast"):
            vals = [payload(k, 1000 * s + r + 1) for r in range(n)]
        else:
            vals = [bool(k.work(2)) for _ in range(n)]
            if kind == "uniform" and k.work(2):
                vals = [vals[0]] * n
        root = members[k.work(len(members))]
        pair = None
        if kind == "p2p" and n > 1:
            a = k.work(n)
            pair = (a, (a + 1 + k.work(n - 1)) % n)
        seq.append((kind, tuple(sorted(members)), tuple(listing), how, vals, root, pair))
    return seq


class Op:
    def __init__(self, parties):
        self.attrs = {"parties": parties} if parties is not None else {}


def run_rank(k, r, n, comm, ctx, seq, log, tag=""):
    from mplang.backends.simp_worker import collectives as C

    full = tuple(range(n))
    for i, (kind, members, listing, how, vals, root, pair) in enumerate(seq):
        w = Rank(r, n, comm, None)
        kw = {}
        if how == 0:
            kw["participants"] = list(listing)
        elif how == 1:
            w.current_parties = listing
        elif members != full or k is None:
            kw["op"] = Op(list(listing))
        else:
            pass  # everyone, by default
        v = vals[r]
        if kind == "spawn":
            ctx = ctx.spawn("s%d" % i) if i % 2 else ctx.spawn()
            continue
        if kind == "p2p":
            if pair is None:
                continue
            if r == pair[0]:
                ctx.send(pair[1], ("p2p", tag, i))
            elif r == pair[1]:
                got = ctx.recv(pair[0])
                k.probe("p2p")
                if not same(got, ("p2p", tag, i)):
                    k.fail("wrong-message", f"step {i}: {got!r}")
            continue
        if r not in members:
            if how == 0 and i % 3 == 0:
                try:
                    C.allgather_obj(ctx, w, v, **kw)
                    k.fail("non-member-accepted", f"step {i}: rank {r} not in {members}")
                except ValueError:
                    k.probe("non-member-refused")
            continue
        if len(members) < n:
            k.probe("subgroup")
        k.ev("op", "enter", tag, i, r)
        log.setdefault((tag, i), {})[r] = k.nlog
        got = want = None
        part = [vals[m] for m in members]
        if kind == "barrier":
            C.barrier(ctx, w, **kw)
        elif kind == "allgather":
            got, want = C.allgather_obj(ctx, w, v, **kw), part
        elif kind == "broadcast":
            got = C.broadcast(ctx, w, v if r == root else None, root=root, **kw)
            want = vals[root]
        elif kind == "and":
            got, want = C.allreduce_bool_and(ctx, w, v, **kw), all(part)
        elif kind == "or":
            got, want = C.allreduce_bool_or(ctx, w, v, **kw), any(part)
        elif kind == "xor":
            got, want = C.allreduce_bool_xor(ctx, w, v, **kw), sum(part) % 2 == 1
        elif kind == "uniform":
            uni = all(part) or not any(part)
            try:
                got = C.verify_uniform_predicate(ctx, w, v, **kw)
                if not uni:
                    k.fail("non-uniform-accepted", f"step {i} values {part}: rank {r} "
                           f"went on with {got!r}")
                want = v
                k.probe("uniform-ok")
            except RuntimeError as e:
                if uni or "uniform" not in str(e):
                    k.fail("collective-failed", f"step {i} {kind} {members} {part}: {e!r}")
                k.probe("uniform-bad")
        k.probe(kind)
        if not same(got, want):
            k.fail("collective-wrong-result", f"step {i} {kind} over {members} (listed "
                   f"{listing}) root {root}: rank {r} got {got!r}, expected {want!r}")
        ent = log[tag, i]
        if kind in ("barrier", "allgather", "and", "or", "xor", "uniform"):
            miss = [m for m in members if m not in ent]
            if miss:
                k.fail("barrier-passed-early", f"step {i} {kind}: rank {r} left before "
                       f"{miss} entered")


def _world(k, http):
    n = 2 + k.work(4)
    if http:
        n = min(n, 4)
    n = how_many(k, n)
    if http:
        stalls(k)
        nodes = http_comms(k, n)
        net_faults(k, ["slow"], 0.05)
        k.net.faults.slow_scale = 10.0
        return n, [x.comm for x in nodes], [x.node for x in nodes]
    stalls(k)
    mesh = mem_comms(k, n, use_serde=bool(k.work(2)))
    return n, mesh.comms, [None] * n


def _run(k, http, threads):
    from mplang.backends.simp_worker.comm_context import CommContext

    n, comms, nodes = _world(k, http)
    conv = 1 if threads == 1 else 2 + k.work(threads - 1)
    log = {}
    jobs = []
    style = k.work(2)
    parents = [CommContext(comms[r], "job", r) for r in range(n)]
    for c in range(conv):
        seq = gen(k, n, 1 + k.work(8))
        for r in range(n):
            if conv == 1:
                ctx = parents[r]
            elif style:
                ctx = parents[r].spawn()
            else:
                ctx = CommContext(comms[r], f"job{c}", r)
            jobs.append(go(k, lambda a=(k, r, n, comms[r], ctx, seq, log, c): run_rank(*a),
                           f"c{c}r{r}", nodes[r]))
    join_all(k, jobs, 3000.0, "collectives")
    raise_unexpected(k, jobs)


VARIANTS = {
    "mem": Variant(lambda k: _run(k, False, 1), 0),
    "threads": Variant(lambda k: _run(k, False, 3), 0),
    "http": Variant(lambda k: _run(k, True, 2), 0),
}
