"""C06: conversations on one set of connections never see each other's messages."""

from checks.common import Variant, go, http_comms, join_all, mem_comms, net_faults, how_many
from checks.common import payload, raise_unexpected, same
from checks.common import stalls

PLAN = {"mem": (3000, 14000), "http": (1500, 7000), "long": (240, 2400)}
LEVEL = "exploration"
RULE = ("Several conversations (look-alike names, nested children with and without "
        "suffixes) used at once by several threads per party; every pair of parties "
        "follows one order, different peers are interleaved freely.")
REAL = ["CommContext", "ThreadCommunicator", "HttpCommunicator and routes", "serde"]
STUB = ["clock and OS threads (simulated)", "TCP/uvicorn (simulated network)"]
ASSUMPTIONS = ["both ends of a pair issue the same sequence of exchanges in a conversation"]
MUST_PROBE = ["child", "grandchild", "same-suffix", "send-sync", "raw", "received", "outstanding",
              "children", "one conversation"]

NAMES = [["job1", "job10", "job11"], ["a", "a:0", "a-0"], ["j", "J", "j "],
         ["x/1", "x", "x#1"], ["y/1", "y-1", "y_1", "y:1", "y 1"],
         ["long" * 40 + "a", "long" * 40 + "b", "a" + "long" * 40, "b" + "long" * 40],
         ["e\u0301", "\u00e9", "E\u0301"], ["t", "t\t", " t", "t/"],
         ["7", "07", "7.0a", "7:0:"]]


def gen(k, n, cid, names):
    """One conversation: a tree of contexts and, per pair and context, exchanges."""
    tree = [(None, None)]  # (parent, suffix)
    for _ in range(k.work(4)):
        p = k.work(len(tree))
        tree.append((p, ("s", None, "s", "0", f"s{cid}")[k.work(5)]))
        k.probe("child" if p == 0 else "grandchild")
    sufs = [(p, s) for p, s in tree[1:] if s is not None]
    if len(sufs) != len(set(sufs)):
        k.probe("same-suffix")
    ex = []
    for i in range(1 + k.work(10)):
        a = k.work(n)
        b = (a + 1 + k.work(n - 1)) % n
        v = payload(k, cid * 1000 + i + 1)
        raw = False
        if k.work(5) == 4:
            v, raw = b"raw %d.%d" % (cid, i), True
            k.probe("raw")
        ex.append((i, k.work(len(tree)), a, b, v, raw, k.work(3) == 0))
    return tree, ex


def _party(k, r, n, root, tree, ex, order, tag):
    """Run rank r's part, peers interleaved by `order`."""
    ctx = [root]
    for p, s in tree[1:]:
        ctx.append(ctx[p].spawn(s) if s is not None else ctx[p].spawn())
    mine = [e for e in ex if r in (e[2], e[3])]
    queues = {}
    for e in mine:
        peer = e[3] if e[2] == r else e[2]
        queues.setdefault(peer, []).append(e)
    seq = []
    o = list(order)
    while queues:
        ps = sorted(queues)
        p = ps[o.pop() % len(ps)] if o else ps[0]
        seq.append(queues[p].pop(0))
        if not queues[p]:
            del queues[p]
    pending = []
    for i, c, a, b, v, raw, sync in seq:
        if r == a:
            if sync:
                k.probe("send-sync")
                ctx[c].send_sync(b, v, is_raw_bytes=raw)
            else:
                pending.append(ctx[c].send(b, v, is_raw_bytes=raw))
        else:
            got = ctx[c].recv(a)
            if not same(got, v):
                k.fail("wrong-message", f"{tag} exchange {i} ({a}->{b}, context {c} of "
                       f"{tree}): got {got!r}, expected {v!r}")
            k.probe("received")
    for h in pending:
        h.wait(timeout=500.0)


def _run(k, http):
    n = how_many(k, 2 + k.work(3))
    if http:
        stalls(k)
        nodes = http_comms(k, n)
        net_faults(k, ["slow"], 0.05)
        k.net.faults.slow_scale = 10.0
        comms, where = [x.comm for x in nodes], [x.node for x in nodes]
    else:
        stalls(k)
        comms, where = mem_comms(k, n, use_serde=bool(k.work(2))).comms, [None] * n
    from mplang.backends.simp_worker.comm_context import CommContext

    names = list(NAMES[k.work(len(NAMES))])
    for i in range(len(names)):
        j = i + k.work(len(names) - i)
        names[i], names[j] = names[j], names[i]
    jobs = []
    for c in range(1 + k.work(3)):
        tree, ex = gen(k, n, c + 1, names)
        # a receive may only wait for exchanges that come earlier in the common order:
        # interleaving peers freely could otherwise wait in a circle
        free = not any(e[6] for e in ex) and k.work(2)
        for r in range(n):
            # a party that only sends in some stretch may reorder across peers
            order = [k.work(n) for _ in range(12)] if free and _acyclic(ex, r) else None
            root = CommContext(comms[r], names[c], r)
            jobs.append(go(k, lambda a=(k, r, n, root, tree, ex, order or _global(ex, r),
                                        names[c]): _party(*a), f"c{c}r{r}", where[r]))
    join_all(k, jobs, 5000.0, "conversations")
    raise_unexpected(k, jobs)


def _acyclic(ex, r):
    """Rank r only sends: it may order its peers as it likes."""
    return all(e[2] == r or r not in (e[2], e[3]) for e in ex)


def _global(ex, r):
    """Choices that reproduce the common order of exchanges for rank r."""
    mine = [e for e in ex if r in (e[2], e[3])]
    queues = {}
    for e in mine:
        queues.setdefault(e[3] if e[2] == r else e[2], []).append(e)
    out = []
    for e in mine:
        p = e[3] if e[2] == r else e[2]
        ps = sorted(queues)
        out.append(ps.index(p))
        queues[p].pop(0)
        if not queues[p]:
            del queues[p]
    return out[::-1]


def long(k):
    """Hundreds of messages outstanding between two parties, in one conversation and in
    many children of it."""
    from mplang.backends.simp_worker.comm_context import CommContext

    n = 2 + k.work(2)
    http = k.work(8) == 0
    comms = [x.comm for x in http_comms(k, n)] if http else mem_comms(k, n).comms
    count = (260, 300, 520, 1030)[k.work(1 if http else 4)]
    name = "long" if k.work(2) else "long:1"
    kids = k.work(3) == 0
    back = k.work(n)
    k.probe("children" if kids else "one conversation")

    def contexts(r):
        root = CommContext(comms[r], name, r)
        if not kids:
            return [root] * count
        return [root.spawn(None if i % 3 else f"{i}") for i in range(count)]

    def party(r):
        ctx = contexts(r)
        if r == 0:
            for i in range(count):
                ctx[i].send(n - 1, i)
            if back:
                got = ctx[-1].recv(n - 1)
                if got != "back":
                    k.fail("wrong-message", f"answer after {count} messages: {got!r}")
        elif r == n - 1:
            k.sleep((0.0, 5.0)[k.work(2)])
            for i in range(count):
                got = ctx[i].recv(0)
                if got != i:
                    k.fail("wrong-message", f"message {i} of {count} outstanding: {got!r}")
            if back:
                ctx[-1].send(0, "back")
            k.probe("outstanding")

    jobs = [go(k, lambda r=r: party(r), f"r{r}") for r in range(n)]
    join_all(k, jobs, 5000.0, "conversation")
    raise_unexpected(k, jobs)


VARIANTS = {"long": Variant(long, 0), "mem": Variant(lambda k: _run(k, False), 0),
            "http": Variant(lambda k: _run(k, True), 0)}
