"""C01: messages between parties are delivered exactly once, unmixed, intact."""

from checks.common import *  # noqa: F403
from checks.common import Variant, go, http_comms, join_all, mem_comms, net_faults
from checks.common import payload, raise_unexpected, same

PLAN = {"mem": (1260, 12000), "mem_compete": (600, 5000), "http": (990, 9000),
        "http_faults": (990, 9000), "overwrite": (480, 3000)}
LEVEL = "exploration"
RULE = ("Random parties, keys (shared, prefix-related, reused after consumption), payload "
        "kinds, sender/receiver threads and network faults.")
REAL = ["ThreadCommunicator/LocalMesh", "HttpCommunicator", "worker HTTP routes (FastAPI)",
        "serde", "httpx client", "threading/queue/concurrent.futures source"]
STUB = ["OS threads and clock (simulated scheduler)", "TCP/uvicorn (simulated network)"]
ASSUMPTIONS = ["keys are reused only after the earlier message was consumed"]
MUST_PROBE = ["recv-before-send", "send-before-recv", "reused-key", "send-failed",
              "delivered-despite-error", "dup-delivered"]

KEYS = ["a", "a:0", "a:1", "ab", "a.0:1", "job-1:2"]
ODD = ["t/1:0", "t", "q?x=1:0", "q", "f#1:0", "f", "p%2F1", "p/1", "s p:0", "\u00fc:1"]


def make_plan(k, n, m):
    """Messages (src, dst, key, value); repeated (src, dst, key) are sequential."""
    plan = {}
    uid = 0
    odd = k.work(4) == 3
    for _ in range(m):
        src = k.work(n)
        dst = (src + 1 + k.work(n - 1)) % n if n > 1 else src
        if k.work(8) == 7:
            dst = src  # a party may message itself
        keys = ODD if odd else KEYS
        key = keys[k.work(len(keys))]
        uid += 1
        plan.setdefault((src, dst, key), []).append(payload(k, uid))
    return plan


def split(k, items, ways):
    """Random order, random assignment of the items to `ways` threads."""
    items = list(items)
    for i in range(len(items) - 1, 0, -1):
        j = k.work(i + 1)
        items[i], items[j] = items[j], items[i]
    out = [[] for _ in range(ways)]
    for it in items:
        out[k.work(ways)].append(it)
    return out


def exchange(k, comms, nodes, plan, faulty, rto):
    """Run the plan; every message is sent and received once by its own thread pair."""
    n = len(comms)
    sent, got = {}, {}
    consumed = {c: threading.Semaphore(0) for c in plan}  # noqa: F405
    posted = {c: 0 for c in plan}
    jobs = []

    def sender(items):
        def f():
            for c in items:
                src, dst, key = c
                for i, v in enumerate(plan[c]):
                    if i:
                        # the next use of a key needs the previous to be consumed
                        consumed[c].acquire()
                        k.probe("reused-key")
                        if (c, i - 1) not in got:
                            break
                    k.ev("op", "send", src, dst, key, i)
                    posted[c] = i + 1
                    mode = k.work(3)
                    try:
                        if mode == 0:
                            comms[src].send_sync(dst, key, v)
                            sent[c, i] = "ok"
                        else:
                            h = comms[src].send(dst, key, v)
                            if mode == 1:
                                h.wait()
                                sent[c, i] = "ok"
                            else:
                                sent[c, i] = h
                    except Exception as e:  # noqa: BLE001
                        sent[c, i] = e
                        if not faulty:
                            k.fail("send-failed-without-fault", f"{c} #{i}: {e!r}")
                        k.probe("send-failed")
        return f

    def receiver(c):
        def f():
            src, dst, key = c
            for i in range(len(plan[c])):
                if posted[c] <= i:
                    k.probe("recv-before-send")
                else:
                    k.probe("send-before-recv")
                try:
                    v = (comms[dst].recv(src, key) if rto is None
                         else comms[dst].recv(src, key, timeout=rto))
                except TimeoutError as e:
                    if not faulty:
                        k.fail("message-lost", f"{c} #{i}: {e!r}")
                    consumed[c].release()
                    return
                k.ev("op", "recv", src, dst, key, i)
                got[c, i] = v
                if posted[c] <= i:
                    k.fail("received-before-sent", f"{c} #{i} -> {v!r}")
                if not same(v, plan[c][i]):
                    k.fail("wrong-message", f"receive {c} #{i} returned {v!r}, "
                           f"sent {plan[c][i]!r}")
                consumed[c].release()
        return f

    for src in range(n):
        mine = [c for c in plan if c[0] == src]
        for j, items in enumerate(split(k, mine, 1 + k.work(3))):
            if items:
                jobs.append(go(k, sender(items), f"snd{src}.{j}", nodes[src]))
    for c in split(k, plan, 1)[0]:
        jobs.append(go(k, receiver(c), f"rcv{c[1]}<{c[0]}:{c[2]}", nodes[c[1]]))
    join_all(k, jobs, 4000.0, "sends and receives")
    raise_unexpected(k, jobs)
    return sent, got


def check_results(k, plan, sent, got, faulty, comms=None):
    for c, vals in plan.items():
        for i in range(len(vals)):
            s = sent.get((c, i))
            if s is None:
                continue
            if hasattr(s, "wait"):
                try:
                    s.wait(timeout=1000.0)
                    s = "ok"
                except Exception as e:  # noqa: BLE001
                    s = e
                    k.probe("send-failed")
            if s == "ok" and (c, i) not in got and comms is not None:
                # acknowledged after the receive gave up: it must still be there
                k.probe("late-message")
                try:
                    got[c, i] = v = comms[c[1]].recv(c[0], c[2], timeout=1.0)
                except TimeoutError:
                    v = None
                if (c, i) in got and not same(v, vals[i]):
                    k.fail("wrong-message", f"late receive {c} #{i}: {v!r}")
            if s == "ok" and (c, i) not in got:
                k.fail("acknowledged-message-lost", f"{c} #{i} was acknowledged, and its "
                       "receive gave up")
            if s != "ok" and (c, i) in got:
                k.probe("delivered-despite-error")
            if not faulty and (s != "ok" or (c, i) not in got):
                k.fail("message-lost", f"{c} #{i}: send={s!r} received={(c, i) in got}")


def mem(k):
    n = how_many(k, 2 + k.work(3))
    stalls(k)
    mesh = mem_comms(k, n, use_serde=bool(k.work(2)))
    plan = make_plan(k, n, 3 + k.work(10))
    sent, got = exchange(k, mesh.comms, [None] * n, plan, False, None)
    check_results(k, plan, sent, got, False)
    # nothing is delivered a second time
    extra = [go(k, lambda c=c: mesh.comms[c[1]].recv(c[0], c[2]), f"again{c}")
             for c in list(plan)[:4]]
    k.sleep(5.0)
    for j in extra:
        if j.finished and j.error is None:
            k.fail("duplicate-delivery", f"{j.task.name} got {j.value!r}")
    mesh.shutdown()
    join_all(k, extra, 10.0, "receives at shutdown")


def mem_compete(k):
    """Several receivers compete for the successive messages under one key."""
    n = 2
    stalls(k)
    mesh = mem_comms(k, n)
    nr = 2 + k.work(3)
    nm = 1 + k.work(nr)
    keys = KEYS[: 1 + k.work(2)]
    got = {q: [] for q in keys}
    sem = {q: threading.Semaphore(0) for q in keys}  # noqa: F405

    def rcv(q):
        v = mesh.comms[1].recv(0, q)
        got[q].append(v)
        sem[q].release()

    rj = [go(k, lambda q=q: rcv(q), f"rcv{q}") for q in keys for _ in range(nr)]

    def snd(q):
        for i in range(nm):
            mesh.comms[0].send(1, q, (q, i)).wait()
            sem[q].acquire()

    sj = [go(k, lambda q=q: snd(q), f"snd{q}") for q in keys]
    join_all(k, sj, 100.0, "messages with waiting receivers")
    raise_unexpected(k, sj)
    k.sleep(1.0)
    for q in keys:
        if got[q] != [(q, i) for i in range(nm)]:
            k.fail("competing-receivers", f"{q}: sent {nm} messages, receivers got {got[q]}")
    mesh.shutdown()
    join_all(k, rj, 10.0, "receivers after shutdown")


def _http(k, faulty):
    import mplang.backends.simp_worker.http as H

    n = how_many(k, 2 + k.work(2))
    modes = [bool(k.work(4)) for _ in range(n)]  # mixed binary / legacy senders
    cfg = lambda r: H.CommConfig(default_recv_timeout=300.0,  # noqa: E731
                                 http_timeout=20.0, use_binary=modes[r])
    nodes = http_comms(k, n, cfg)
    on = net_faults(k, ["slow", "refuse", "lost", "dup", "500"] if faulty else [])
    k.net.faults.slow_cap = None
    if faulty and not on:
        k.net.faults.p_dup = 0.1
        k.net.faults.p_slow = 0.1
    k.net.on_deliver.append(lambda h, m, d: k.probe("dup-delivered") if d else None)
    plan = make_plan(k, n, 3 + k.work(8))
    if k.net.faults.p_dup:
        # a retransmitted request may arrive after its key was reused: the key
        # contract (one message per key) excludes reuse here
        plan = {c: v[:1] for c, v in plan.items()}
    comms = [x.comm for x in nodes]
    sent, got = exchange(k, comms, [x.node for x in nodes], plan, faulty, None)
    check_results(k, plan, sent, got, faulty, comms)
    k.fault_enabled = False
    if not k.net.faults.p_dup:
        for c in list(plan)[:3]:
            if all((c, i) in got for i in range(len(plan[c]))):
                try:
                    v = comms[c[1]].recv(c[0], c[2], timeout=0.5)
                    k.fail("duplicate-delivery", f"{c}: second receive got {v!r}")
                except TimeoutError:
                    pass
    for x in nodes:
        if not x.host.stop():
            k.fail("no-progress", f"{x.host.name} did not shut down")


def http(k):
    _http(k, False)


def http_faults(k):
    _http(k, True)


def overwrite(k):
    """A second message under an unread key is refused, never merged or lost silently."""
    n = how_many(k, 2 + k.work(2))
    http_mode = bool(k.work(2))
    if http_mode:
        nodes = http_comms(k, n)
        comms = [x.comm for x in nodes]
    else:
        stalls(k)
        mesh = mem_comms(k, n)
        comms = mesh.comms
    keys = KEYS[: 1 + k.work(3)]
    plan = {}
    jobs = []
    uid = 0
    acks = {}

    def snd(src, key, v):
        try:
            comms[src].send_sync(0, key, v)
        except Exception:  # noqa: BLE001
            return
        acks.setdefault((src, key), []).append(v)

    for src in range(1, n):
        for key in keys:
            for _ in range(1 + k.work(3)):
                uid += 1
                v = payload(k, uid)
                plan.setdefault((src, key), []).append(v)
                jobs.append(go(k, lambda a=(src, key, v): snd(*a), f"snd{src}{key}"))
    join_all(k, jobs, 500.0, "sends")
    raise_unexpected(k, jobs)
    for c, vals in plan.items():
        a = acks.get(c, [])
        if len(a) != 1:
            k.fail("unread-key-overwritten", f"{len(vals)} concurrent sends under the "
                   f"unread key {c}: {len(a)} were accepted, expected exactly one")
        v = comms[0].recv(c[0], c[1])
        if not same(v, a[0]):
            k.fail("wrong-message", f"{c}: accepted {a[0]!r}, received {v!r}")
        if len(vals) > 1:
            k.probe("contended-key")


VARIANTS = {
    "mem": Variant(mem, 0), "mem_compete": Variant(mem_compete, 0),
    "http": Variant(http, 0), "http_faults": Variant(http_faults, 0),
    "overwrite": Variant(overwrite, 0),
}
