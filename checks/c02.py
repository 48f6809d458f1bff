"""C02: receive and send timeouts fire when, and only when, they should."""

from checks.common import Variant, go, http_comms, join_all, payload, raise_unexpected, same

PLAN = {"recv": (3150, 20000), "send": (1800, 10000)}
LEVEL = "exploration"
RULE = ("Receives with explicit/default/no timeout racing messages sent before, around and "
        "after the deadline under wall-clock jumps; synchronous sends over links whose "
        "latency is below or above the timeout, partitions.")
REAL = ["HttpCommunicator", "worker HTTP routes (FastAPI)", "serde", "httpx client",
        "threading.Condition source"]
STUB = ["clock and OS threads (simulated)", "TCP/uvicorn (simulated network)"]
ASSUMPTIONS = ["scheduling costs no more than 0.25 simulated seconds per operation"]
MUST_PROBE = ["timed-out", "in-time", "late-then-received", "send-timeout", "send-in-time",
              "clock-jump", "waited-forever"]
SLACK = 0.25
POLL = 1.25  # a waiting receive may look at its mailbox only once a second


def recv(k):
    import mplang.backends.simp_worker.http as H

    n = 2 + k.work(2)
    default = (None, 0.7, 2.0, 600.0)[k.work(4)]
    k.net.faults.latency = 0.0005
    nodes = http_comms(k, n, H.CommConfig(default_recv_timeout=default, http_timeout=None))
    jobs = []
    ops = []
    nto = [0]

    def one(i, dst, src, T, start, send_at, v):
        key = f"k{i}"
        eff = T if T is not None else default
        st = {"posted": None, "acked": None}

        def sender():
            if send_at is None:
                return
            k.sleep(send_at)
            st["posted"] = k.now
            nodes[src].comm.send_sync(dst, key, v)
            st["acked"] = k.now

        def receiver():
            k.sleep(start)
            t0 = k.now
            k.ev("op", "recv", i)
            try:
                r = (nodes[dst].comm.recv(src, key) if T is None and k.work(2)
                     else nodes[dst].comm.recv(src, key, timeout=T))
            except TimeoutError as e:
                t1 = k.now
                nto[0] += 1
                k.probe("timed-out")
                if eff is None:
                    k.fail("timeout-without-limit", f"recv #{i} without any timeout "
                           f"raised {e!r} after {t1 - t0:.3f}s")
                if t1 - t0 < eff - 1e-4:
                    k.fail("timeout-too-early", f"recv #{i} timeout={eff} raised after "
                           f"{t1 - t0:.4f}s")
                if t1 - t0 > eff + SLACK:
                    k.fail("timeout-too-late", f"recv #{i} timeout={eff} raised after "
                           f"{t1 - t0:.4f}s")
                if st["acked"] is not None and st["acked"] < t0 + eff - SLACK:
                    k.fail("timeout-despite-message", f"recv #{i}: message was there at "
                           f"{st['acked']:.4f}, deadline {t0 + eff:.4f}")
                info = (getattr(e, "frm", src), getattr(e, "key", key),
                        getattr(e, "timeout", eff))
                if info != (src, key, eff):
                    k.fail("timeout-wrong-details", f"recv #{i} reported {info}")
                return "timeout"
            t1 = k.now
            if eff is None:
                k.probe("waited-forever")
            k.probe("in-time")
            if not same(r, v):
                k.fail("wrong-message", f"recv #{i} got {r!r}")
            ready = max(t0, st["acked"] if st["acked"] is not None else t1)
            if t1 > ready + POLL:
                k.fail("receive-too-slow", f"recv #{i} returned {t1 - ready:.3f}s after "
                       "the message was available")
            if eff is not None and t1 > t0 + max(eff, 0) + SLACK and (
                    st["posted"] is None or st["posted"] > t0 + eff):
                k.fail("timeout-ignored", f"recv #{i} waited {t1 - t0:.3f}s, limit {eff}")
            return "ok"

        sj = go(k, sender, f"snd{i}", nodes[src].node)
        rj = go(k, receiver, f"rcv{i}", nodes[dst].node)
        jobs.extend([sj, rj])
        ops.append((i, dst, src, key, st, rj, v, send_at))

    for i in range(1 + k.work(5)):
        dst = k.work(n)
        src = (dst + 1 + k.work(n - 1)) % n
        T = (0.0, 0.05, 0.5, 1.0, 1.5, 3.0, 30.0, 400.0, None)[k.work(9)]
        eff = T if T is not None else default
        start = (0.0, 0.3, 2.0)[k.work(3)]
        c = k.work(6)
        base = eff if eff is not None else (5.0, 900.0)[k.work(2)]
        f = (0.0, 0.5, 0.9, 1.05, 1.6, None)[c]
        send_at = None if f is None else start * k.work(2) + base * f
        if send_at is None and eff is None:
            send_at = 50.0  # otherwise it rightly waits for ever
        one(i, dst, src, T, start, send_at, payload(k, i + 1))

    jump = [True]

    def jumper():
        while jump[0]:
            k.sleep(0.2 + k.delay(2.0))
            if k.chance(0.5, "wall-clock-jump"):
                k.wall_offset += (-3e6, -30.0, 40.0, 7e6)[k.fault_int(4)]
                k.probe("clock-jump")

    jj = go(k, jumper, "jumper") if k.work(2) else None
    join_all(k, jobs, 3000.0, "receives with timeouts")
    jump[0] = False
    raise_unexpected(k, jobs + ([jj] if jj else []))
    # a message that came too late is not lost and not corrupted
    for i, dst, src, key, st, rj, v, send_at in ops:
        if rj.value == "timeout" and st["acked"] is not None:
            try:
                r = nodes[dst].comm.recv(src, key, timeout=0.5)
            except TimeoutError:
                k.fail("late-message-lost", f"#{i}: arrived after the receive timed out, "
                       "and a later receive does not find it")
            if not same(r, v):
                k.fail("wrong-message", f"late #{i}: {r!r}")
            k.probe("late-then-received")
        elif rj.value == "ok":
            try:
                r = nodes[dst].comm.recv(src, key, timeout=0.0)
                k.fail("duplicate-delivery", f"#{i}: {r!r}")
            except TimeoutError:
                nto[0] += 1
    total = sum(x.comm.stats.snapshot()["recv_timeouts"] for x in nodes)
    if total != nto[0]:
        k.fail("timeout-miscounted", f"{nto[0]} receives timed out, statistics say {total}")


def send(k):
    import mplang.backends.simp_worker.http as H

    n = 2
    conf = (None, 1.0, 60.0)[k.work(3)]
    nodes = http_comms(k, n, H.CommConfig(default_recv_timeout=None, http_timeout=conf,
                                          use_binary=bool(k.work(3))))
    k.net.faults.jitter = False
    L = (0.001, 0.3, 0.8, 4.0, 40.0)[k.work(5)]
    k.net.faults.latency = L
    cut = not k.work(4)
    if cut:
        k.net.partitioned.add(("node0", "node1"))
    jobs = []
    acked = []

    def one(i, T, mode):
        eff = conf if mode or T is None else T
        if cut and eff is None:
            return
        v = payload(k, i + 1)
        t0 = k.now
        out = "ok"
        try:
            if mode:
                h = nodes[0].comm.send(1, f"s{i}", v)
                h.wait()
            else:
                nodes[0].comm.send_sync(1, f"s{i}", v, timeout=T)
        except Exception as e:  # noqa: BLE001
            out = e
        el = k.now - t0
        late = cut or (eff is not None and 2 * L > eff + SLACK)
        early = not cut and (eff is None or 2 * L < eff - SLACK)
        if out == "ok":
            k.probe("send-in-time")
            acked.append((i, v))
            if late:
                k.fail("send-timeout-ignored", f"send #{i} limit {eff}, round trip {2 * L}, "
                       f"cut={cut}: succeeded after {el:.3f}s")
            if el > 2 * L + SLACK:
                k.fail("send-too-slow", f"send #{i} took {el:.3f}s, round trip {2 * L}")
        else:
            if mode == 0 and not isinstance(out, TimeoutError):
                k.fail("send-timeout-wrong-error", f"send #{i}: {out!r}")
            k.probe("send-timeout")
            if early:
                k.fail("send-spurious-timeout", f"send #{i} limit {eff}, round trip {2 * L}: "
                       f"{out!r} after {el:.3f}s")
            if el < eff - 1e-4:
                k.fail("timeout-too-early", f"send #{i}: limit {eff}, raised at {el:.4f}s")
            if el > eff + SLACK:
                k.fail("timeout-too-late", f"send #{i}: limit {eff}, raised at {el:.4f}s")
            if mode == 0:
                info = (getattr(out, "to", 1), getattr(out, "key", f"s{i}"),
                        getattr(out, "timeout", eff))
                if info != (1, f"s{i}", eff):
                    k.fail("timeout-wrong-details", f"send #{i} reported {info}")

    for i in range(1 + k.work(4)):
        T = (None, 0.5, 1.0, 5.0, 100.0)[k.work(5)]
        mode = int(not k.work(3)) if i < 2 else 0
        jobs.append(go(k, lambda a=(i, T, mode): one(*a), f"snd{i}", nodes[0].node))
    if k.work(2):
        k.wall_offset -= 1e6
        k.after(0.4, lambda: setattr(k, "wall_offset", k.wall_offset + 5e6))
    join_all(k, jobs, 1000.0, "sends")
    raise_unexpected(k, jobs)
    for i, v in acked:
        try:
            r = nodes[1].comm.recv(0, f"s{i}", timeout=0.5)
        except TimeoutError:
            k.fail("acknowledged-message-lost", f"send #{i}")
        if not same(r, v):
            k.fail("wrong-message", f"#{i}: {r!r}")
    st = nodes[0].comm.stats.snapshot()
    if st["messages_sent"] != len(acked):
        k.fail("send-miscounted", f"{len(acked)} sends succeeded, statistics {st}")


VARIANTS = {"recv": Variant(recv, 0), "send": Variant(send, 0)}
