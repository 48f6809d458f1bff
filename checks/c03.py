"""C03: non-blocking request handles, batch waits and statistics tell the truth."""

from checks.common import Variant, futures, go, http_comms, join_all, net_faults
from checks.common import raise_unexpected, same

PLAN = {"handles": (4200, 20000), "batch": (4200, 20000), "sends": (2100, 9000)}
LEVEL = "exploration"
RULE = ("Handles completed, failed or cancelled by other threads while several observers "
        "poll, wait with timeouts, cancel and run batch operations; real HTTP sends with "
        "faults, queueing and cancellation.")
REAL = ["Request/SendRequest and wait_all/wait_any/testall/testany", "HttpCommunicator",
        "CommStats", "concurrent.futures source", "worker HTTP routes"]
STUB = ["clock and OS threads (simulated)", "TCP/uvicorn (simulated network)"]
ASSUMPTIONS = []
MUST_PROBE = ["wait-timeout", "cancelled", "cancel-refused", "errored", "any-returned",
              "all-timeout", "send-cancelled", "send-errored"]
SLACK = 0.1


class Op:
    """One asynchronous operation with a known completion."""

    def __init__(self, k, i):
        self.i = i
        self.fut = futures.Future()
        self.kind = ("ok", "error", "cancel")[min(2, k.work(5) // 2)]
        self.at = (0.0, 0.01, 0.5, 1.0, 3.0)[k.work(5)]
        self.value = {"v": i}
        self.error = ValueError(f"op {i}")
        self.began = None   # event number just before completion
        self.ended = None   # event number just after
        self.t_end = None

    def complete(self, k):
        k.sleep(self.at)
        running = True
        if self.kind != "cancel":
            running = self.fut.set_running_or_notify_cancel()
        self.began = k.nlog
        if self.kind == "ok" and running:
            self.fut.set_result(self.value)
        elif self.kind == "error" and running:
            self.fut.set_exception(self.error)
        elif self.kind == "cancel":
            self.fut.cancel()
            self.fut.set_running_or_notify_cancel()
        self.ended = k.nlog
        self.t_end = k.now

    def terminal(self):
        return {"ok": "completed", "error": "error", "cancel": "cancelled"}[self.kind]


def check_status(k, op, s, b, e, cancelled=False):
    """`s` was observed between events b and e."""
    want = op.terminal()
    if s not in ("pending", want) and not (cancelled and s == "cancelled"):
        k.fail("wrong-status", f"op {op.i} ({op.kind}) reported {s}")
    if s != "pending" and not cancelled and (op.began is None or op.began > e):
        k.fail("completed-too-early", f"op {op.i} reported {s} before it ended")
    if s == "pending" and op.ended is not None and op.ended <= b:
        k.fail("completion-missed", f"op {op.i} still pending after it ended")


def in_limit(k, what, T, t0):
    """A wait that ended, whichever way, did so within its limit."""
    if T is not None and k.now - t0 > T + SLACK:
        k.fail("limit-ignored", f"{what}({T}) ended after {k.now - t0:.4f}s")


def handles(k):
    from mplang.backends.simp_worker.base import Request

    ops = [Op(k, i) for i in range(1 + k.work(3))]
    reqs = [Request(o.fut, f"op {o.i}") for o in ops]
    cancelled = set()
    jobs = [go(k, lambda o=o: o.complete(k), f"op{o.i}") for o in ops]

    def observe(steps):
        last = {}
        for _ in range(steps):
            i = k.work(len(ops))
            o, r = ops[i], reqs[i]
            c = k.work(5)
            b = k.nlog
            wasc = i in cancelled
            if c == 0:
                s = r.status
                check_status(k, o, s, b, k.nlog, i in cancelled)
                if last.get(i, "pending") not in ("pending", s):
                    k.fail("status-went-back", f"op {i}: {last[i]} then {s}")
                last[i] = s
            elif c == 1:
                d = r.done
                if d and not (i in cancelled) and (o.began is None):
                    k.fail("completed-too-early", f"op {i} done before it ended")
                if not d and o.ended is not None and o.ended <= b:
                    k.fail("completion-missed", f"op {i} not done after it ended")
            elif c == 2:
                try:
                    ok, v = r.test()
                except ValueError as e:
                    if o.kind != "error" or e is not o.error and str(e) != str(o.error):
                        k.fail("wrong-error", f"op {i} test raised {e!r}")
                    k.probe("errored")
                    continue
                if ok and o.kind == "error" and not (i in cancelled):
                    k.fail("error-swallowed", f"op {i} test returned {v!r}")
                if ok and o.began is None and i not in cancelled:
                    k.fail("completed-too-early", f"op {i} test returned {v!r}")
                if ok and o.kind == "ok" and i not in cancelled and v != o.value:
                    k.fail("wrong-result", f"op {i} test returned {v!r}")
                if not ok and (v is not None or (o.ended is not None and o.ended <= b)):
                    k.fail("completion-missed", f"op {i} test said not complete")
            elif c == 3:
                T = (0.0, 0.005, 0.4, 2.0)[k.work(4)]
                t0 = k.now
                try:
                    v = r.wait(timeout=T)
                    in_limit(k, "wait", T, t0)
                    if o.kind == "ok" and v != o.value:
                        k.fail("wrong-result", f"op {i} wait returned {v!r}")
                    if o.kind != "ok":
                        k.fail("error-swallowed", f"op {i} ({o.kind}) wait returned {v!r}")
                    if o.began is None:
                        k.fail("completed-too-early", f"op {i} wait returned {v!r}")
                except TimeoutError:
                    k.probe("wait-timeout")
                    if k.now - t0 < T - 1e-6 or k.now - t0 > T + SLACK:
                        k.fail("timeout-wrong", f"op {i} wait({T}) raised after "
                               f"{k.now - t0:.4f}s")
                    if o.ended is not None and o.ended <= b:
                        k.fail("completion-missed", f"op {i} wait timed out after it ended")
                except ValueError as e:
                    if o.kind != "error" or str(e) != str(o.error):
                        k.fail("wrong-error", f"op {i} wait raised {e!r}")
                    in_limit(k, "wait", T, t0)
                    k.probe("errored")
                except futures.CancelledError:
                    in_limit(k, "wait", T, t0)
                    if o.kind != "cancel" and i not in cancelled:
                        k.fail("wrong-error", f"op {i} wait reported a cancellation")
                    k.probe("cancelled")
            else:
                if k.work(3):
                    continue
                cancelled.add(i) if not o.fut.running() and not o.fut.done() else None
                ok = r.cancel()
                if ok:
                    cancelled.add(i)
                    if r.status != "cancelled":
                        k.fail("cancel-untrue", f"op {i} cancelled, status {r.status}")
                    if o.kind != "cancel" and o.began is not None and o.ended is not None \
                            and o.ended <= b and not wasc:
                        k.fail("cancel-untrue", f"op {i} had ended, cancel() said True")
                else:
                    k.probe("cancel-refused")

    obs = [go(k, lambda s=2 + k.work(8): observe(s), f"obs{j}")
           for j in range(1 + k.work(3))]
    join_all(k, jobs + obs, 100.0, "handle operations")
    raise_unexpected(k, jobs + obs)
    k.sleep(10)
    for o, r in zip(ops, reqs):
        want = "cancelled" if o.fut.cancelled() else o.terminal()
        if r.status != want or not r.done:
            k.fail("wrong-status", f"finally op {o.i} ({o.kind}) is {r.status}, not {want}")


def batch(k):
    from mplang.backends.simp_worker.base import Request, testall, testany
    from mplang.backends.simp_worker.base import wait_all, wait_any

    ops = [Op(k, i) for i in range(1 + k.work(5))]
    if k.work(2):
        for o in ops:
            o.kind = "ok"
    reqs = [Request(o.fut, f"op {o.i}") for o in ops]
    jobs = [go(k, lambda o=o: o.complete(k), f"op{o.i}") for o in ops]

    def known_error(e):
        return any(o.kind == "error" and str(e) == str(o.error) and o.began is not None
                   for o in ops)

    def observe(steps):
        for _ in range(steps):
            c = k.work(4)
            T = (None, 0.0, 0.005, 0.7, 2.0)[k.work(5)]
            b, t0 = k.nlog, k.now
            sub = [i for i in range(len(ops)) if k.work(4)] or list(range(len(ops)))
            so, sr = [ops[i] for i in sub], [reqs[i] for i in sub]
            if c == 0:
                try:
                    v = wait_all(sr, timeout=T)
                except TimeoutError:
                    k.probe("all-timeout")
                    if T is None:
                        k.fail("timeout-without-limit", "wait_all without limit timed out")
                    if not T - 1e-6 <= k.now - t0 <= T + SLACK:
                        k.fail("timeout-wrong", f"wait_all({T}) raised after "
                               f"{k.now - t0:.4f}s")
                    if all(o.ended is not None and o.ended <= b for o in so):
                        k.fail("completion-missed", "wait_all timed out, all had ended")
                    continue
                except ValueError as e:
                    k.probe("errored")
                    in_limit(k, "wait_all", T, t0)
                    if not known_error(e):
                        k.fail("wrong-error", f"wait_all raised {e!r}")
                    continue
                in_limit(k, "wait_all", T, t0)
                if any(o.began is None for o in so):
                    k.fail("completed-too-early", "wait_all returned before all ended")
                if any(o.kind == "error" for o in so):
                    k.fail("error-swallowed", f"wait_all returned {v!r}")
                want = [o.value if o.kind == "ok" else None for o in so]
                if v != want:
                    k.fail("wrong-result", f"wait_all returned {v!r}, expected {want!r}")
            elif c == 1:
                try:
                    i, v = wait_any(sr, timeout=T)
                except TimeoutError:
                    if T is None:
                        k.fail("timeout-without-limit", "wait_any without limit timed out")
                    if not T - 1e-6 <= k.now - t0 <= T + SLACK:
                        k.fail("timeout-wrong", f"wait_any({T}) raised after "
                               f"{k.now - t0:.4f}s")
                    if any(o.ended is not None and o.ended <= b for o in so):
                        k.fail("completion-missed", "wait_any timed out, one had ended")
                    continue
                except ValueError as e:
                    k.probe("errored")
                    in_limit(k, "wait_any", T, t0)
                    if not known_error(e):
                        k.fail("wrong-error", f"wait_any raised {e!r}")
                    continue
                k.probe("any-returned")
                in_limit(k, "wait_any", T, t0)
                o = so[i]
                if o.began is None:
                    k.fail("completed-too-early", f"wait_any returned op {o.i}")
                if o.kind == "error" or (o.kind == "ok" and v != o.value):
                    k.fail("wrong-result", f"wait_any: op {o.i} ({o.kind}) -> {v!r}")
                if any(p.ended is not None and p.ended <= b for p in so) and not (
                        k.now - t0 <= SLACK):
                    k.fail("completion-missed", f"wait_any took {k.now - t0:.3f}s although "
                           "an operation had ended")
            elif c == 2:
                try:
                    ok, v = testall(sr)
                except ValueError as e:
                    k.probe("errored")
                    if not known_error(e):
                        k.fail("wrong-error", f"testall raised {e!r}")
                    continue
                if ok:
                    if any(o.began is None for o in so):
                        k.fail("completed-too-early", "testall true before all ended")
                    if any(o.kind == "error" for o in so):
                        k.fail("error-swallowed", f"testall returned {v!r}")
                    want = [o.value if o.kind == "ok" else None for o in so]
                    if v != want:
                        k.fail("wrong-result", f"testall returned {v!r}, not {want!r}")
                elif all(o.ended is not None and o.ended <= b for o in so):
                    k.fail("completion-missed", "testall false after all ended")
            else:
                try:
                    i, v = testany(sr)
                except ValueError as e:
                    k.probe("errored")
                    if not known_error(e):
                        k.fail("wrong-error", f"testany raised {e!r}")
                    continue
                if i is None:
                    if any(o.ended is not None and o.ended <= b for o in so):
                        k.fail("completion-missed", "testany found none, one had ended")
                else:
                    o = so[i]
                    if o.began is None:
                        k.fail("completed-too-early", f"testany returned op {o.i}")
                    if o.kind == "error" or (o.kind == "ok" and v != o.value):
                        k.fail("wrong-result", f"testany: op {o.i} -> {v!r}")

    obs = [go(k, lambda s=1 + k.work(5): observe(s), f"obs{j}")
           for j in range(1 + k.work(3))]
    join_all(k, jobs + obs, 200.0, "batch operations")
    raise_unexpected(k, jobs + obs)
    if wait_all([]) != [] or testall([]) != (True, []) or testany([]) != (None, None):
        k.fail("wrong-result", "batch operation on an empty list")


def sends(k):
    """Real sends: success means delivered, cancelled means never delivered."""
    import mplang.backends.simp_worker.http as H

    n = 2 + k.work(2)
    nodes = http_comms(k, n, H.CommConfig(default_recv_timeout=30.0, http_timeout=20.0))
    on = net_faults(k, ["slow", "refuse", "lost", "500"], 0.15)
    k.net.faults.slow_cap = None
    comm = nodes[0].comm
    items = []
    jobs = []
    stop = [False]

    def sender(j, cnt):
        for i in range(cnt):
            to = 1 + k.work(n - 1)
            key = f"{j}.{i}"
            data = bytes([65 + j]) * (1 + k.work(30))
            h = comm.send(to, key, data)
            items.append((to, key, data, h, {}))

    def canceller():
        while not stop[0]:
            k.sleep(0.0005 + k.delay(0.01))
            live = [it for it in items if "c" not in it[4]]
            if live:
                it = live[k.work(len(live))]
                before = it[3].done
                r = it[3].cancel()
                it[4]["c"] = r
                if r and before and it[3].status != "cancelled":
                    k.fail("cancel-untrue", f"{it[1]}: cancel() true, was done")
                k.probe("send-cancelled" if r else "cancel-refused")

    def reader():
        prev = None
        while not stop[0]:
            s = comm.stats.snapshot()
            if prev is not None:
                for f in ("messages_sent", "bytes_sent", "send_errors"):
                    if s[f] < prev[f]:
                        k.fail("statistics-went-back", f"{f}: {prev[f]} -> {s[f]}")
            prev = s
            k.sleep(0.001 + k.delay(0.01))

    bg = []
    if k.work(2):
        bg.append(go(k, canceller, "canceller"))
    if k.work(2):
        bg.append(go(k, reader, "reader"))
    for j in range(1 + k.work(3)):
        jobs.append(go(k, lambda a=(j, 1 + k.work(6)): sender(*a), f"snd{j}"))
    join_all(k, jobs, 500.0, "submissions")
    raise_unexpected(k, jobs)
    ok = err = canc = nbytes = 0
    for to, key, data, h, c in items:
        try:
            h.wait(timeout=400.0)
            st = "completed"
        except TimeoutError:
            k.fail("no-progress", f"send {key} still pending: {h.status}")
        except futures.CancelledError:
            st = "cancelled"
        except Exception:  # noqa: BLE001
            st = "error"
        if h.status != st or not h.done:
            k.fail("wrong-status", f"send {key}: waited {st}, status {h.status}")
        if (st == "cancelled") != bool(c.get("c")):
            k.fail("cancel-untrue", f"send {key}: cancel() {c.get('c')}, ended {st}")
        if st == "error" and not on:
            k.fail("send-failed-without-fault", key)
        ok += st == "completed"
        err += st == "error"
        canc += st == "cancelled"
        nbytes += len(data) if st == "completed" else 0
        k.fault_enabled = False
        try:
            v = nodes[to].comm.recv(0, key, timeout=0.2)
        except TimeoutError:
            v = None
        k.fault_enabled = True
        if st == "completed" and v is None:
            k.fail("acknowledged-message-lost", key)
        if st == "cancelled" and v is not None:
            k.fail("cancelled-but-sent", key)
        if v is not None and not same(v, data):
            k.fail("wrong-message", f"{key}: {v!r} != {data!r}")
        if st == "error":
            k.probe("send-errored")
    stop[0] = True
    join_all(k, bg, 50.0, "observers")
    raise_unexpected(k, bg)
    s = comm.stats.snapshot()
    want = (ok, err, nbytes)
    have = (s["messages_sent"], s["send_errors"], s["bytes_sent"])
    if want != have:
        k.fail("statistics-wrong", f"sent/errors/bytes {have}, actual {want}")


VARIANTS = {"handles": Variant(handles, 0), "batch": Variant(batch, 0),
            "sends": Variant(sends, 0)}
