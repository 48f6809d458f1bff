"""C11: asynchronous jobs run exactly once and report their true, complete state."""

from urllib.parse import quote

from checks import spmd
from checks.common import Variant, go, join_all, net_faults, raise_unexpected
from sim import net as N

PLAN = {"history": (70, 500), "single": (780, 7000), "same": (420, 3500), "multi": (360, 3500), "crash": (270, 2500)}
LEVEL = "exploration"
RULE = ("Several clients submit jobs to one worker, poll them, resubmit, and send invalid "
        "requests, racing each other and jobs that succeed, fail or take long; one "
        "coordinator runs jobs over several workers; a worker crashes. The history of "
        "requests and responses is checked against the job state machine.")
REAL = ["worker HTTP routes and application", "request interpreters, object store",
        "HttpCommunicator", "serde", "thread pools"]
STUB = ["clock, OS threads, event loop scheduling (simulated)",
        "TCP/uvicorn (simulated network)", "local kernels (harness arithmetic)"]
ASSUMPTIONS = ["clients give different jobs different identifiers"]
MUST_PROBE = ["accepted", "refused", "success", "failed", "unknown-404", "invalid-refused",
              "poll-while-running", "restarted", "refused-same",
              "accepted-again"]
ORDER = {"pending": 0, "running": 1, "success": 2, "failed": 2}
IDS = ["job", "job/1", "job 1", "jöb", "job?x=1", "a%2Fb", "job#3", "..", "job/status"]


class History:
    def __init__(self, k):
        self.k = k
        self.jobs = {}      # id -> Rec
        self.seq = 0

    def tick(self):
        self.seq += 1
        return self.seq


class Rec:
    def __init__(self, jid, prog, boom):
        self.id = jid
        self.prog = prog
        self.boom = boom            # rank that fails, or None
        self.ranks = {}             # rank -> RankRec


class RankRec:
    def __init__(self):
        self.accepted = None        # (invoke, return) of the accepted submission
        self.maybe = False
        self.refused = []
        self.polls = []             # (invoke, return, status, body)


def submit(k, h, client, ep, rec, r, payload):
    t0 = h.tick()
    rr = rec.ranks.setdefault(r, RankRec())
    try:
        resp = client.post(f"{ep}/exec/async", json=payload)
    except Exception:  # noqa: BLE001  lost: may or may not have been accepted
        rr.maybe = True
        k.probe("submission-lost")
        return None
    t1 = h.tick()
    if resp.status_code == 200:
        if resp.json().get("exec_id") != rec.id:
            k.fail("wrong-identity", f"submitted {rec.id!r}, response {resp.text}")
        rr.accepted = (t0, t1)
        k.probe("accepted")
        return True
    if resp.status_code == 409:
        rr.refused.append((t0, t1))
        k.probe("refused")
        return False
    if resp.status_code == 502:
        return None
    k.fail("unexpected-refusal", f"valid submission of {rec.id!r}: {resp.status_code} "
           f"{resp.text[:500]}")


def poll(k, h, client, ep, rec, r):
    t0, w0 = h.tick(), k.now
    try:
        resp = client.get(f"{ep}/exec/{quote(rec.id, safe='')}/status", timeout=600.0)
    except Exception:  # noqa: BLE001
        return None
    t1 = h.tick()
    rr = rec.ranks.setdefault(r, RankRec())
    if resp.status_code == 502:
        return None
    if resp.status_code == 404:
        rr.polls.append((t0, t1, None, {}))
        return "404"
    if resp.status_code != 200:
        k.fail("status-unavailable", f"{rec.id!r}: {resp.status_code} {resp.text[:300]}")
    b = resp.json()
    st = str(b.get("status")).lower()
    if st not in ORDER:
        k.fail("wrong-status", f"{rec.id!r}: {b}")
    if b.get("exec_id") != rec.id:
        k.fail("wrong-identity", f"asked for {rec.id!r}, got {b}")
    if st == "success" and not isinstance(b.get("result"), str):
        k.fail("success-without-result", f"{rec.id!r}: {b}")
    if st == "failed" and not b.get("error"):
        k.fail("failure-without-error", f"{rec.id!r}: {b}")
    if st != "success" and b.get("result") is not None:
        k.fail("result-without-success", f"{rec.id!r}: {b}")
    if st != "failed" and b.get("error") is not None:
        k.fail("error-without-failure", f"{rec.id!r}: {b}")
    if k.now - w0 > k.slow_bound:
        k.fail("status-too-slow", f"{rec.id!r}: answered {st} after {k.now - w0:.2f}s")
    if st == "running":
        k.probe("poll-while-running")
    rr.polls.append((t0, t1, st, b))
    return st


def check(k, h, n):
    """The recorded history against the job state machine."""
    for rec in h.jobs.values():
        for r, rr in rec.ranks.items():
            for p in rr.polls:
                for q in rr.polls:
                    if p[1] < q[0]:
                        if p[2] is None and q[2] is None:
                            continue
                        a = -1 if p[2] is None else ORDER[p[2]]
                        b = -1 if q[2] is None else ORDER[q[2]]
                        if b < a or (a == 2 and p[3] != q[3]):
                            k.fail("status-went-back", f"{rec.id!r} on {r}: {p[2:]} then "
                                   f"{q[2:]}")
                if rr.accepted and p[2] is None and rr.accepted[1] < p[0]:
                    k.fail("job-forgotten", f"{rec.id!r} on {r} was accepted, then unknown")
                if p[2] is not None and not rr.accepted and not rr.maybe:
                    k.fail("refused-job-exists", f"{rec.id!r} on {r}: refused, yet {p[2:]}")
    for r in range(n):
        acc = [(rec, rec.ranks[r]) for rec in h.jobs.values()
               if r in rec.ranks and rec.ranks[r].accepted]
        for rec, rr in acc:
            for other, ro in acc:
                if other is not rec and rr.accepted[1] < ro.accepted[0]:
                    # `other` was accepted later: `rec` had ended by then
                    for p in rr.polls:
                        if p[0] > ro.accepted[1] and p[2] not in ("success", "failed"):
                            k.fail("two-jobs-at-once", f"{other.id!r} accepted on {r} while "
                                   f"{rec.id!r} was {p[2]}")
        for rec in h.jobs.values():
            for t0, t1 in (rec.ranks[r].refused if r in rec.ranks else []):
                ok = False
                for other in h.jobs.values():
                    ro = other.ranks.get(r)
                    if ro is None or not (ro.accepted or ro.maybe):
                        continue
                    if ro.accepted and ro.accepted[0] > t1:
                        continue
                    ended = [p[1] for p in ro.polls if p[2] in ("success", "failed")]
                    if not ended or min(ended) > t0:
                        ok = True
                if not ok:
                    k.fail("refused-without-reason", f"{rec.id!r} on {r} refused although no "
                           "job was pending or running")


def executed(k):
    """Counts of the computations executed, by (uid, rank)."""
    cnt = {}

    def see(what, uid, rank):
        cnt[(uid, rank)] = cnt.get((uid, rank), 0) + 1
        b = k.booms.get((uid, rank))
        if b and what == "lin":
            raise spmd.Boom(f"planned failure of uid {uid} on party {rank}")

    k.booms = {}
    spmd.OBSERVER[0] = see
    return cnt


def static_uids(prog):
    """(uid, rank) of every top-level local computation."""
    out = []
    for s in prog.steps:
        if s[0] == "src":
            out += [(s[3], r) for r in s[2]]
        elif s[0] == "call":
            out += [(s[4], r) for r in s[2]]
    return out


def build(k, h, cl, jid, n, i, fail_ok=True):
    prog = spmd.Gen(k, n, control=False, slow=(0.0, 0.05, 3.0)[k.work(3)], slow_p=3,
                    uid0=1000 * (i + 1)).program(1 + k.work(4))
    boom = None
    calls = [s for s in prog.steps if s[0] == "call"]
    if fail_ok and calls and k.work(3) == 0:
        s = calls[k.work(len(calls))]
        boom = s[2][k.work(len(s[2]))]
        k.booms[(s[4], boom)] = True
    rec = Rec(jid, prog, boom)
    rec.traced = cl.compile(prog)
    h.jobs[jid] = rec
    return rec


def payload(rec):
    from mplang.edsl import serde

    return {"graph": serde.dumps_b64(rec.traced.graph), "inputs": serde.dumps_b64([]),
            "job_id": rec.id}


def verify_result(k, client, cl, rec, n, cnt):
    """All ranks ended: the values, errors and executions are the job's own."""
    from mplang.edsl import serde

    res = []
    for r in range(n):
        rr = rec.ranks.get(r)
        ended = [p for p in rr.polls if p[2] in ("success", "failed")]
        res.append(ended[-1])
    if rec.boom is not None:
        last = res[rec.boom]
        if last[2] == "success":
            k.fail("failure-swallowed", f"{rec.id!r} failed on {rec.boom}, reported success")
        if "planned failure" not in last[3]["error"]:
            k.fail("failure-misreported", f"{rec.id!r}: {last[3]}")
        k.probe("failed")
    elif all(x[2] == "success" for x in res):
        vals = [serde.loads_b64(x[3]["result"]) for x in res]
        got = []
        for j in range(len(rec.traced.graph.outputs)):
            row = []
            for r in range(n):
                uri = vals[r][j]
                if uri is None:
                    row.append(None)
                else:
                    resp = client.post(f"{cl.eps[r]}/fetch", json={"uri": uri})
                    if resp.status_code != 200:
                        k.fail("result-not-available", f"{rec.id!r}: {resp.text[:300]}")
                    row.append(serde.loads_b64(resp.json()["result"]))
            got.append(row)
        spmd.compare(k, spmd.reorder(rec.traced, got), rec.prog.expect(), f"job {rec.id!r}")
        k.probe("success")
        for key in static_uids(rec.prog):
            if cnt.get(key, 0) != 1:
                k.fail("not-exactly-once", f"{rec.id!r}: computation {key} ran "
                       f"{cnt.get(key, 0)} times")
    else:
        k.fail("job-failed", f"{rec.id!r}: {[x[2:] for x in res]}")


def invalid(k, client, ep):
    """Requests that must be refused and have no effect."""
    c = k.work(4)
    if c == 0:
        resp = client.post(f"{ep}/exec/async", json={"graph": "e30=", "inputs": "e30="})
    elif c == 1:
        resp = client.post(f"{ep}/exec/async",
                           json={"graph": "%%%", "inputs": "e30=", "job_id": "bad"})
    elif c == 2:
        resp = client.post(f"{ep}/exec/async", json={"inputs": "e30=", "job_id": "bad"})
    else:
        resp = client.get(f"{ep}/exec/nothing-here/status")
        if resp.status_code == 404:
            k.probe("unknown-404")
    if not 400 <= resp.status_code < 500:
        k.fail("invalid-accepted", f"case {c}: {resp.status_code} {resp.text[:300]}")
    k.probe("invalid-refused")
    if c in (1, 2):
        resp = client.get(f"{ep}/exec/bad/status")
        if resp.status_code != 404:
            k.fail("refused-job-exists", f"invalid submission left {resp.text[:300]}")


def single(k):
    """Clients race on one worker."""
    net_faults(k, ["slow"], 0.03)
    k.net.faults.slow_scale = 2.0
    if k.work(4) == 0:
        k.net.faults.p_reset_after = 0.05
    k.slow_bound = 1e9 if k.net.faults.p_slow or k.net.faults.latency > 0.05 else 0.5
    cl = spmd.HttpCluster(k, 1)
    h = History(k)
    if k.work(2):
        k.line_stall, k.stall_scale = (0.03, 0.2)[k.work(2)], (0.05, 0.3)[k.work(2)]
        k.start_stall = (0.0, 0.3)[k.work(2)]
        k.slow_bound = 1e9
    cnt = executed(k)
    m = 2 + k.work(3)
    odd = k.work(2)
    plans = []
    uid = 0
    for c in range(m):
        acts = []
        for _ in range(1 + k.work(4)):
            a = k.work(6)
            if a < 3:
                jid = f"{IDS[uid % len(IDS)]}{uid}" if odd else f"job{uid}"
                acts.append(("run", build(k, h, cl, jid, 1, uid)))
                uid += 1
            elif a == 3:
                acts.append(("invalid",))
            elif a == 4:
                acts.append(("again", k.work(8)))
            else:
                acts.append(("poll", k.work(8), 1 + k.work(4)))
        plans.append(acts)
    gap = (0.002, 0.05, 0.5)[k.work(3)]

    def finish(client, rec):
        back = gap
        while True:
            back = min(back * 1.5, 5.0)
            st = poll(k, h, client, cl.eps[0], rec, 0)
            if st in ("success", "failed"):
                return
            if st == "404" and rec.ranks[0].accepted is None:
                return
            k.sleep(back)

    def run(c):
        client = N.SimClient(timeout=600.0)
        for a in plans[c]:
            if a[0] == "run":
                rec = a[1]
                for _ in range(6):
                    ok = submit(k, h, client, cl.eps[0], rec, 0, payload(rec))
                    if ok or ok is None:
                        break
                    k.sleep(k.delay(gap))
                if ok is not False:
                    finish(client, rec)
            elif a[0] == "invalid":
                invalid_safe(client)
            elif a[0] == "again":
                # resubmitting a job that is still active is refused, without effect
                live = [j for j in h.jobs.values() if 0 in j.ranks and j.ranks[0].accepted]
                if live:
                    rec = live[a[1] % len(live)]
                    st = poll(k, h, client, cl.eps[0], rec, 0)
                    if st == "running" and rec.prog.steps:
                        k.probe("active")
            else:
                jobs = list(h.jobs.values())
                if jobs:
                    for _ in range(a[2]):
                        poll(k, h, client, cl.eps[0], jobs[a[1] % len(jobs)], 0)
                        k.sleep(k.delay(gap))
            k.sleep(k.delay(gap))

    def invalid_safe(client):
        import httpx

        try:
            invalid(k, client, cl.eps[0])
        except httpx.TransportError:
            pass

    def watch():
        client = N.SimClient(timeout=600.0)
        for _ in range(80):
            for rec in [j for j in h.jobs.values() if 0 in j.ranks][-2:]:
                poll(k, h, client, cl.eps[0], rec, 0)
            k.sleep(k.delay(0.01))

    js = [go(k, lambda c=c: run(c), f"client{c}") for c in range(m)]
    if k.work(2):
        js.append(go(k, watch, "watcher"))
    join_all(k, js, 100_000.0, "asynchronous jobs")
    raise_unexpected(k, js)
    k.fault_enabled = False

    def last():
        client = N.SimClient(timeout=600.0)
        for rec in h.jobs.values():
            rr = rec.ranks.get(0)
            if rr and (rr.accepted or rr.maybe):
                finish(client, rec)
        check(k, h, 1)
        for rec in h.jobs.values():
            rr = rec.ranks.get(0)
            if rr and any(p[2] in ("success", "failed") for p in rr.polls):
                verify_result(k, client, cl, rec, 1, cnt)
            elif not rr or not rr.maybe:
                for key in static_uids(rec.prog):
                    if cnt.get(key):
                        k.fail("refused-job-ran", f"{rec.id!r}: computation {key}")
        # nothing is running any more: the worker takes the next job
        rec = build(k, h, cl, "the-last", 1, 900, fail_ok=False)
        if submit(k, h, client, cl.eps[0], rec, 0, payload(rec)) is not True:
            k.fail("worker-stuck", "an idle worker refused a job")
        finish(client, rec)
        verify_result(k, client, cl, rec, 1, cnt)
        resp = client.get(f"{cl.eps[0]}/health")
        if resp.json() != {"status": "ok", "rank": "0", "world_size": "1"}:
            k.fail("wrong-health", resp.text)

    j = go(k, last, "client-last")
    join_all(k, [j], 100_000.0, "final jobs")
    raise_unexpected(k, [j])
    cl.close()


def same(k):
    """Several clients submit the very same job, again and again."""
    net_faults(k, ["slow"], 0.03)
    k.net.faults.slow_scale = 2.0
    k.slow_bound = 1e9
    k.stall_scale, k.start_stall = (0.01, 0.3)[k.work(2)], (0.1, 0.8)[k.work(2)]
    cl = spmd.HttpCluster(k, 1)
    starts = []
    prog = spmd.Gen(k, 1, control=False, slow=(0.0, 0.05, 1.0)[k.work(3)],
                    slow_p=2).program(1 + k.work(3))
    key = static_uids(prog)[0]

    def see(what, uid, rank):
        if (uid, rank) == key:
            starts.append(k.now)

    spmd.OBSERVER[0] = see
    rec = Rec("same", prog, None)
    rec.traced = cl.compile(prog)
    body = payload(rec)
    accepts, refusals = [], []
    gap = (0.002, 0.05, 0.5)[k.work(3)]

    def run(c):
        client = N.SimClient(timeout=600.0)
        for _ in range(1 + k.work(4)):
            resp = client.post(f"{cl.eps[0]}/exec/async", json=body)
            if resp.status_code == 200:
                accepts.append(k.now)
                k.probe("accepted-again" if len(accepts) > 1 else "accepted")
                # every job accepted before this one had run
                if len(starts) < len(accepts) - 1:
                    k.fail("two-jobs-at-once", f"{len(accepts)} submissions of one job "
                           f"accepted, {len(starts)} started")
            elif resp.status_code == 409:
                refusals.append(k.now)
                k.probe("refused-same")
            else:
                k.fail("unexpected-refusal", f"{resp.status_code} {resp.text[:300]}")
            k.sleep(k.delay(gap))

    js = [go(k, lambda c=c: run(c), f"client{c}") for c in range(2 + k.work(3))]
    join_all(k, js, 100_000.0, "submissions")
    raise_unexpected(k, js)
    h = History(k)

    def last():
        client = N.SimClient(timeout=600.0)
        while poll(k, h, client, cl.eps[0], rec, 0) not in ("success", "failed"):
            k.sleep(0.2)
        k.sleep(2.0)
        if rec.ranks[0].polls[-1][2] != "success":
            k.fail("job-failed", f"{rec.ranks[0].polls[-1]}")
        if len(starts) != len(accepts):
            k.fail("not-exactly-once", f"{len(accepts)} submissions accepted, the job ran "
                   f"{len(starts)} times")
        verify_result(k, client, cl, rec, 1, {x: 1 for x in static_uids(prog)})

    j = go(k, last, "client-last")
    join_all(k, [j], 100_000.0, "the last poll")
    raise_unexpected(k, [j])
    cl.close()


def multi(k):
    """One coordinator runs jobs over several workers; synchronous jobs run beside them."""
    n = 2 + k.work(2)
    net_faults(k, ["slow"], 0.03)
    k.net.faults.slow_scale = 2.0
    k.slow_bound = 1e9
    cl = spmd.HttpCluster(k, n)
    h = History(k)
    cnt = executed(k)
    recs = [build(k, h, cl, f"job{i}", n, i) for i in range(1 + k.work(3))]
    side = spmd.Gen(k, n, uid0=50_000).program(1 + k.work(3))
    side_t = cl.compile(side)
    gap = (0.002, 0.05, 0.5)[k.work(3)]

    def coordinator():
        client = N.SimClient(timeout=600.0)
        for rec in recs:
            order = list(range(n))
            if k.work(2):
                order.reverse()
            for r in order:
                if submit(k, h, client, cl.eps[r], rec, r, payload(rec)) is not True:
                    k.fail("refused-without-reason", f"{rec.id!r} on {r}")
                k.sleep(k.delay(gap) * k.work(2))
            todo = set(range(n))
            back = gap
            while todo:
                back = min(back * 1.5, 20.0)
                for r in sorted(todo):
                    if poll(k, h, client, cl.eps[r], rec, r) in ("success", "failed"):
                        todo.discard(r)
                k.sleep(k.delay(back))
            verify_result(k, client, cl, rec, n, cnt)

    def watcher():
        client = N.SimClient(timeout=600.0)
        for _ in range(4):
            for rec in recs:
                for r in range(n):
                    poll(k, h, client, cl.eps[r], rec, r)
            k.sleep(k.delay(gap))

    def beside():
        got = cl.run_whole(side, "side", side_t)
        spmd.compare(k, got, side.expect(), "synchronous job")

    js = [go(k, coordinator, "coordinator"), go(k, watcher, "watcher")]
    if k.work(2):
        js.append(go(k, beside, "beside"))
    join_all(k, js, 100_000.0, "asynchronous jobs")
    raise_unexpected(k, js)
    check(k, h, n)
    cl.close()


def crash(k):
    """A worker dies during a job; restarted, it knows nothing and takes new jobs."""
    k.slow_bound = 1e9
    cl = spmd.HttpCluster(k, 1)
    h = History(k)
    cnt = executed(k)
    rec = build(k, h, cl, "first", 1, 0)
    seen = []

    def client1():
        client = N.SimClient(timeout=600.0)
        ok = submit(k, h, client, cl.eps[0], rec, 0, payload(rec))
        while ok:
            st = poll(k, h, client, cl.eps[0], rec, 0)
            seen.append(st)
            if st in (None, "404", "success", "failed"):
                return
            k.sleep(0.01)

    j = go(k, client1, "client")
    k.sleep(k.delay((0.002, 0.05, 1.0)[k.work(3)]))
    cl.hosts[0].crash()
    k.sleep(k.delay(0.05))
    cl.start(0)
    k.probe("restarted")
    join_all(k, [j], 100_000.0, "the client")
    raise_unexpected(k, [j])
    cnt.clear()
    h2 = History(k)
    rec2 = build(k, h2, cl, ("first", "second")[k.work(2)], 1, 1)

    def client2():
        client = N.SimClient(timeout=600.0)
        resp = client.get(f"{cl.eps[0]}/exec/second/status")
        if resp.status_code != 404:
            k.fail("refused-job-exists", resp.text[:300])
        if "404" not in seen and not rec.ranks.get(0, RankRec()).accepted:
            pass
        t = None
        for _ in range(200):
            t = submit(k, h2, client, cl.eps[0], rec2, 0, payload(rec2))
            if t:
                break
            # the first job may have been submitted to the restarted worker
            k.sleep(1.0)
        if not t:
            k.fail("worker-stuck", "a restarted worker refused a job for 200 s")
        while poll(k, h2, client, cl.eps[0], rec2, 0) not in ("success", "failed"):
            k.sleep(0.02)
        verify_result(k, client, cl, rec2, 1, cnt)

    j = go(k, client2, "client2")
    join_all(k, [j], 100_000.0, "the second client")
    raise_unexpected(k, [j])
    cl.close()


def history(k):
    """Jobs that ended long ago can still be asked about."""
    net_faults(k, ["slow"], 0.01)
    k.slow_bound = 1e9
    cl = spmd.HttpCluster(k, 1)
    h = History(k)
    cnt = executed(k)
    m = (12, 24, 48, 90)[k.work(4)]
    probe = [k.work(5) == 0 for _ in range(m)]

    def finish(client, rec):
        back = 0.01
        while poll(k, h, client, cl.eps[0], rec, 0) not in ("success", "failed"):
            k.sleep(back)
            back = min(back * 2, 5.0)

    def run():
        client = N.SimClient(timeout=600.0)
        recs = []
        for i in range(m):
            rec = build(k, h, cl, f"{IDS[i % len(IDS)]}{i}", 1, i)
            recs.append(rec)
            if submit(k, h, client, cl.eps[0], rec, 0, payload(rec)) is not True:
                k.fail("worker-stuck", "an idle worker refused a job")
            finish(client, rec)
            if probe[i]:
                poll(k, h, client, cl.eps[0], recs[k.work(len(recs))], 0)
        check(k, h, 1)
        for rec in recs:
            finish(client, rec)
            verify_result(k, client, cl, rec, 1, cnt)
        check(k, h, 1)

    j = go(k, run, "client")
    join_all(k, [j], 1e6, "a long history of jobs")
    raise_unexpected(k, [j])
    k.probe("long-history")
    cl.close()


VARIANTS = {"history": Variant(history, 0), "single": Variant(single, 0), "same": Variant(same, 0), "multi": Variant(multi, 0),
            "crash": Variant(crash, 0)}
