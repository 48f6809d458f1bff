"""C04: shutting down wakes whoever waits, and drains what was already accepted."""

from checks.common import Variant, go, http_comms, join_all, mem_comms, net_faults
from checks.common import payload, raise_unexpected, same
from checks.common import stalls

PLAN = {"mem": (1800, 16000), "drain": (1050, 9000), "worker": (360, 3000),
        "accepted": (240, 2000),
        "cluster": (450, 4000)}
LEVEL = "exploration"
RULE = ("Shutdown racing blocked receives, in-flight deliveries, queued sends and running "
        "jobs.")
REAL = ["LocalMesh/ThreadCommunicator", "HttpCommunicator", "worker app lifespan",
        "concurrent.futures source", "httpx client"]
STUB = ["clock and OS threads (simulated)", "TCP/uvicorn (simulated network)"]
ASSUMPTIONS = []
MUST_PROBE = ["woken", "job-woken", "delivered", "drained", "pending-at-drain", "job-running-at-stop",
              "accepted-job", "cluster-busy", "cluster-down"]


def mem(k):
    n = 2 + k.work(3)
    stalls(k)
    mesh = mem_comms(k, n, use_serde=bool(k.work(2)))
    plan = {}
    for i in range(1 + k.work(8)):
        src, dst = k.work(n), k.work(n)
        plan[src, dst, f"k{i}"] = (payload(k, i + 1), k.work(3) > 0)
    jobs, sent = [], {}
    down = [None, None]
    done_tasks = []

    def rcv(c):
        src, dst, key = c
        t0 = down[1]
        try:
            v = mesh.comms[dst].recv(src, key)
        except RuntimeError as e:
            if down[0] is None:
                k.fail("woken-without-shutdown", f"{c}: {e!r}")
            k.probe("woken")
            return
        if c not in sent:
            k.fail("received-before-sent", f"{c} -> {v!r}")
        if not same(v, plan[c][0]):
            k.fail("wrong-message", f"{c} -> {v!r}, sent {plan[c][0]!r}")
        if t0 is not None:
            pass  # receiving a message that was there is fine after shutdown as well
        k.probe("delivered")

    def snd(c):
        k.sleep(k.delay(0.0001))
        sent[c] = True
        try:
            mesh.comms[c[0]].send(c[1], c[2], plan[c][0])
        except RuntimeError:
            if down[0] is None:
                raise

    def task(i):
        k.sleep((0.0, 0.00002, 0.001)[k.work(3)])
        done_tasks.append(i)

    nt = k.work(4)
    futs = [mesh.executor.submit(task, i) for i in range(nt)]
    stuck = []
    for i in range(k.work(3)):  # jobs of a worker that wait for a message

        def wait(i=i):
            try:
                mesh.comms[i % n].recv((i + 1) % n, f"nobody-sends-{i}")
            except RuntimeError:
                k.probe("job-woken")
                stuck.append(i)

        futs.append(mesh.executor.submit(wait))
        stuck.append(None)
    for c in plan:
        jobs.append(go(k, lambda c=c: rcv(c), f"rcv{c}"))
        if plan[c][1]:
            jobs.append(go(k, lambda c=c: snd(c), f"snd{c}"))
    k.sleep(k.delay(0.0002))
    down[0] = k.now

    def stop():
        mesh.shutdown(wait=True)

    s = go(k, stop, "shutdown")
    join_all(k, [s], 60.0, "shutdown")
    raise_unexpected(k, [s])
    down[1] = k.now
    if len(stuck) != 2 * stuck.count(None):
        k.fail("shutdown-left-tasks", f"jobs waiting for a message: {stuck}")
    if len(done_tasks) != nt or not all(f.done() for f in futs):
        k.fail("shutdown-left-tasks", f"{len(done_tasks)} of {nt} accepted tasks finished")
    # a receive that starts after the shutdown must not hang either
    jobs.append(go(k, lambda: late(), "late"))

    def late():
        try:
            v = mesh.comms[0].recv(1 % n, "never-sent")
        except RuntimeError:
            return
        k.fail("received-before-sent", f"late receive -> {v!r}")

    join_all(k, jobs, 60.0, "receives at shutdown")
    raise_unexpected(k, jobs)
    mesh.shutdown(wait=True)  # idempotent


def drain(k):
    import mplang.backends.simp_worker.http as H

    n = 2 + k.work(2)
    nodes = http_comms(k, n, H.CommConfig(default_recv_timeout=30.0, http_timeout=50.0))
    faulty = bool(k.work(2))
    on = net_faults(k, ["slow", "refuse", "lost"] if faulty else [], 0.1)
    k.net.faults.slow_scale = 5.0
    comm = nodes[0].comm
    items = []

    def sender(j, cnt):
        for i in range(cnt):
            to = 1 + k.work(n - 1)
            v = payload(k, j * 100 + i + 1)
            items.append((to, f"{j}.{i}", v, comm.send(to, f"{j}.{i}", v)))

    jobs = [go(k, lambda a=(j, 1 + k.work(7)): sender(*a), f"snd{j}")
            for j in range(1 + k.work(3))]
    kind = k.work(3)
    cut = kind == 0 and not k.work(3)
    if cut:
        # an unreachable peer: a backlog of sends that each last until they time out
        to = nodes[1 + k.work(n - 1)]
        for src in (nodes[0].node.name, k.cur.node.name):
            k.net.partitioned.add((src, to.node.name))
        jobs += [go(k, lambda j=j: sender(j, 6), f"more{j}") for j in range(7, 9)]
        on = ["partition"]
    if kind == 0:
        join_all(k, jobs, 100.0, "submissions")
        before = list(items)
        if any(not it[3]._future.done() if hasattr(it[3], "_future") else not it[3].done
               for it in before):
            k.probe("pending-at-drain")
        if cut and k.work(2):
            k.after(k.delay(100.0), k.net.partitioned.clear)
        comm.shutdown()
        k.net.partitioned.clear()
    else:
        # drain what was accepted so far while other threads go on sending
        k.sleep(k.delay(0.002))
        for _ in range(1 + k.work(2)):
            before = list(items)
            if any(not it[3].done for it in before):
                k.probe("pending-at-drain")
            comm.wait_pending_sends()
            for to, key, v, h in before:
                if not h.done:
                    k.fail("drain-incomplete", f"send {key}, accepted before the wait, is "
                           f"{h.status} after it")
        join_all(k, jobs, 400.0, "submissions")
        before = list(items)
        comm.shutdown()
    raise_unexpected(k, jobs)
    k.probe("drained")
    for to, key, v, h in before:
        if not h.done:
            k.fail("drain-incomplete", f"send {key} is {h.status} after shutdown")
        if h.status == "cancelled":
            k.fail("drain-dropped", f"send {key} was cancelled by the shutdown")
        if h.status == "error" and not on:
            k.fail("send-failed-without-fault", key)
        k.fault_enabled = False
        if h.status == "completed":
            try:
                r = nodes[to].comm.recv(0, key, timeout=0.5)
            except TimeoutError:
                k.fail("acknowledged-message-lost", key)
            if not same(r, v):
                k.fail("wrong-message", f"{key}: {r!r}")
        k.fault_enabled = True


def worker(k):
    """A worker process stopping while a job runs: the job ends, the stop returns."""
    from checks import spmd

    n = 2
    cl = spmd.HttpCluster(k, n)
    slow = (0.0, 0.5, 30.0)[k.work(3)]
    prog = spmd.slow_program(n, slow)
    jobs = [go(k, lambda: cl.run_traced(prog), "job")]
    k.sleep((0.0, 0.2, 1.0)[k.work(3)] + k.delay(0.05))
    if not jobs[0].finished:
        k.probe("job-running-at-stop")
    stops = [go(k, lambda h=h: h.stop(limit=5000.0), f"stop-{h.name}") for h in cl.hosts]
    join_all(k, stops, 6000.0, "worker shutdown")
    for s in stops:
        if not s.value:
            k.fail("no-progress", f"{s.task.name} did not complete")
    join_all(k, jobs, 2000.0, "the client of a stopping cluster")
    cl.close()


def accepted(k):
    """Jobs a worker accepted before it stops are done when it has stopped."""
    from checks import c11, spmd
    from sim import net as N

    stalls(k)
    n = 1 + k.work(2)
    cl = spmd.HttpCluster(k, n)
    h = c11.History(k)
    cnt = c11.executed(k)
    recs = []
    for r in range(n):
        prog = spmd.Gen(k, n, control=False, shuffles=False, slow=(0.05, 2.0, 200.0)[k.work(3)],
                        slow_p=2, uid0=1000 * (r + 1)).program(1 + k.work(4))
        if any(s[0] not in ("src", "call", "const", "pass") for s in prog.steps):
            continue            # talks to other workers
        rec = c11.Rec(f"job{r}", prog, None)
        rec.traced = cl.compile(prog)
        h.jobs[rec.id] = rec
        recs.append((r, rec))
    client = N.SimClient(timeout=600.0)

    def run():
        for r, rec in recs:
            c11.submit(k, h, client, cl.eps[r], rec, r, c11.payload(rec))

    j = go(k, run, "client")
    j.join(100.0)
    k.sleep(k.delay((0.001, 0.1, 1.0)[k.work(3)]))
    stops = [(r, go(k, lambda r=r: cl.hosts[r].stop(limit=9000.0), f"stop{r}"))
             for r in range(n)]
    join_all(k, [s for _, s in stops], 9500.0, "worker shutdown")
    for r, s in stops:
        if not s.value:
            k.fail("no-progress", f"{s.task.name} did not complete")
    raise_unexpected(k, [j])
    for r, rec in recs:
        if r in rec.ranks and rec.ranks[r].accepted:
            k.probe("accepted-job")
            for key in c11.static_uids(rec.prog):
                if key[1] == r and cnt.get(key, 0) != 1:
                    k.fail("accepted-job-dropped", f"{rec.id!r}: computation {key} ran "
                           f"{cnt.get(key, 0)} times by the end of the shutdown")
    cl.close()


def cluster(k):
    """An in-process cluster shut down (or left as a context) while jobs run on it:
    nothing waits afterwards, no thread of it stays, accepted local work is done."""
    from checks import c11, spmd

    stalls(k)
    n = 2 + k.work(2)
    cl = spmd.MemCluster(k, n)
    cnt = c11.executed(k)
    before = set(k.tasks)
    how = k.work(3)
    jobs = []       # (program, local only, ranks it was submitted to, futures)
    made = []
    for i in range(1 + k.work(4)):
        local = k.work(2) == 1
        prog = spmd.Gen(k, n, control=not local, shuffles=not local, uid0=1000 * (i + 1),
                        slow=(0.05, 2.0)[k.work(2)], slow_p=2).program(1 + k.work(4))
        local = all(s[0] in ("src", "call", "const", "pass") for s in prog.steps)
        ranks = [r for r in range(n) if k.work(4) or local] or [0]
        made.append((prog, local, ranks, cl.compile(prog)))

    def client():
        for i, (prog, local, ranks, traced) in enumerate(made):
            futs = []
            jobs.append((prog, local, ranks, futs))
            for r in ranks:
                try:
                    futs.append((r, cl.driver.submit(r, traced.graph, [], f"job{i}")))
                except RuntimeError:
                    if not down:
                        raise
                    k.probe("refused-after-shutdown")
                    return
            if k.work(2):
                k.sleep(k.delay(0.01))

    down = []
    c = go(k, client, "client")
    if k.work(3):
        c.join(100.0)
    k.sleep(k.delay((0.0001, 0.01, 0.5)[k.work(3)]))
    if any(not f.done() for _, _, _, fs in jobs for _, f in fs):
        k.probe("cluster-busy")

    def stop():
        down.append(k.now)
        if how == 0:
            cl.interp.shutdown()
        elif how == 1:
            cl.driver.shutdown()
        else:
            cl.interp.shutdown()
            cl.interp.shutdown()

    s = go(k, stop, "shutdown")
    join_all(k, [s], 500.0, "cluster shutdown")
    join_all(k, [c], 500.0, "client")
    raise_unexpected(k, [s, c])
    k.sleep(1.0)
    for i, (prog, local, ranks, fs) in enumerate(jobs):
        for r, f in fs:
            if not f.done():
                k.fail("shutdown-left-tasks", f"job{i} at party {r} is not done after the "
                       "cluster's shutdown")
        if local:
            for r, f in fs:
                for key in c11.static_uids(prog):
                    if key[1] == r and cnt.get(key, 0) != 1:
                        k.fail("accepted-job-dropped", f"job{i}: computation {key} ran "
                               f"{cnt.get(key, 0)} times")
                if f.cancelled() or f.exception() is not None:
                    k.fail("accepted-job-dropped", f"job{i} at party {r}: {f!r}")
    left = [t.name for t in k.tasks if t not in before and not t.done
            and t is not k.cur]
    if left:
        k.fail("shutdown-left-tasks", f"threads still there after the shutdown: {left}")
    k.probe("cluster-down")


VARIANTS = {"accepted": Variant(accepted, 0), "cluster": Variant(cluster, 0),
            "mem": Variant(mem, 0), "drain": Variant(drain, 0),
            "worker": Variant(worker, 0)}
