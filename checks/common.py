"""Shared pieces of the simulated workloads (only public mplang API is used)."""

from __future__ import annotations

import numpy as np

from sim import kernel as K
from sim import net as N
from sim import prims as P
from sim import runner as R
from sim.kernel import HarnessError, TaskKilled, Violation  # noqa: F401
from sim.runner import Variant  # noqa: F401

threading = P.threading
futures = P.futures


class Job:
    """A harness thread whose outcome is collected."""

    def __init__(self, k, fn, name, node=None):
        self.k = k
        self.value = None
        self.error = None
        self.finished = False
        self.t_end = None

        def body():
            try:
                self.value = fn()
            except (TaskKilled, Violation, HarnessError, K.Stop):
                raise
            except BaseException as e:  # noqa: BLE001
                self.error = e
            self.finished = True
            self.t_end = k.now

        self.task = k.spawn(body, name, node)

    def join(self, timeout=None):
        self.k.join(self.task, timeout)
        return self.finished


def how_many(k, n):
    """n, or now and then as many that ranks have two digits."""
    if k.work(24) == 7:
        k.probe("many-parties")
        k.max_steps *= 5
        return 10 + k.work(4)
    return n


def go(k, fn, name, node=None):
    return Job(k, fn, name, node)


def join_all(k, jobs, within=None, what="operations"):
    """Every job must end (within `within` simulated seconds)."""
    end = None if within is None else k.now + within
    for j in jobs:
        left = None if end is None else max(0.0, end - k.now)
        if not j.join(left):
            k.fail("no-progress", f"{what}: {j.task.name} did not finish within "
                   f"{within} simulated seconds; waiting on {j.task.waiting_on}")


def raise_unexpected(k, jobs):
    for j in jobs:
        if j.error is not None:
            if R.caused_by_code(j.error):
                import traceback

                tb = "".join(traceback.format_exception(j.error))[-2500:]
                k.fail(f"unexpected-{type(j.error).__name__}", f"{j.task.name}: {tb}")
            raise HarnessError(f"{j.task.name}: {j.error!r}") from j.error


def describe(e):
    return f"{type(e).__name__}: {str(e)[:300]}"


def same(a, b):
    """Deep equality of payloads, including types."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (
            isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
            and a.dtype == b.dtype and a.shape == b.shape
            and (all(same(x, y) for x, y in zip(a.flat, b.flat, strict=True))
                 if a.dtype == object
                 else bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f")))
        )
    if hasattr(a, "equals") and hasattr(a, "schema"):
        return type(a) is type(b) and a.equals(b)
    if type(a) is not type(b):
        ua, ub = getattr(a, "unwrap", None), getattr(b, "unwrap", None)
        return False if ua is None or ub is None else same(a.unwrap(), b.unwrap())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[x], b[x]) for x in a)
    if hasattr(a, "unwrap") and not isinstance(a, type):
        a, b = a.unwrap(), b.unwrap()
        if hasattr(a, "schema"):
            return same(a, b)
        return same(np.asarray(a), np.asarray(b))
    return a == b


def payload(k, uid):
    """A value of a random supported kind that is unique to `uid`."""
    c = k.work(11)
    if c == 0:
        return uid
    if c == 8:
        return odd_array(k, uid)
    if c == 9:
        return [{uid: "n", (1, "t"): [b""], None: ()}, {"": float("inf"), "big": (1 << 80) + uid},
                "\u00e9\u4e2d\U0001f600\x00\"%d" % uid, -0.5, {}, [[]], ("",)][k.work(3)::3] + [uid]
    if c == 10:
        return odd_table(k, uid)
    if c == 1:
        return b"raw-%d" % uid + bytes([uid & 255]) * k.work(40)
    if c == 2:
        return [uid, None, True, "x%d" % uid]
    if c == 3:
        return {"id": uid, "v": (1.5, b"\x00\xff%d" % uid)}
    if c == 4:
        return "s-%d" % uid
    if c == 5:
        from mplang.backends.tensor_impl import TensorValue

        return TensorValue(np.arange(uid, uid + 1 + k.work(6), dtype=np.int64))
    if c == 6:
        return np.array([[uid, uid + 1], [2, 3]], dtype=np.float64)
    return (uid, [uid * 2, [uid * 3]])


DTYPES = ["bool", "i1", "u1", "u2", "f2", "f4", "u8", "c8", "c16", ">i4", "M8[s]"]


def odd_array(k, uid):
    """Arrays of every kind of element, shape and layout; now and then a big one."""
    c = k.work(12)
    if c == 11:         # does not compress, larger than any usual buffer
        n = (70_000, 300_000, 1_200_000)[k.work(3)]
        return np.random.default_rng(uid).integers(0, 256, n, dtype=np.uint8)
    if c == 10:
        x = np.zeros(300_000 + uid)
        x[uid] = uid
        return x
    shape = ((), (0,), (3, 0), (1,), (2, 3, 2), (5,), (4, 4))[k.work(7)]
    x = np.asarray(np.arange(int(np.prod(shape))).reshape(shape) + uid)
    x = x.astype(DTYPES[k.work(len(DTYPES))])
    layout = k.work(4)
    if layout == 1:
        x = x.T
    elif layout == 2 and x.ndim:
        x = x[::-1]
    elif layout == 3 and x.ndim:
        x = x[..., ::2]
    return x


def odd_table(k, uid):
    import pyarrow as pa

    c = k.work(3)
    if c == 0:
        out = np.empty(3, dtype=object)
        out[:] = [uid, [b"x", None], {"a": np.arange(2) + uid}]
        return out
    n = (0, 1, 3)[k.work(3)]
    t = pa.table({"id": pa.array([uid + i for i in range(n)], pa.int64()),
                  "name": pa.array([None if i == 1 else "\u00fc" + str(i) for i in range(n)],
                                   pa.string())})
    if c == 1:
        return {"t": t, "id": uid}
    from mplang.backends.table_impl import TableValue

    return [TableValue(t), uid]


def stalls(k):
    """Some runs: threads lose the CPU for a while between any two lines."""
    c = k.tapes["conf"].next(3)
    if c:
        k.line_stall = (0.0, 0.01, 0.1)[c]
        k.stall_scale = (0.02, 0.3)[k.tapes["conf"].next(2)]
        k.start_stall = (0.0, 0.1, 0.5)[k.tapes["conf"].next(3)]


def net_faults(k, kinds, strength=0.06):
    """Swarm-style: a random subset of the given network fault kinds."""
    f = k.net.faults
    mask = k.tapes["conf"].next(1 << len(kinds))
    on = []
    for i, name in enumerate(kinds):
        if mask >> i & 1:
            on.append(name)
            if name == "slow":
                f.p_slow = strength * 2
            elif name == "refuse":
                f.p_refuse = strength
            elif name == "lost":
                f.p_reset_after = strength
            elif name == "dup":
                f.p_dup = strength * 2
            elif name == "500":
                f.p_500 = strength
    f.latency = (0.001, 0.01, 0.3)[k.tapes["conf"].next(3)]
    return on


# ------------------------------------------------------- bare HTTP communicators
class CommNode:
    def __init__(self, host, comm):
        self.host = host
        self.comm = comm
        self.node = host.node


def http_comms(k, n, config=None, tracer=None, base=8100):
    """`n` worker processes serving only their communicator and routes."""
    import mplang.backends.simp_worker.http as H
    from mplang.backends.simp_worker.infra import WorkerInfra
    from mplang.runtime.object_store import ObjectStore

    addrs = [f"127.0.0.1:{base + i}" for i in range(n)]
    eps = ["http://" + a for a in addrs]
    out = []
    for r in range(n):
        box = {}

        def factory(r=r, box=box):
            from fastapi import FastAPI

            cfg = config(r) if callable(config) else config
            comm = H.HttpCommunicator(r, n, eps, tracer=tracer, config=cfg)
            box["comm"] = comm
            app = FastAPI()
            store = ObjectStore()
            infra = WorkerInfra(rank=r, world_size=n, communicator=comm, store=store,
                                handlers={})
            H.register_routes(app, rank=r, world_size=n, infra=infra, comm=comm,
                              store=store,
                              exec_pool=futures.ThreadPoolExecutor(max_workers=2))
            return app

        host = N.Host(k.net, f"node{r}", addrs[r], factory).start()
        out.append(CommNode(host, box["comm"]))
    return out


def mem_comms(k, n, use_serde=False):
    from mplang.backends.simp_worker.mem import LocalMesh

    return LocalMesh(n, use_serde=use_serde)
