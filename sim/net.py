"""Simulated HTTP: the real httpx client and the real FastAPI apps, with the
socket, the server process and uvicorn replaced by the kernel.

A Host is one worker process: a failure domain with an asyncio loop (virtual
time) running the ASGI application.  Requests travel with seeded latency, and
may be lost, duplicated, delayed past a timeout, or cut before/after delivery.
"""

from __future__ import annotations

import asyncio
import asyncio.base_events
import asyncio.events
import contextvars
import functools
import types
from urllib.parse import unquote

import httpx

from . import kernel as K
from . import prims
from .kernel import HarnessError, TaskKilled

_real_Client = httpx.Client


class NetFaults:
    def __init__(self):
        self.latency = 0.001
        self.jitter = True
        self.p_refuse = 0.0      # connection refused/reset: never delivered
        self.p_reset_after = 0.0  # delivered, response lost
        self.p_slow = 0.0        # delivered late (may exceed the timeout)
        self.slow_scale = 40.0
        self.slow_cap = 20.0     # None: a slow request may outlast any timeout
        self.p_dup = 0.0         # a proxy retries the request
        self.p_500 = 0.0
        self.only = None         # predicate(src, dst, method, path)


class Net:
    def __init__(self, k):
        self.k = k
        k.net = self
        self.hosts = {}
        self.faults = NetFaults()
        self.log = []           # wire log: dicts, in delivery order
        self.inflight = []
        self.partitioned = set()  # pairs (src, dst) that cannot talk
        self.record_bodies = False
        self.on_deliver = []
        self.seq = 0
        self.responses = []
        self.resolve = None     # address as seen by the calling process
        self.cut = set()        # host names nobody reaches
        self.error_body = b"bad gateway"
        self.errors = {}        # host name -> status a proxy answers for it
        self.extra = {}         # host name -> seconds every answer of it takes longer

    def host(self, addr):
        return self.hosts.get(addr)

    def reachable(self, src, dst):
        return (src, dst) not in self.partitioned

    # -------------------------------------------------------------- client side
    def request(self, src, req: httpx.Request, body: bytes):
        k = self.k
        addr = req.url.netloc.decode()
        local = False
        if self.resolve is not None:
            seen, addr = addr, self.resolve(addr)
            local = seen != addr
        path = req.url.raw_path.decode()
        method = req.method
        to = req.extensions.get("timeout") or {}
        t_conn, t_read = to.get("connect"), to.get("read")
        f = self.faults
        self.seq += 1
        rid = self.seq
        k.ev("net", method, src, addr, path if len(path) < 80 else path[:80])
        k.yield_("net")
        host = self.hosts.get(addr)
        dst = host.name if host else addr
        hit = f.only is None or f.only(src, dst, method, path)
        if not self.reachable(src, dst) or dst in self.cut:
            k.count_fault("partition-drop")
            if t_conn is None:
                k.block("partitioned connect")
            k.sleep(t_conn)
            raise httpx.ConnectTimeout("partitioned", request=req)
        if host is None or not host.node.alive or (host.local_only and not local):
            k.sleep(self._lat())
            raise httpx.ConnectError("[Errno 111] Connection refused", request=req)
        if hit and k.chance(f.p_refuse, "net-connection-refused"):
            k.sleep(self._lat())
            raise httpx.ConnectError("[Errno 104] Connection reset", request=req)
        d = self._lat()
        if hit and k.chance(f.p_slow, "net-slow"):
            late = k.delay(f.slow_scale)
            d += late if f.slow_cap is None else min(late, f.slow_cap)
        d += self.extra.get(dst, 0.0)
        cell = _Cell(k.cur, rid, src, dst, host)
        cell.lose_response = hit and k.chance(f.p_reset_after, "net-response-lost")
        cell.force_500 = hit and k.chance(f.p_500, "net-proxy-500")
        msg = (method, path, req.headers.raw, body, src, rid)
        if cell.force_500 or dst in self.errors:
            status = self.errors.get(dst, 502)
            k.after(d, lambda: cell.finish(("resp", status, [], self.error_body)))
        else:
            k.after(d, lambda: host.deliver(msg, cell))
            if hit and k.chance(f.p_dup, "net-duplicate"):
                k.after(d + self._lat() + k.delay(0.01), lambda: host.deliver(msg, None))
        self.inflight.append(cell)
        deadline = None if t_read is None else k.now + t_read
        try:
            while cell.value is None:
                left = None
                if deadline is not None:
                    left = deadline - k.now
                    if left <= 0:
                        k.count_fault("net-read-timeout")
                        raise httpx.ReadTimeout("timed out", request=req)
                k.block("http " + path[:40], left)
        finally:
            cell.waiter = None
            if cell in self.inflight:
                self.inflight.remove(cell)
        kind = cell.value[0]
        if kind == "error":
            if k.fault_int(2):      # closed in order, or reset
                raise httpx.RemoteProtocolError(
                    "Server disconnected without sending a response.", request=req)
            raise httpx.ReadError(cell.value[1], request=req)
        _, status, headers, rbody = cell.value
        return httpx.Response(status, headers=headers, content=rbody, request=req)

    def _lat(self):
        f = self.faults
        if not f.jitter:
            return f.latency
        return f.latency * 0.2 + min(self.k.delay(f.latency), 5.0)

    def host_crashed(self, host):
        for c in list(self.inflight):
            if c.host is host:
                c.later(("error", "connection reset by peer"), self._lat())


class _Cell:
    __slots__ = ("waiter", "value", "rid", "src", "dst", "host", "lose_response",
                 "force_500")

    def __init__(self, waiter, rid, src, dst, host):
        self.waiter = waiter
        self.value = None
        self.rid = rid
        self.src = src
        self.dst = dst
        self.host = host
        self.lose_response = False
        self.force_500 = False

    def later(self, value, d):
        K.CURRENT.after(d, lambda: self.finish(value))

    def finish(self, value):
        if self.value is None:
            self.value = value
            if self.waiter is not None:
                K.CURRENT.make_ready(self.waiter, "http")


class SimTransport(httpx.BaseTransport):
    def __init__(self):
        t = K.current_task()
        self.node = t.node if t is not None else None

    def handle_request(self, request):
        k = K.CURRENT
        t = K.current_task()
        if k is None or t is None or not hasattr(k, "net"):
            raise HarnessError("HTTP request outside a simulation")
        return k.net.request(t.node.name, request, request.read())


class SimClient(_real_Client):
    def __init__(self, *a, **kw):
        kw.pop("verify", None)
        kw.pop("http2", None)
        kw["transport"] = SimTransport()
        kw["trust_env"] = False
        super().__init__(*a, **kw)


def _oneshot(method):
    def f(url, **kw):
        ck = {k: kw.pop(k) for k in ("timeout", "verify", "auth") if k in kw}
        with SimClient(**ck) as c:
            return getattr(c, method)(url, **kw)

    return f


# ------------------------------------------------------------------ event loop
class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        return self.loop._sim_wait(timeout)

    def get_map(self):
        return {}

    def close(self):
        pass


class SimLoop(asyncio.base_events.BaseEventLoop):
    """asyncio's own event loop logic on virtual time and a simulated wakeup."""

    def __init__(self, k, name):
        super().__init__()
        self.k = k
        self.name = name
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.task = None
        self.woken = False
        self.pool = None
        self.set_exception_handler(lambda loop, ctx: None)

    def time(self):
        return self.k.now

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self.woken = True
        if self.task is not None and not self.k.over:
            self.k.make_ready(self.task, "woken")

    def _sim_wait(self, timeout):
        k = self.k
        if timeout is not None and timeout <= 0:
            k.yield_("loop")
            return []
        if self.woken:
            self.woken = False
            return []
        k.block("loop", timeout)
        self.woken = False
        return []

    def run_in_executor(self, executor, func, *args):
        self._check_closed()
        if executor is None:
            if self.pool is None:
                self.pool = prims.futures.ThreadPoolExecutor(
                    40, thread_name_prefix=f"{self.name}-aio"
                )
            executor = self.pool
        return self.wrap(executor.submit(func, *args))

    def wrap(self, cf):
        fut = self.create_future()

        def copy():
            if fut.cancelled():
                return
            if cf.cancelled():
                fut.cancel()
            elif cf.exception() is not None:
                e = cf.exception()
                if isinstance(e, StopIteration):
                    e = RuntimeError(str(e))
                fut.set_exception(e)
            else:
                fut.set_result(cf.result())

        def done(_):
            if not self.is_closed():
                self.call_soon_threadsafe(copy)

        cf.add_done_callback(done)
        return fut


class Host:
    """One worker process serving an ASGI app built by `factory()`."""

    def __init__(self, net, name, addr, factory):
        self.net = net
        self.k = net.k
        self.name = name
        self.addr = addr
        self.factory = factory
        self.node = None
        self.app = None
        self.loop = None
        self.epoch = 0
        self.handled = 0
        self.serving = 0
        self.local_only = False     # bound to the loopback interface

    def start(self, node=None):
        k = self.k
        self.epoch += 1
        self.node = node or K.Node(self.name)
        self.node.epoch = self.epoch
        self.stopping = False
        self.ready = False
        me = k.cur
        self.start_error = None

        def body():
            try:
                self.app = self.factory()
            except Exception as e:  # noqa: BLE001
                self.start_error = e
                k.make_ready(me, "host-up")
                return
            self.loop = SimLoop(k, self.name)
            self.loop.task = k.cur
            loop = self.loop
            started = loop.create_task(self._lifespan(me))
            try:
                loop.run_forever()
            except TaskKilled:
                raise
            finally:
                asyncio.events._set_running_loop(None)
            del started

        k.spawn(body, f"{self.name}.loop", node=self.node)
        while not self.ready and self.start_error is None:
            k.block("host start")
        if self.start_error is not None:
            raise self.start_error
        self.net.hosts[self.addr] = self
        return self

    async def _lifespan(self, me):
        self.stop_ev = asyncio.Event()
        async with self.app.router.lifespan_context(self.app):
            self.ready = True
            self.k.make_ready(me, "host-up")
            await self.stop_ev.wait()
        self.stopped = True
        self.loop.stop()

    def stop(self, limit=10_000.0):
        """Graceful shutdown (lifespan exit)."""
        self.stopped = False
        if not self.node.alive:
            return
        self.net.hosts.pop(self.addr, None)
        self.loop.call_soon_threadsafe(self.stop_ev.set)
        end = self.k.now + limit
        while not self.stopped and self.k.now < end:
            self.k.sleep(0.05)
        return self.stopped

    def crash(self):
        self.k.count_fault("node-crash")
        self.net.host_crashed(self)
        self.k.kill_node(self.node)

    def deliver(self, msg, cell):
        k = self.k
        if not self.node.alive or self.net.hosts.get(self.addr) is not self:
            if cell is not None:
                cell.later(("error", "connection reset by peer"), 0.001)
            return
        if not self.net.reachable(msg[4], self.name):
            k.count_fault("partition-drop")
            return  # the client waits for its own timeout
        k.ev("deliver", self.name, msg[0], msg[1][:80], "dup" if cell is None else "")
        self.handled += 1
        self.serving += 1
        for cb in self.net.on_deliver:
            cb(self, msg, cell is None)
        self.loop.call_soon_threadsafe(self._accept, msg, cell)

    def _accept(self, msg, cell):
        self.loop.create_task(self._serve(msg, cell))

    async def _serve(self, msg, cell):
        method, path, headers, body, src, rid = msg
        path, _, query = path.partition("?")
        scope = {
            "type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1",
            "method": method, "path": unquote(path), "raw_path": path.encode(),
            "query_string": query.encode(), "root_path": "", "scheme": "http",
            "headers": [(a.lower(), b) for a, b in headers],
            "client": (src, 1), "server": (self.addr.partition(":")[0], 80),
            "state": {},
        }
        sent = False
        out = {"status": 500, "headers": [], "body": b""}

        async def receive():
            nonlocal sent
            if not sent:
                sent = True
                return {"type": "http.request", "body": body, "more_body": False}
            await asyncio.Event().wait()

        async def send(m):
            if m["type"] == "http.response.start":
                out["status"] = m["status"]
                out["headers"] = list(m.get("headers", []))
            elif m["type"] == "http.response.body":
                out["body"] += m.get("body", b"")

        try:
            await self.app(scope, receive, send)
        except Exception as e:  # noqa: BLE001 - uvicorn logs it and answers 500
            if not out["body"]:
                out["status"] = 500
                out["body"] = b"Internal Server Error"
            self.net.responses.append((rid, self.name, path, "exc", repr(e)))
        self.serving -= 1
        self.net.responses.append((rid, self.name, path, out["status"], out["body"]))
        if cell is None:
            return
        if cell.lose_response:
            cell.later(("error", "connection lost"), self.net._lat())
            return
        cell.later(
            ("resp", out["status"], out["headers"], out["body"]), self.net._lat()
        )


# --------------------------------------------------------------------- install
_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    shim = types.ModuleType("httpx")
    shim.__dict__.update(
        {a: b for a, b in httpx.__dict__.items() if not a.startswith("__")}
    )
    shim.Client = SimClient
    for m in ("get", "post", "put", "delete", "patch", "head", "options", "request"):
        setattr(shim, m, _oneshot(m))
    prims.SHIMS["httpx"] = shim

    import anyio.to_thread
    import starlette.concurrency  # noqa: F401

    real = anyio.to_thread.run_sync

    async def run_sync(func, *args, **kw):
        loop = asyncio.get_running_loop()
        if not isinstance(loop, SimLoop):
            return await real(func, *args, **kw)
        ctx = contextvars.copy_context()
        return await loop.run_in_executor(None, functools.partial(ctx.run, func, *args))

    anyio.to_thread.run_sync = run_sync
    real_wrap = asyncio.futures.wrap_future

    def wrap_future(future, *, loop=None):
        if isinstance(future, prims.futures.Future):
            return (loop or asyncio.get_running_loop()).wrap(future)
        return real_wrap(future, loop=loop)

    asyncio.wrap_future = wrap_future
    asyncio.futures.wrap_future = wrap_future
