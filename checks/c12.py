"""C12: a value leaves its party only by a movement the program asks for."""

import base64
import json

import numpy as np

from checks import spmd
from checks.common import Variant, go, join_all, net_faults, how_many, raise_unexpected, stalls

PLAN = {"traced": (220, 3000), "whole": (260, 3500), "eager": (100, 1200),
        "failing": (140, 1800), "jobs": (140, 1800), "disagree": (100, 1200)}
LEVEL = "exploration"
RULE = ("Random programs on 2 to 4 workers over HTTP (per operation, whole, eager, several at "
        "once, failing part-way); every request and response on the wire is decoded and "
        "compared with the data movements of the reference model.")
REAL = ["SimpHttpDriver, worker app and routes, HttpCommunicator, request interpreters",
        "serde, object stores, httpx, starlette/fastapi"]
STUB = ["clock, OS threads, event loop scheduling (simulated)",
        "TCP/uvicorn (simulated network)", "local kernels (harness arithmetic)", "libspu"]
ASSUMPTIONS = ["values are recognised by content: local computations produce values that "
               "identify their origin"]
MUST_PROBE = ["shuf", "cond", "moved", "agreed", "handle", "fetched", "failed", "disagreed"]


def _plain(v):
    v = v.unwrap() if hasattr(v, "unwrap") else v
    return np.asarray(v)


class Wire:
    """Decodes everything that crosses the simulated network."""

    def __init__(self, k, n):
        self.k = k
        self.n = n
        self.sent = []          # (src, dst, value) between workers
        self.agreed = []        # (src, dst) boolean messages
        self.fetches = []       # (rank, uri)
        self.open = {}
        k.net.on_deliver.append(self.see)

    def rank(self, name):
        return int(name[4:].split(".")[0]) if name.startswith("node") else None

    def see(self, host, msg, dup):
        k = self.k
        method, path, raw, body, src, rid = msg
        dst = self.rank(host.name)
        s = self.rank(src)
        self.open[rid] = (method, path, s, dst)
        from mplang.edsl import serde

        h = {a.decode().lower(): b.decode() for a, b in raw}
        if s is not None:
            if not path.startswith("/comm/"):
                k.fail("unexpected-traffic", f"party {s} sent {method} {path} to {dst}")
            if h.get("content-type", "").startswith("application/octet-stream"):
                v = body if h.get("x-is-raw-bytes") == "1" else serde.loads_binary(body)
            else:
                d = json.loads(body)
                v = (base64.b64decode(d["data"]) if d.get("is_raw_bytes")
                     else serde.loads_b64(d["data"]))
            if isinstance(v, (bool, np.bool_)) or (
                    isinstance(v, list) and len(v) <= self.n
                    and all(isinstance(x, (bool, np.bool_)) for x in v)):
                self.agreed.append((s, dst))
            else:
                self.sent.append((s, dst, v))
        elif path == "/exec":
            d = json.loads(body)
            ins = serde.loads_b64(d["inputs"])
            for x in ins:
                if x is not None and not isinstance(x, str):
                    k.fail("client-holds-value", f"an input sent to party {dst} is {x!r}")
        elif path == "/fetch":
            self.fetches.append((dst, json.loads(body)["uri"]))

    def check(self, progs, times, complete):
        """Worker traffic is what the programs move, and nothing else."""
        k = self.k
        from mplang.edsl import serde

        want = {}
        preds = 0
        for p in progs:
            e = spmd.effects(p)
            preds += e.preds * times
            for s, d, v in e.moves:
                want.setdefault((s, d), []).extend([v] * times)
        for s, d, v in self.sent:
            a = _plain(v)
            lst = want.get((s, d), [])
            for i, w in enumerate(lst):
                if a.shape == w.shape and np.array_equal(a, w):
                    del lst[i]
                    k.probe("moved")
                    break
            else:
                k.fail("value-leaked", f"party {s} sent party {d} the value {a!r}, which the "
                       "program does not move there (again)")
        if complete:
            for pair, lst in want.items():
                if lst:
                    k.fail("movement-missing", f"{pair}: {lst!r}")
        if self.agreed and not preds:
            k.fail("unexpected-traffic", f"truth values exchanged without a predicate: "
                   f"{self.agreed[:6]}")
        if self.agreed:
            k.probe("agreed")
        for rid, node, path, status, body in k.net.responses:
            m = self.open.get(rid)
            if m is None or status != 200:
                continue
            if m[2] is not None:
                if len(body) > 200:
                    k.fail("unexpected-traffic", f"party {m[3]} answered party {m[2]} with "
                           f"{body[:300]!r}")
            elif path == "/exec":
                d = json.loads(body)
                if set(d) != {"result"}:
                    k.fail("unexpected-traffic", f"job answer with {sorted(d)}")
                r = serde.loads_b64(d["result"])
                for x in r if isinstance(r, list) else [] if r is None else [r]:
                    if x is None:
                        continue
                    k.probe("handle")
                    if not isinstance(x, str) or len(x) > 200:
                        k.fail("client-holds-value", f"party {m[3]} answered a job with {x!r}")


def run(k, mode):
    if mode == "disagree":
        from checks.c09 import disagreeing

        progs = [disagreeing(k)]
        if progs[0] is None:
            return
        n = progs[0].n
    else:
        n = how_many(k, 2 + k.work(3))
    many = 2 + k.work(2) if mode == "jobs" else 1
    if mode != "disagree":
        progs = [spmd.Gen(k, n, control=mode != "eager", dynamic=True, slow=0.05, slow_p=5,
                          uid0=1000 * i).program(2 + k.work(5)) for i in range(many)]
    for p in progs:
        for x in p.kinds():
            k.probe(x)
    net_faults(k, ["slow"], 0.05)
    stalls(k)
    cl = spmd.HttpCluster(k, n)
    wire = Wire(k, n)
    traced = [cl.compile(p) for p in progs] if mode != "eager" else None
    bad = None
    if mode == "failing":
        from checks.c09 import BoomAt

        bad = BoomAt(k, progs[0])
    whole = mode == "whole" or (mode in ("failing", "jobs", "disagree") and k.work(2))
    held = {}

    def client(i):
        p = progs[i]
        try:
            if mode == "eager":
                import mplang as mp

                out = mp.evaluate(p.fn(), context=cl.interp)
            elif whole:
                futs = [cl.driver.submit(r, traced[i].graph, [], f"job-{i}")
                        for r in range(n)]
                out = cl.driver.collect(futs)
            else:
                import mplang as mp

                out = mp.evaluate(traced[i], context=cl.interp)
        except Exception:
            if mode == "disagree":
                k.probe("disagreed")
                return
            if bad is not None and bad.fired:
                k.probe("failed")
                return
            raise
        held[i] = out

    js = [go(k, lambda i=i: client(i), f"client{i}") for i in range(many)]
    join_all(k, js, 60_000.0, "the programs")
    raise_unexpected(k, js)
    if wire.fetches:
        k.fail("value-leaked", f"values left their party before anyone fetched: "
               f"{wire.fetches[:4]}")

    def fetch():
        for i, out in held.items():
            got = cl.gather(traced[i], out) if whole else cl.fetch(out)
            spmd.compare(k, got, progs[i].expect(), f"program {i}")
            k.probe("fetched")
            want = sum(1 for row in progs[i].expect() for v in row if v is not None)
            if len(wire.fetches) > want:
                k.fail("value-leaked", f"{len(wire.fetches)} values fetched for {want} "
                       "results")
            del wire.fetches[:]
        cl.close()

    j = go(k, fetch, "fetcher")
    join_all(k, [j], 60_000.0, "fetching")
    raise_unexpected(k, [j])
    wire.check(progs, 1, not (bad and bad.fired) and mode != "disagree")


VARIANTS = {m: Variant(lambda k, m=m: run(k, m), 0) for m in PLAN}
