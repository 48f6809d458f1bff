"""C17: device programs compute the plain result wherever values are placed, and
what a placement hides from other parties never crosses in the clear."""

import base64
import hashlib
import json

import jax.extend as jxt
import jax.numpy as jnp
import numpy as np

import mplang as mp
from checks import c16, spmd
from checks.common import Variant, go, join_all, net_faults, how_many, raise_unexpected, stalls
from mplang.backends import spu_impl, tee_impl  # noqa: F401
from mplang.backends.simp_worker import mem as M
from mplang.edsl import serde
from mplang.libs import device as D
from mplang.libs.device import api
from sim import simos

PLAN = {"mem": (190, 3000), "http": (190, 3000), "jobs": (190, 3000)}
LEVEL = "exploration"
RULE = ("Random device programs over 2 to 4 parties: plain devices, up to two secure groups "
        "sharing parties in any order, up to two enclaves; values put, moved, computed on with "
        "explicit or inferred placement and automatic transfer, eagerly and compiled, alone or "
        "several at once. Results compared with NumPy; every message between parties decoded and "
        "searched for the content of values.")
REAL = ["device API, cluster spec, SIMP drivers and workers on both transports, interpreter",
        "enclave sessions (mock attestation), X25519, HKDF, AES-GCM",
        "SPU state, link construction and channels over the communicators", "JAX/XLA execution"]
STUB = ["libspu kernels and links: additive shares evaluated by JAX, yacl's naming of links and "
        "message tags", "clock, OS threads, event loop, network (simulated)",
        "XLA compilation memoised by program text",
        "X25519 key generation draws from simulated randomness"]
ASSUMPTIONS = ["a value is recognised by 8 consecutive bytes of its content (values with small "
               "or repeated elements are not searched for)",
               "libspu links behave as yacl documents (child id = parent id + counter)"]
MUST_PROBE = ["ppu>ppu", "ppu>spu", "spu>ppu", "ppu>tee", "tee>ppu", "tee>spu", "spu>tee",
              "inferred", "ambiguous", "compiled", "eager", "shared-party", "encrypted", "fetched", "scalar"]


# --------------------------------------------------------------- computations
def f_add(a, b):
    return a + b


def f_mix(a, b):
    return a * 3 - b


def f_pair(a, b):
    return {"x": a ^ b, "y": [a + 1]}


def f_one(a):
    return a * 5 + 7


def f_rev(a):
    return a[::-1] if a.ndim else a


def f_sum(a):
    return a.sum(dtype=a.dtype)


def f_three(a, b, c):
    return (a - b) ^ c


def f_scaled(a, b, k=1):
    return a * k + b


FNS = {f_add: 2, f_mix: 2, f_pair: 2, f_one: 1, f_rev: 1, f_sum: 1, f_three: 3, f_scaled: 2}
LEN = 4


# ---------------------------------------------------------------- the program
class Prog:
    """steps: ("put", v, dev, val) | ("move", v, src, dev) | ("run", [v..], fn, [ins], how, dev)"""

    def __init__(self, k, spec, size, tag):
        self.spec = spec
        self.steps = []
        self.val = {}
        self.dev = {}
        self.clear = set()      # (src rank, dst rank, bytes)
        self.k = k
        self.tag = tag
        self.nv = self.nf = 0
        kinds = {d: spec.devices[d].kind.upper() for d in spec.devices}
        self.kinds = kinds
        devs = sorted(spec.devices)
        w = k.work
        for _ in range(1 + w(2)):
            self.put(devs[w(len(devs))])
        for _ in range(size):
            c = w(10)
            if c < 2:
                self.put(devs[w(len(devs))])
            elif c < 5:
                v = self.pick()
                to = devs[w(len(devs))]
                if self.can(self.dev[v], to):
                    o = self.new()
                    self.steps.append(("move", o, v, to))
                    self.place(o, to, self.move_value(v, to))
            else:
                fn = list(FNS)[w(len(FNS))]
                ins = [self.pick() for _ in range(FNS[fn])]
                infer = w(3) == 0
                if infer:
                    dev = self.infer(ins)
                else:
                    dev = devs[w(len(devs))]
                if dev is not None and not all(self.can(self.dev[v], dev) for v in ins):
                    continue
                host = None
                kw = {}
                if fn is f_scaled:
                    kw = {"k": 2 + w(5)}
                elif FNS[fn] > 1 and dev is not None and w(4) == 0:
                    host = self.fresh()     # one operand is a plain host value
                    if not infer:
                        ins = ins[:-1]
                    else:
                        host = None
                self.run(fn, ins, infer, dev, host, kw)

    def fresh(self):
        self.nf += 1
        h = hashlib.sha256(f"{self.tag}/{self.nf}".encode()).digest()
        c = self.k.work(8)
        x = np.frombuffer(h, dtype=np.int64 if c in (5, 6) else np.int32)
        if c in (6, 7):
            self.k.probe("scalar")
            return x[:1].reshape(()).copy()
        return x[:LEN].copy()

    def new(self):
        self.nv += 1
        return self.nv - 1

    def pick(self):
        return self.k.work(self.nv)

    def place(self, v, dev, val):
        self.dev[v] = dev
        self.val[v] = val

    def put(self, dev):
        v = self.new()
        x = self.fresh()
        self.steps.append(("put", v, dev, x))
        self.place(v, dev, x)

    def can(self, a, b):
        ka, kb = self.kinds[a], self.kinds[b]
        return a == b or (ka, kb) not in (("SPU", "SPU"), ("TEE", "TEE"))

    def rank(self, dev):
        return self.spec.devices[dev].members[0].rank

    def move_value(self, v, to):
        a = self.dev[v]
        if a != to:
            self.k.probe(f"{self.kinds[a]}>{self.kinds[to]}".lower())
        if self.kinds[a] == self.kinds[to] == "PPU" and a != to:
            self.clear.add((self.rank(a), self.rank(to), self.val[v].tobytes()))
        return self.val[v]

    def infer(self, ins):
        ds = {self.dev[v] for v in ins}
        if len(ds) == 1:
            return ds.pop()
        sec = [d for d in ds if self.kinds[d] != "PPU"]
        return sec[0] if len(sec) == 1 else None

    def run(self, fn, ins, infer, dev, host, kw):
        if dev is None:
            self.steps.append(("bad", fn, ins, kw))
            return
        vals = [self.move_value(v, dev) for v in ins]
        if host is not None:
            vals.append(host)
        with np.errstate(all="ignore"):
            res = fn(*vals, **kw)
        outs = []
        flat = [res["x"], res["y"][0]] if fn is f_pair else [res]
        for r in flat:
            o = self.new()
            self.place(o, dev, np.asarray(r))
            outs.append(o)
        self.steps.append(("run", outs, fn, ins, infer, dev, host, kw))

    # ------------------------------------------------------------- execution
    def execute(self):
        """Emit the program through the device API; every final value on a plain
        device or an enclave (secure values are revealed to a plain device)."""
        k = self.k
        env = {}
        for s in self.steps:
            if s[0] == "put":
                env[s[1]] = D.put(s[2], s[3])
            elif s[0] == "move":
                env[s[1]] = D.put(s[3], env[s[2]])
            elif s[0] == "bad":
                _, fn, ins, kw = s
                try:
                    D.device()(fn)(*[env[v] for v in ins], **kw)
                except D.DeviceInferenceError:
                    k.probe("ambiguous")
                else:
                    k.fail("wrong-placement", "placement inferred although ambiguous: "
                           f"{[self.dev[v] for v in ins]}")
            else:
                _, outs, fn, ins, infer, dev, host, kw = s
                args = [env[v] for v in ins] + ([host] if host is not None else [])
                if infer:
                    k.probe("inferred")
                    if self.kinds[dev] == "SPU":
                        r = D.device()(fn)(*args, **kw)
                    else:
                        r = D.device().jax(fn)(*args, **kw)
                else:
                    r = D.device(dev).jax(fn)(*args, **kw)
                flat = [r["x"], r["y"][0]] if fn is f_pair else [r]
                for o, x in zip(outs, flat, strict=True):
                    env[o] = x
            if s[0] != "bad":
                for o in s[1] if s[0] == "run" else [s[1]]:
                    got = D.get_dev_attr(env[o])
                    if got != self.dev[o]:
                        k.fail("wrong-placement", f"{s[:1]} result on {got}, not {self.dev[o]}")
        return env

    def finals(self, env):
        out = {}
        for v, x in env.items():
            d = self.dev[v]
            if self.kinds[d] == "SPU":
                ppu = next(e for e in sorted(self.kinds) if self.kinds[e] == "PPU")
                x = D.put(ppu, x)
            out[v] = x
        return out


def make_spec(k, n, eps):
    w = k.work
    nodes = [{"name": f"node{i}", "endpoint": eps[i]} for i in range(n)]
    devs = {}
    for i in range(n):
        devs[f"P{i}"] = {"kind": ["PPU", "ppu"][w(2)], "members": [f"node{i}"], "config": {}}
    for i in range(w(3)):
        devs[f"TEE{i}"] = {"kind": "TEE", "members": [f"node{w(n)}"], "config": {}}
    groups = []
    for i in range(1 + w(2)):
        order = list(range(n))
        for j in range(n - 1, 0, -1):
            x = w(j + 1)
            order[j], order[x] = order[x], order[j]
        m = order[:2 + w(n - 1)]
        groups.append(m)
        proto = "ABY3" if len(m) == 3 and w(2) else "SEMI2K"
        devs[f"SP{i}"] = {"kind": "SPU", "members": [f"node{r}" for r in m],
                          "config": {"protocol": proto, "field": "FM64"}}
    if len(groups) == 2 and set(groups[0]) & set(groups[1]):
        k.probe("shared-party")
    return mp.ClusterSpec.from_dict({"nodes": nodes, "devices": devs})


# ------------------------------------------------------------------ the wire
def leaves(v):
    """Every piece of bytes a message consists of."""
    if isinstance(v, (bytes, bytearray)):
        return [bytes(v)]
    if isinstance(v, spu_impl.SPUShareValue):
        return list(v.libspu_share.share_chunks)
    if isinstance(v, tee_impl.MockQuoteValue):
        return [v.bound_pk]
    if hasattr(v, "key_bytes"):
        return [v.key_bytes]
    if hasattr(v, "unwrap"):
        return leaves(v.unwrap())
    if isinstance(v, (list, tuple)):
        return [b for x in v for b in leaves(x)]
    if isinstance(v, str):
        try:
            return [v.encode(), base64.b64decode(v, validate=False)]
        except Exception:
            return [v.encode()]
    return [np.asarray(v).tobytes()]


class Wire:
    def __init__(self, k):
        self.k = k
        self.sent = []       # (src, dst, value)

    def mem(self):
        WIRE[0] = self

    def http(self):
        self.k.net.on_deliver.append(self.see)

    def see(self, host, msg, dup):
        method, path, raw, body, src, rid = msg
        if not path.startswith("/comm/") or not src.startswith("node"):
            return
        h = {a.decode().lower(): b.decode() for a, b in raw}
        if h.get("content-type", "").startswith("application/octet-stream"):
            v = body if h.get("x-is-raw-bytes") == "1" else serde.loads_binary(body)
        else:
            d = json.loads(body)
            v = (base64.b64decode(d["data"]) if d.get("is_raw_bytes")
                 else serde.loads_b64(d["data"]))
        self.sent.append((int(src[4:].split(".")[0]), int(host.name[4:].split(".")[0]), v))

    def check(self, progs):
        k = self.k
        index = {}
        for p in progs:
            for v, x in p.val.items():
                b = x.tobytes()
                low = [18, 42][x.itemsize == 8]
                if len(set(x.ravel().tolist())) < x.size or any(
                        abs(e) < 1 << low for e in x.ravel().tolist()):
                    continue    # too plain to be recognised: a ^ (a + 1), say
                n = min(2 * x.itemsize, len(b))     # two elements: f_rev keeps single ones
                for i in range(0, len(b) - n + 1, x.itemsize):
                    index.setdefault(b[i:i + n], set()).add(b)
        clear = {}          # what this party may show that one, also as parts of results
        for p in progs:
            for s, d, x in p.clear:
                clear.setdefault((s, d), set()).add(x)

        seen = {}
        for s, d, v in self.sent:
            for b in leaves(v):
                hits = set()
                self.scan(b, index, hits)
                for part in hits:
                    if not any(part in x for x in clear.get((s, d), ())):
                        k.fail("plaintext-on-wire", f"party {s} sent party {d} {part.hex()} of "
                               f"{[x.hex() for x in index[part]]} in {type(v).__name__}")
            if type(v).__name__ == "BytesValue":
                k.probe("encrypted")
                c = v.unwrap()
                if c in seen and len(c) > 64:
                    k.fail("ciphertext-repeated", f"two transfers look the same ({s}->{d})")
                seen[c] = 1

    @staticmethod
    def scan(b, index, hits):
        if len(b) == 4:
            hits |= {b} & index.keys()
        for i in range(0, len(b) - 7):
            for n in (8, 16):
                if b[i:i + n] in index:
                    hits.add(b[i:i + n])
        # values inside textual encodings
        if len(b) > 16 and b[:1] in b"{[\"":
            try:
                text = b.decode()
            except UnicodeDecodeError:
                return
            for piece in text.replace('"', " ").replace(",", " ").split():
                if len(piece) >= 12:
                    try:
                        Wire.scan(base64.b64decode(piece), index, hits)
                    except Exception:
                        pass


# ------------------------------------------------------------------ the runs
WIRE = [None]
_done = []


def prepare():
    """Seams, once per process: compiled XLA programs are memoised, curve keys come
    from simulated entropy, in-memory messages are seen."""
    if _done:
        return
    _done.append(1)
    from cryptography.hazmat.primitives.asymmetric import x25519

    client = jxt.backend.get_backend()
    memo = c16._Client(client)
    jxt.backend.get_backend = lambda *a, **kw: memo
    X = x25519.X25519PrivateKey
    X.generate = classmethod(lambda cls: cls.from_private_bytes(simos.sim_urandom(32)))
    real = M.ThreadCommunicator.send

    def send(self, to, key, data, *a, **kw):
        if WIRE[0] is not None:
            WIRE[0].sent.append((self.rank, to, data))
        return real(self, to, key, data, *a, **kw)

    M.ThreadCommunicator.send = send


def run(k, mode):
    import warnings

    warnings.simplefilter("ignore")
    WIRE[0] = None
    n = how_many(k, 2 + k.work(3))
    jobs = mode == "jobs"
    http = mode == "http" or (jobs and k.work(2))
    api._tee_session_cache.clear()
    eps = [f"http://127.0.0.1:{8200 + i}" for i in range(n)]
    spec = make_spec(k, n, eps)
    wire = Wire(k)
    if http:
        net_faults(k, ["slow"], 0.05)
        stalls(k)
        cl = spmd.HttpCluster(k, n)
        cl.interp._cluster_spec = spec
        wire.http()
    else:
        stalls(k)
        wire.mem()
        cl = spmd.MemCluster(k, n, cluster_spec=spec)
    many = 2 + k.work(2) if jobs else 1
    progs = [Prog(k, spec, 2 + k.work(6), i) for i in range(many)]
    compiled = jobs or k.work(2)

    times = 1 + k.work(2)

    def emit(p):
        env = p.finals(p.execute())
        return [env[v] for v in sorted(env)]

    def check(p, got):
        for v, g in zip(sorted(p.val), got, strict=True):
            w = p.val[v]
            if isinstance(g, list):
                there = [x for x in g if x is not None]
                if len(there) != 1:
                    k.fail("wrong-placement", f"value {v} held by {len(there)} parties")
                g = there[0]
            g = g.unwrap() if hasattr(g, "unwrap") else g
            a = np.asarray(g)
            if a.dtype != w.dtype or a.shape != w.shape or not np.array_equal(a, w):
                k.fail("wrong-result", f"job {p.tag}: value {v} on {p.dev[v]} is {a!r}, "
                       f"expected {w!r}; program {p.steps!r}")
            k.probe("fetched")

    def one(p, traced):
        if traced is not None:
            for _ in range(times):
                out = mp.evaluate(traced, context=cl.interp)
                check(p, [mp.fetch(x, context=cl.interp) for x in out])
        else:
            with cl.interp:
                out = emit(p)
                check(p, [mp.device_fetch(x) if D.is_device_obj(x) else mp.fetch(x) for x in out])

    def trace():
        return [mp.compile(lambda p=p: emit(p), context=cl.interp) for p in progs]

    traced = [None] * many
    if compiled:
        k.probe("compiled")
        j = go(k, trace, "compiler")
        join_all(k, [j], 60_000.0, "compilation")
        raise_unexpected(k, [j])
        traced = j.value
    else:
        k.probe("eager")
    js = [go(k, lambda i=i: one(progs[i], traced[i]), f"client{i}") for i in range(many)]
    join_all(k, js, 60_000.0, "the programs")
    raise_unexpected(k, js)
    j = go(k, cl.close, "closer")
    join_all(k, [j], 60_000.0, "closing")
    wire.check(progs)


VARIANTS = {m: Variant(lambda k, m=m: run(k, m), 0) for m in PLAN}

prepare()
