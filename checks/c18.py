"""C18: two-party protocols compute exactly their function, between exactly the
parties named, and hide what they are there to hide."""

import hashlib
import warnings

import coincurve
import numpy as np
from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives.ciphers.aead import AESGCM

import mplang as mp
import mplang.edsl as el
import mplang.edsl.typing as elt
from checks import c17, spmd, views
from checks.common import Variant, go, join_all, net_faults, raise_unexpected, stalls
from mplang.backends import bfv_impl
from mplang.backends.tensor_impl import TensorValue
from mplang.dialects import dtypes, simp, tensor
from mplang.edsl.registry import get_impl, register_impl
from mplang.libs.mpc.analytics import groupby, permutation
from mplang.libs.mpc.ot import base as ot
from mplang.libs.mpc.ot import extension
from mplang.libs.mpc.psi import oprf, rr22, unbalanced
from mplang.libs.mpc.vole import gilboa, silver
from sim import kernel as K

PLAN = {"ot": (100, 2500), "perm": (50, 1200), "psi": (90, 2500), "groupby": (50, 1000),
        "homomorphic": (20, 300), "extension": (4, 60), "oprf": (4, 60), "vole": (3, 60),
        "silver": (2, 30), "rr22": (5, 60)}
LEVEL = "exploration"
RULE = ("Random inputs, roles and sizes for oblivious transfer, permutation, private set "
        "intersection, group-by sums, OT extension, OPRF and VOLE among 2 to 4 parties, one or "
        "several at once, eagerly or compiled, on both transports. Results compared with the "
        "ideal function; messages searched for inputs and attacked with the receiver's keys.")
REAL = ["protocol libraries, crypto, field, tensor and BFV backends with the Python kernels",
        "tracer, host and worker interpreters, SIMP drivers and workers on both transports",
        "secp256k1 and AES-GCM (coincurve, cryptography), SEAL (TenSEAL), JAX/XLA"]
STUB = ["clock, OS threads, event loop, network, os.urandom (simulated)",
        "inputs produced by a harness primitive", "XLA compilation memoised by program text",
        "native kernels absent: the shipped Python fallback runs"]
ASSUMPTIONS = ["an input is recognised by 8 consecutive bytes of an element",
               "SEAL draws its own randomness",
               "negligible-probability protocol failures do not occur"]
MUST_PROBE = ["transfer", "switch", "concurrent", "traced", "eager", "http", "mem", "list",
              "padded", "unbalanced", "intersecting", "disjoint", "shuffled",
              "ot-extension", "oprf", "vole", "silver", "psi", "unsigned", "narrow",
              "attacked", "attacked-base", "again", "many-items"]

val_p = el.Primitive("vt.val")


@val_p.def_abstract_eval
def _(in_types, *, key, dtype, shape):
    return elt.TensorType(dtypes.from_dtype(np.dtype(dtype)), tuple(shape))


@val_p.def_impl
def _(interp, op, *args):
    return TensorValue(K.CURRENT.vals[op.attrs["key"]].copy())


class Case:
    """One protocol execution: what it computes and who may send what to whom."""

    def __init__(self, k, n, tag):
        self.k, self.n, self.tag = k, n, tag
        self.secrets = []       # arrays whose elements must never be seen on the wire
        self.pairs = set()
        self.want = []          # (party, array)
        self.opened = None      # OT: (receiver, {elements the receiver may open})
        self.base = False       # built on base transfers of seeds
        self.hidden = []        # (party, array, mask): elements the party must not learn
        self.private = []       # (party, array of small numbers) the party must not hold
        self.nv = 0

    def two(self):
        s = self.k.work(self.n)
        r = (s + 1 + self.k.work(self.n - 1)) % self.n
        self.s, self.r = s, r
        self.pairs |= {(s, r), (r, s)}
        return s, r

    def rand(self, *shape, dtype=np.uint64):
        self.nv += 1
        n = int(np.prod(shape)) * np.dtype(dtype).itemsize
        b = hashlib.shake_256(f"{self.tag}/{self.nv}/{self.k.work(1 << 30)}".encode()).digest(n)
        return np.frombuffer(b, dtype=dtype).reshape(shape).copy()

    def ints(self, bound, n, dtype=np.int64):
        return np.array([self.k.work(bound) for _ in range(n)], dtype=dtype)

    def hide(self, party, arr, mask=None):
        self.hidden.append((party, arr, np.ones(len(arr), bool) if mask is None else mask))

    def val(self, party, arr, secret=False):
        key = len(self.k.vals)
        self.k.vals[key] = arr
        if secret:
            self.secrets.append(arr)
        d, sh = str(arr.dtype), tuple(arr.shape)
        return lambda: simp.pcall_static(
            (party,), lambda: val_p.bind(key=key, dtype=d, shape=sh))


# ------------------------------------------------------------------- protocols
def c_ot(c):
    """One transfer or one 2x2 switch of a vector of messages."""
    k = c.k
    s, r = c.two()
    m = [1 + k.work(4), 16 + k.work(4)][k.work(8) == 0]
    dt = [np.int64, np.uint64, np.int32, np.float64][k.work(4)]
    shape = (m,) if k.work(3) else (m, 1 + k.work(2))
    if dt is np.float64:
        a, b = (c.rand(*shape, dtype=np.int64).astype(dt) for _ in "ab")
    else:
        a, b = c.rand(*shape, dtype=dt), c.rand(*shape, dtype=dt)
    bits = c.ints(2, int(np.prod(shape)), [np.int64, np.uint8, np.int32][k.work(3)]).reshape(shape)
    fa, fb, fc = c.val(s, a, True), c.val(s, b, True), c.val(r, bits)
    switch = k.work(3) == 0
    pick = np.where(bits == 1, b, a)
    if bits.size >= 16:
        c.private += [(s, bits), (s, 1 - bits)]
    if not switch:
        c.hide(r, a.ravel(), bits.ravel() == 1)
        c.hide(r, b.ravel(), bits.ravel() != 1)
        k.probe("transfer")
        c.want = [(r, pick)]
        c.opened = (s, r, {x.tobytes() for x in pick.ravel()},
                    {x.tobytes() for x in np.where(bits == 1, a, b).ravel()})
        return lambda: [ot.transfer(fa(), fb(), fc(), s, r)]
    k.probe("switch")
    c.want = [(r, pick), (r, np.where(bits == 1, a, b))]
    return lambda: list(permutation.secure_switch(fa(), fb(), fc(), s, r))


def shuffled(k, n):
    p = list(range(n))
    for i in range(n - 1, 0, -1):
        j = k.work(i + 1)
        p[i], p[j] = p[j], p[i]
    return np.array(p, dtype=[np.int64, np.int32][k.work(2)])


def c_perm(c):
    k = c.k
    s, r = c.two()
    n = 1 + k.work(8)
    perm = shuffled(k, n)
    fp = c.val(r, perm)
    if n >= 6 and len(set(np.diff(perm))) > 2:
        c.private += [(s, perm), (s, np.argsort(perm))]
    if n & (n - 1) or n == 1:
        k.probe("padded")
    if k.work(4) == 0:
        k.probe("list")
        data = c.rand(n, dtype=np.int64)
        fs = [c.val(s, np.array(x), True) for x in data]
        c.want = [(r, data[i]) for i in perm]
        return lambda: permutation.apply_permutation([f() for f in fs], fp(), s, r)
    data = c.rand(n, dtype=[np.int64, np.uint64, np.int32][k.work(3)])
    fd = c.val(s, data, True)
    c.want = [(r, data[perm])]
    return lambda: [permutation.apply_permutation(fd(), fp(), s, r)]


def sets(c, a, b):
    """Two sets of a and b items, sharing some, in any order."""
    k = c.k
    pool = c.rand(a + b)
    if k.work(4) == 0:
        pool &= np.uint64((1 << 16) - 1)
        pool = np.unique(pool)
    common = [0, min(a, b), k.work(min(a, b) + 1)][k.work(3)]
    x = pool[:a]
    y = np.concatenate([pool[:common], pool[len(x):len(x) + b - common]])[:b]
    if k.work(3) == 0 and len(x) > 1:
        x[-1] = 0
    x, y = x[shuffled(k, len(x))], y[shuffled(k, len(y))]
    k.probe("intersecting" if np.isin(y, x).any() else "disjoint")
    return x, y


def c_psi(c):
    s, r = c.two()
    k = c.k
    a, b = 1 + k.work(24), 1 + k.work(12)
    if k.work(12) == 5:
        a, b = 100 + k.work(300), 30 + k.work(100)
        k.probe("many-items")
    x, y = sets(c, a, b)
    if k.work(5) == 0:
        y[-1] = y[0]                    # the client may ask twice
    c.pairs = {(s, r)}
    c.hide(r, x, ~np.isin(x, y))
    c.hide(s, y, ~np.isin(y, x))
    fx, fy = c.val(s, x, True), c.val(r, y, True)
    k.probe("unbalanced")
    c.want = [(r, np.isin(y, x).astype(np.uint8))]
    return lambda: [unbalanced.psi_unbalanced(s, r, len(x), len(y), fx(), fy())]


def sums(data, bins, kk):
    w = np.zeros(kk, dtype=data.dtype)
    np.add.at(w, bins, data)
    return w


def c_groupby(c):
    k = c.k
    s, r = c.two()
    h = next(i for i in range(c.n) if i not in (s, r))
    c.pairs |= {(s, h), (r, h), (h, r)}
    n, kk = 1 + k.work(6), 1 + k.work(4)
    data = c.rand(n, dtype=np.int64) >> 8
    how = k.work(6)
    if how < 2:
        k.probe("unsigned")
        data = c.rand(n, dtype=np.uint64) >> np.uint64(how)
    elif how == 2:
        k.probe("narrow")
        data = c.ints(1 << 15, n, np.int32)
    bins = c.ints(kk, n)
    fd, fb = c.val(s, data, True), c.val(r, bins)
    k.probe("shuffled")
    c.want = [(r, sums(data, bins, kk))]
    c.hide(h, data)
    c.hide(r, data, ~np.isin(data, c.want[0][1]))
    if n >= 6 and kk > 2 and len(set(np.diff(bins))) > 2:
        c.private.append((s, bins))
    return lambda: [groupby.oblivious_groupby_sum_shuffle(fd(), fb(), kk, s, r, h)]


def c_bfv(c):
    k = c.k
    s, r = c.two()
    n, kk = 1 + k.work(6), 1 + k.work(3)
    if k.work(4) == 0:
        n = 2040 + k.work(16)           # around a ciphertext's row
    data = np.array([k.work(60) - 25 for _ in range(n)], dtype=np.int64)
    bins = c.ints(kk, n)
    fd, fb = c.val(s, data), c.val(r, bins)
    c.want = [(r, sums(data, bins, kk))]
    return lambda: [groupby.oblivious_groupby_sum_bfv(fd(), fb(), kk, s, r)]


def pack16(x):
    return x.view(np.uint8).reshape(-1, 16)


def c_extended(c, how):
    """The protocols built on 128 base transfers."""
    k = c.k
    s, r = c.two()
    c.base = True
    n = 1 + k.work(5)
    if how == "extension":
        n = [n, 16 + k.work(6)][k.work(2)]
        d = [16, 32, 5][k.work(3)]
        a, b = c.rand(n, d, dtype=np.uint8), c.rand(n, d, dtype=np.uint8)
        bits = c.ints(2, n, np.uint8)
        fa, fb, fc = c.val(s, a, d >= 8), c.val(s, b, d >= 8), c.val(r, bits)
        k.probe("ot-extension")
        c.want = [(r, np.where(bits[:, None] == 1, b, a))]
        c.hide(r, a, bits == 1)
        c.hide(r, b, bits != 1)
        if n >= 16:
            c.private += [(s, bits), (s, 1 - bits)]
        return lambda: [extension.transfer_extension(fa(), fb(), fc(), s, r, n)]
    if how == "oprf":
        x = c.rand(n, 16, dtype=np.uint8)
        same = c.ints(2, n)
        y = np.where(same[:, None] == 1, x, c.rand(n, 16, dtype=np.uint8))
        fx, fy, f0 = c.val(r, x, True), c.val(s, y, True), c.val(s, y[0].copy())
        k.probe("oprf")
        c.hide(s, x, same == 0)
        c.hide(r, y, same == 0)

        def run():
            key, out = oprf.eval_oprf(fx(), s, r, n)
            return [out, oprf.sender_eval_prf_batch(key, fy(), s, n),
                    oprf.sender_eval_prf(key, f0(), s)]

        def judge(out, batch, one):
            out, batch, one = out[r], batch[s], one[s]
            if out.shape != (n, 32) or batch.shape != (n, 32) or one.shape != (32,):
                return f"shapes {out.shape} {batch.shape} {one.shape}"
            eq = (out == batch).all(axis=1)
            if not np.array_equal(eq, same == 1):
                return f"outputs agree on rows {eq}, items on {same}"
            if not np.array_equal(one, batch[0]):
                return "single and batch evaluation differ"

        c.want = judge
        return run
    if how == "vole":
        u, d = c.rand(n, 2), c.rand(2)
        fu = c.val(s, u, True)
        fd = c.val(r, d, True)
        keys = len(k.vals) - 2, len(k.vals) - 1
        c.hide(r, u)
        c.hide(s, d[None])
        k.probe("vole")

        def run():
            return list(gilboa.vole(
                s, r, n, lambda: val_p.bind(key=keys[0], dtype="uint64", shape=(n, 2)),
                lambda: val_p.bind(key=keys[1], dtype="uint64", shape=(2,)), return_secrets=True))

        def judge(v, w, uu, dd):
            v, w, uu, dd = v[s], w[r], uu[s], dd[r]
            if not np.array_equal(uu, u) or not np.array_equal(dd, d):
                return "secrets are not the ones provided"
            if not np.array_equal(w, v ^ gf(u, np.broadcast_to(d, u.shape))):
                return "w != v + u * delta"

        c.want = judge
        return run
    if how == "silver":
        n = 65 + k.work(150)
        k.probe("silver")

        def judge_noisy(v, w, u, d):
            v, w, u, d = v[s], w[r], u[s], d[r]
            if not v.shape == w.shape == u.shape == (n, 2) or d.shape != (2,):
                return f"shapes {v.shape} {w.shape} {u.shape} {d.shape}"
            off = (w != v ^ gf(u, np.broadcast_to(d, u.shape))).any(axis=1).sum()
            if not 1 <= off <= 64:
                return f"w != v + u * delta in {off} of {n} places, 64 are noise"
            if len(np.unique(v, axis=0)) < n * 3 // 4 or len(np.unique(u, axis=0)) < n * 3 // 4:
                return "elements repeat"

        c.want = judge_noisy
        return lambda: list(silver.silver_vole(s, r, n, return_secrets=True))
    if k.work(3) == 0:
        n = 250 + k.work(100)       # enough for short digests to collide
        k.probe("many-items")
    x, y = sets(c, n, n)
    if len(x) != len(y):
        x, y = c.rand(n), c.rand(n)
    fx, fy = c.val(s, x, True), c.val(r, y, True)
    c.hide(r, x, ~np.isin(x, y))
    c.hide(s, y, ~np.isin(y, x))
    k.probe("psi")
    c.want = [(r, np.isin(y, x).astype(np.uint8))]
    return lambda: [rr22.psi_intersect(s, r, len(x), fx(), fy())]


def gf(a, b):
    """GF(2^128) with x^128 + x^7 + x^2 + x + 1, little-endian words."""
    out = np.zeros_like(a)
    for i in range(len(a)):
        p = int(a[i, 0]) | int(a[i, 1]) << 64
        q = int(b[i, 0]) | int(b[i, 1]) << 64
        z = 0
        while q:
            if q & 1:
                z ^= p
            q >>= 1
            p <<= 1
            if p >> 128:
                p = (p & ((1 << 128) - 1)) ^ 0x87
        out[i] = z & ((1 << 64) - 1), z >> 64
    return out


# -------------------------------------------------------------------- the wire
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = coincurve.PublicKey.from_valid_secret((1).to_bytes(32, "big"))


def secret_key(v):
    """A message carrying a homomorphic secret key."""
    if isinstance(v, (list, tuple)):
        return any(secret_key(x) for x in v)
    if isinstance(v, getattr(bfv_impl, "BFVSecretContextValue", ())):
        return True
    ctx = getattr(v, "ts_ctx", None)
    return ctx is not None and ctx.has_secret_key()


def points(v):
    """The curve points a message consists of."""
    if hasattr(v, "coincurve_key"):
        return [v.coincurve_key]
    if hasattr(v, "unwrap"):
        v = v.unwrap()
    if isinstance(v, np.ndarray) and v.dtype == object:
        v = v.ravel().tolist()
    if isinstance(v, (list, tuple)):
        return [p for x in v for p in points(x)]
    return []


def sealed(v):
    if type(v).__name__ == "BytesValue":
        return [v.unwrap()]
    if hasattr(v, "unwrap"):
        v = v.unwrap()
    if isinstance(v, np.ndarray) and v.dtype == object:
        v = v.ravel().tolist()
    if isinstance(v, (list, tuple)):
        return [p for x in v for p in sealed(x)]
    return []


def leaves(v):
    if hasattr(v, "unwrap"):
        v = v.unwrap()
    if isinstance(v, np.ndarray) and v.dtype == object:
        return [b for x in v.ravel().tolist() for b in leaves(x)]
    try:
        return c17.leaves(v)
    except (TypeError, ValueError):
        return []


def inspect(k, wire, cases, draws, bfv):
    allowed = set().union(*[c.pairs for c in cases])
    index = {}
    for c in cases:
        for a in c.secrets:
            if a.dtype == np.uint8:
                els = [r.tobytes() for r in a.reshape(-1, a.shape[-1])]
            else:
                els = [x.tobytes() for x in a.ravel()]
            for b in els:
                for i in range(0, len(b) - 7, 8):
                    if len(set(b[i:i + 8])) > 5:
                        index[b[i:i + 8]] = c.tag
    pool = np.frombuffer(b"".join(index), np.uint64) if index else None
    for s, d, v in wire.sent:
        if (s, d) not in allowed:
            k.fail("stranger", f"party {s} sent party {d} a message: {type(v).__name__}")
        if secret_key(v):
            k.fail("key-on-wire", f"party {s} sent party {d} its secret key")
        for b in leaves(v):
            if pool is not None:
                w = views.words(np.frombuffer(b, np.uint8))
                hit = w[np.isin(w, pool)]
                if len(hit):
                    k.fail("plaintext-on-wire", f"party {s} sent party {d} an input of job "
                           f"{index[hit[0].tobytes()]} in the clear")
    seen = {}
    for s, d, v in wire.sent:
        for p in points(v):
            b = p.format()
            if (s, d, b) in seen:
                k.fail("repeated-randomness", f"party {s} sent party {d} the same point twice")
            seen[s, d, b] = 1
    if not bfv:     # its public parameters travel with every object
        seen = set()
        for s, d, v in wire.sent:
            for b in leaves(v):
                if len(b) >= 16 and len(set(b)) >= 12:
                    if (s, d, b) in seen:
                        k.fail("repeated-randomness", f"party {s} sent party {d} the same "
                               f"masked bytes twice ({type(v).__name__})")
                    seen.add((s, d, b))
    seen = {}
    for _, d, v in wire.sent:
        seen.setdefault(d, []).extend(views.arrays(v))
    for q in range(k.n):
        seen[q] = views.distinct(seen.get(q, []) + views.SEEN[0].get(q, []))
    for c in cases:
        if c.opened:
            attack(k, wire, c, draws)
        if c.base:
            attack_base(k, wire, draws)
        for q, a, mask in c.hidden:
            how = views.learns(seen[q], a, mask)
            if how:
                k.fail("learns-input", f"party {q} learns an input of job {c.tag} it is not "
                       f"entitled to, {how}")
        for q, a in c.private:
            if views.holds(seen[q], a):
                k.fail("learns-choice", f"party {q} holds a choice of another party of job "
                       f"{c.tag}: {a!r}")


def attack(k, wire, c, draws):
    """Everything the receiver of a transfer can derive from its own random numbers
    and what it was sent must open the chosen messages only."""
    s, r, mine, other = c.opened
    ks = [int.from_bytes(b, "big") % N for b in draws.get(r, []) if len(b) == 32][:6]
    us = [p for a, b, v in wire.sent if (a, b) == (s, r) for p in points(v)][:12]
    cts = [x for a, b, v in wire.sent if (a, b) == (s, r) for x in sealed(v)][:12]
    keys = set()
    for x in ks:
        for e in {x, (N - x) % N, (1 - x) % N, (2 - x) % N} | {(y - x) % N for y in ks}:
            if not e:
                continue
            for u in us:
                p = u.multiply(e.to_bytes(32, "big"))
                keys.add(hashlib.sha256(p.format(compressed=False)).digest())
    opened = 0
    for key in sorted(keys):
        a = AESGCM(key)
        for ct in cts:
            try:
                pt = a.decrypt(ct[:12], ct[12:], None)
            except (InvalidTag, ValueError):
                continue
            opened += 1
            for x in other - mine:
                if x in pt:
                    k.fail("unchosen-opened", f"party {r} can read a message it did not choose")
    if opened:
        k.probe("attacked")


def attack_base(k, wire, draws):
    """The same for the transfers the extension is based on: a party that is sent
    points and pairs of masked seeds may open one of each pair."""
    for q in sorted(draws):
        ks = [int.from_bytes(b, "big") % N for b in draws[q] if len(b) == 32]
        for p in sorted(draws):
            if p == q or not ks:
                continue
            rows = {b[i:i + 32] for b in draws[p] if len(b) > 64 for i in range(0, len(b), 32)}
            got = [a for s, d, v in wire.sent if (s, d) == (p, q) for a in views.arrays(v)
                   if a.dtype == np.uint8 and a.ndim == 2]
            us = [a for a in got if a.shape[1] == 65]
            cs = [a for a in got if a.shape[1] == 32]
            for u in us:
                for i in sorted({0, 1, len(u) - 1} & set(range(len(u)))):
                    try:
                        pt = coincurve.PublicKey(u[i].tobytes())
                    except ValueError:
                        continue
                    es = {e for x in ks for e in [x, N - x] + [
                        (y - x) % N for y in ks[:2] + ks[-2:]]} - {0}
                    keys = {hashlib.sha256(pt.multiply(e.to_bytes(32, "big")).format(
                        compressed=False)).digest() for e in es}
                    opened = set()
                    for key in keys:
                        m = np.frombuffer(key, np.uint8)
                        for c in cs:
                            if len(c) == len(u):
                                x = (c[i] ^ m).tobytes()
                                if x in rows:
                                    opened.add(x)
                    if opened:
                        k.probe("attacked-base")
                    if len(opened) > 1:
                        k.fail("unchosen-opened", f"party {q} can open both seeds of base "
                               f"transfer {i} with party {p}")


# -------------------------------------------------------------------- the runs
def plain(v):
    return np.asarray(v.unwrap() if hasattr(v, "unwrap") else v)


def exact(a):
    return [x.item() if hasattr(x, "item") else x for x in np.asarray(a).ravel()]


def judge(k, c, out):
    if callable(c.want):
        why = c.want(*[[None if x is None else plain(x) for x in row] for row in out])
        if why:
            k.fail("wrong-result", f"job {c.tag}, parties {c.s} and {c.r}: {why}")
        return
    if len(out) != len(c.want):
        k.fail("wrong-result", f"job {c.tag} has {len(out)} results, not {len(c.want)}")
    for row, (party, want) in zip(out, c.want):
        for q, x in enumerate(row):
            if q != party:
                if x is not None:
                    k.fail("wrong-party", f"job {c.tag}: party {q} has a result")
            elif x is None or plain(x).shape != np.shape(want) or exact(
                    plain(x)) != exact(want):
                k.fail("wrong-result", f"job {c.tag} from party {c.s} to {c.r}: "
                       f"{None if x is None else plain(x)!r}, expected {want!r}")


def run(k, make, least=2, wide=True, http=True, many=3):
    warnings.simplefilter("ignore")
    getattr(bfv_impl, "clear_keygen_cache", lambda: None)()
    c17.WIRE[0] = None
    k.vals = {}
    views.SEEN[0] = {}
    n = least + k.work(3 if wide else 2)
    k.n = n
    wire = c17.Wire(k)
    draws = {}

    def hook(length, b):
        t = K.current_task()
        r = RANK.get(id(t))
        if r is not None:
            draws.setdefault(r, []).append(b)

    cases = [Case(k, n, i) for i in range(1 + k.work(many) // 2)]
    progs = [make(c) for c in cases]
    if len(cases) > 1:
        k.probe("concurrent")
    compiled = k.work(2)
    together = k.work(2) or not compiled        # in one program
    over = http and k.work(3) == 0
    stalls(k)
    if over:
        k.probe("http")
        net_faults(k, ["slow"], 0.05)
        cl = spmd.HttpCluster(k, n)
        wire.http()
    else:
        k.probe("mem")
        wire.mem()
        cl = spmd.MemCluster(k, n)
    spmd.OBSERVER[0] = None
    k.urandom_hook = hook
    RANK.clear()

    def parts():
        if together:
            return [lambda: [x for p in progs for x in p()]]
        return progs

    # a compiled program draws its randomness when it runs, each time anew
    times = 2 if compiled and k.work(2) else 1

    def one(f):
        return [once(f) for _ in range(times)]

    def once(f):
        if compiled:
            out = mp.evaluate(f, context=cl.interp)
        else:
            k.probe("eager")
            with cl.interp:
                out = f()
        return [mp.fetch(x, context=cl.interp) for x in out]

    def trace():
        return [mp.compile(f, context=cl.interp) for f in parts()]

    work = parts()
    if compiled:
        k.probe("traced")
        j = go(k, trace, "compiler")
        join_all(k, [j], 60_000.0, "compilation")
        raise_unexpected(k, [j])
        work = j.value
    js = [go(k, lambda f=f: one(f), f"client{i}") for i, f in enumerate(work)]
    join_all(k, js, 60_000.0, "the protocols")
    raise_unexpected(k, js)
    if times > 1:
        k.probe("again")
    for outs in zip(*(j.value for j in js), strict=True):
        if together:
            flat, outs = outs[0], []
            for c in cases:
                m = len(c.want) if not callable(c.want) else len(flat)
                outs.append(flat[:m])
                flat = flat[m:]
        for c, o in zip(cases, outs, strict=True):
            judge(k, c, o)
    j = go(k, cl.close, "closer")
    join_all(k, [j], 60_000.0, "closing")
    inspect(k, wire, cases, draws, make is c_bfv)


RANK = {}       # task drawing random numbers: its party


def owned(op):
    """Let random numbers drawn by an operation be known as its party's."""
    real = get_impl(op)

    def impl(interp, *a):
        t = id(K.current_task())
        RANK[t] = getattr(interp.get_dialect_state("simp"), "rank", None)
        try:
            return real(interp, *a)
        finally:
            del RANK[t]

    register_impl(op, impl)


for _op in ("crypto.ec_random_scalar", "crypto.random_bytes"):
    owned(_op)
views.watch()

VARIANTS = {
    "ot": Variant(lambda k: run(k, c_ot), 0),
    "perm": Variant(lambda k: run(k, c_perm, wide=False), 0),
    "psi": Variant(lambda k: run(k, c_psi), 0),
    "groupby": Variant(lambda k: run(k, c_groupby, least=3, wide=False), 0),
    "homomorphic": Variant(lambda k: run(k, c_bfv, many=1), 0),
    **{m: Variant(lambda k, m=m: run(k, lambda c: c_extended(c, m), many=1), 0)
       for m in ("extension", "oprf", "vole", "silver", "rr22")},
}
