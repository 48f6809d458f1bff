"""Random SPMD programs, a reference model for them, and simulated clusters.

Programs are built with the public `simp` dialect API.  The local computations are
harness primitives (`vt.*`) whose result is an arithmetic function of their inputs,
so that every value identifies where it came from.
"""

from __future__ import annotations

import numpy as np

import mplang as mp
import mplang.edsl as el
import mplang.edsl.typing as elt
from mplang.backends.tensor_impl import TensorValue
from mplang.dialects import func, simp, tensor
from mplang.libs import collective as coll
from sim import kernel as K
from sim import loader
from sim import net as N
from sim import runner as R

P = 1_000_003


def _reset():
    import mplang.edsl.context as C

    C._context_stack.clear()
    OBSERVER[0] = None


OBSERVER = [None]
R.RESETS.append(_reset)


# ------------------------------------------------------------- local arithmetic
def lin(uid, j, m, ins):
    acc = np.full(m, (uid * 7919 + j * 104729) % P, np.int64)
    for i, x in enumerate(ins):
        acc = (acc * 31 + np.resize(np.asarray(x, np.int64).reshape(-1), m)
               * (uid + 3 * i + j + 1)) % P
    return acc


def src_value(uid, rank, m):
    return (uid * 31 + (rank + 1) * 7177 + np.arange(m) * 5) % P


def pred_value(uid, ins):
    return bool((uid + sum(int(np.asarray(x).sum()) for x in ins)) % 2)


def pred_raw(uid, ins):
    """The predicate as the program computes it: a truth value, or a number."""
    if uid % 3 == 0:
        return np.array(pred_value(uid, ins))
    x = uid + sum(int(np.asarray(x).sum()) for x in ins)
    return np.array(x if x % 2 else 0, np.int64 if uid % 3 == 1 else np.float64)


def _un(x):
    if x is None:
        raise TypeError("local computation reached a party that lacks the input")
    return np.asarray(x.unwrap())


def _vec(m):
    return elt.TensorType(elt.i64, (m,))


lin_p = el.Primitive("vt.lin")
src_p = el.Primitive("vt.src")
pred_p = el.Primitive("vt.pred")
lt_p = el.Primitive("vt.lt")
inc_p = el.Primitive("vt.inc")
boom_p = el.Primitive("vt.boom")


@lin_p.def_abstract_eval
def _(in_types, *, uid, n_out, m, slow=0.0, boom=()):
    return [_vec(m)] * n_out


@src_p.def_abstract_eval
def _(in_types, *, uid, m, ranked=True, slow=0.0):
    return _vec(m)


@pred_p.def_abstract_eval
def _(in_types, *, uid):
    return elt.TensorType((elt.bool_, elt.i64, elt.f64)[uid % 3], ())


@lt_p.def_abstract_eval
def _(in_types, *, limit):
    return elt.TensorType(elt.bool_, ())


@inc_p.def_abstract_eval
def _(in_types):
    return in_types[0]


class Boom(Exception):
    """The failure of a user computation."""


def _rank(interp):
    return interp.get_dialect_state("simp").rank


def _note(interp, what, uid):
    k = K.CURRENT
    if k is None:
        return
    r = _rank(interp)
    k.ev("op", what, uid, r)
    if OBSERVER[0] is not None:
        OBSERVER[0](what, uid, r)


@lin_p.def_impl
def _(interp, op, *args):
    k = K.CURRENT
    a = op.attrs
    ins = [_un(x) for x in args]
    _note(interp, "lin", a["uid"])
    if a["slow"] and k is not None:
        k.sleep(a["slow"] * (1 + _rank(interp) % 2))
    elif k is not None:
        k.yield_("compute")
    if _rank(interp) in a["boom"]:
        raise Boom(f"planned failure uid={a['uid']} rank={_rank(interp)}")
    outs = [TensorValue(lin(a["uid"], j, a["m"], ins)) for j in range(a["n_out"])]
    return outs if len(outs) != 1 else outs[0]


@src_p.def_impl
def _(interp, op, *args):
    k = K.CURRENT
    a = op.attrs
    _note(interp, "src", a["uid"])
    if a["slow"] and k is not None:
        k.sleep(a["slow"])
    r = _rank(interp) if a["ranked"] else -1
    return TensorValue(src_value(a["uid"], r, a["m"]))


@pred_p.def_impl
def _(interp, op, *args):
    return TensorValue(pred_raw(op.attrs["uid"], [_un(x) for x in args]))


@lt_p.def_impl
def _(interp, op, x):
    return TensorValue(np.array(bool(_un(x)[0] < op.attrs["limit"])))


@inc_p.def_impl
def _(interp, op, x):
    return TensorValue(_un(x) + 1)


def L(uid, n_out, m, *ins, slow=0.0, boom=()):
    out = lin_p.bind(*ins, uid=uid, n_out=n_out, m=m, slow=slow, boom=tuple(boom))
    return list(out) if isinstance(out, (list, tuple)) else [out]


# ----------------------------------------------------------------- generation
class Gen:
    """Generates a program: a list of steps over numbered variables."""

    def __init__(self, k, n, *, control=True, dynamic=False, shuffles=True, cyclic=True,
                 uid0=0, slow=0.0, slow_p=0, dyn_missing=True, funcs=False):
        self.k = k
        self.n = n
        self.uid = uid0
        self.vt = {}  # var -> (parties | None, m)
        self.next = 0
        self.control = control
        self.dynamic = dynamic
        self.dyn_missing = dyn_missing
        self.funcs = funcs
        self.shuffles = shuffles
        self.cyclic = cyclic
        self.slow = slow
        self.slow_p = slow_p
        self.full = tuple(range(n))

    def new(self, parties, m):
        v = self.next
        self.next += 1
        self.vt[v] = (parties, m)
        return v

    def u(self):
        self.uid += 1
        return self.uid

    def slowness(self):
        return self.slow if self.slow_p and self.k.work(self.slow_p) == 1 else 0.0

    def parties(self, within=None):
        pool = self.full if within is None else within
        if self.k.work(2) == 0:
            return tuple(pool)
        ps = tuple(r for r in pool if self.k.work(2))
        return ps or (pool[self.k.work(len(pool))],)

    def src(self, steps, parties=None, ranked=True, m=None):
        ps = parties or self.parties()
        v = self.new(ps, m or 1 + self.k.work(3))
        steps.append(("src", v, ps, self.u(), self.vt[v][1], ranked, self.slowness()))
        return v

    def covering(self, avail, parties):
        s = set(parties)
        return [v for v in avail if self.vt[v][0] is not None and s <= set(self.vt[v][0])]

    def pick(self, lst):
        return lst[self.k.work(len(lst))]

    def long(self, size):
        """`size`, or now and then a program of many steps."""
        if self.k.work(40) != 13:
            return size
        self.k.probe("long")
        self.k.max_steps *= 5
        return 25 + self.k.work(40)

    def program(self, size):
        steps = []
        some = [self.src(steps)] if self.k.work(2) else []
        avail = [self.src(steps, self.full), *some]
        self.block(steps, avail, size, 0)
        outs = sorted(set(avail[-3:] + [self.pick(avail)]))
        return Program(self.n, steps, outs, dict(self.vt))

    def block(self, steps, avail, size, depth):
        for _ in range(size):
            self.step(steps, avail, depth)

    def step(self, steps, avail, depth):
        k = self.k
        kinds = ["call", "shuf", "call", "src", "conv", "shuf", "misc", "coll", "call", "shape"]
        if self.control and depth < 2:
            kinds += ["cond", "while"]
        if self.funcs and depth < 2:
            kinds += ["func"]
        if self.dynamic:
            kinds += ["dyn"]
        c = kinds[k.work(len(kinds))]
        if c in ("shuf", "coll") and not self.shuffles:
            c = "call"
        if c == "src":
            avail.append(self.src(steps))
        elif c == "misc":
            self.misc(steps, avail)
        elif c == "coll":
            self.coll(steps, avail)
        elif c == "func":
            # a function of its arguments only, called once or twice
            ins = [self.pick([v for v in avail if self.vt[v][0] is not None])
                   for _ in range(1 + k.work(2))]
            inner = [self.new(*self.vt[v]) for v in ins]
            keep, self.funcs = self.funcs, False
            bs, ba = [], list(inner)
            if not any(self.vt[v][0] == self.full for v in inner):
                ba.insert(0, self.src(bs, self.full))
            ba.sort(key=lambda v: self.vt[v][0] != self.full)
            self.block(bs, ba, 1 + k.work(2), depth + 1)
            self.funcs = keep
            cand = [v for v in ba if self.vt[v][0] is not None]
            bo = [self.pick(cand) for _ in range(1 + k.work(2))]
            calls = []
            for _ in range(1 + k.work(2)):
                args = list(ins)
                outs = [self.new(*self.vt[v]) for v in bo]
                calls.append((args, outs))
                avail.extend(outs)
            steps.append(("func", inner, bs, bo, tuple(calls)))
        elif c == "call":
            ins = [self.pick(avail) for _ in range(1 + k.work(2))]
            ins = [v for v in ins if self.vt[v][0] is not None] or [avail[0]]
            common = set(self.full)
            for v in ins:
                common &= set(self.vt[v][0])
            if not common:
                ins = [avail[0]]
                common = set(self.full)
            ps = self.parties(tuple(sorted(common)))
            n_out = 1 + (k.work(3) == 0)
            m = 1 + k.work(3)
            outs = [self.new(ps, m) for _ in range(n_out)]
            steps.append(("call", outs, ps, ins, self.u(), m, k.work(3), self.slowness()))
            avail.extend(outs)
        elif c == "shape":
            ins = [self.pick([v for v in avail if self.vt[v][0] is not None])
                   for _ in range(1 + k.work(3))]
            ins = [v for v in ins if set(self.vt[v][0]) >= set(self.vt[ins[0]][0])]
            if sum(self.vt[v][1] for v in ins) > 24:
                ins = ins[:1]
            ps = self.parties(self.vt[ins[0]][0])
            recipe, m = self.recipe(sum(self.vt[v][1] for v in ins))
            o = self.new(ps, m)
            steps.append(("shape", o, ps, ins, recipe, m))
            avail.append(o)
        elif c == "dyn":
            ins = [self.pick(avail) for _ in range(1 + k.work(2))]
            if not self.dyn_missing:
                ins = [v for v in ins if self.vt[v][0] == self.full] or [avail[0]]
            m = 1 + k.work(3)
            o = self.new(None, m)
            steps.append(("dyn", o, ins, self.u(), m))
            # a value whose holders are only known at run time can feed further
            # dynamic calls
            avail.append(o)
        elif c == "shuf":
            cand = [v for v in avail if self.vt[v][0] is not None]
            x = self.pick(cand)
            holders = self.vt[x][0]
            shape = k.work(4)
            routing = {}
            if shape == 0 and len(holders) > 1 and self.cyclic:
                # a permutation of the holders (swap, rotation)
                s = 1 + k.work(len(holders) - 1)
                if k.work(2):       # pairs exchange
                    for a, b in zip(holders, holders[s:] + holders[:s], strict=True):
                        if a not in routing and b not in routing and a != b:
                            routing[a], routing[b] = b, a
                else:
                    for i, t in enumerate(holders):
                        routing[t] = holders[(i + s) % len(holders)]
            elif shape == 1:
                s = self.pick(list(holders))
                for t in self.parties():
                    routing[t] = s
            else:
                for t in self.parties():
                    routing[t] = self.pick(list(holders))
                if not self.cyclic:
                    low = min(routing.values())
                    routing = {t: low for t in routing}
            if k.work(2):
                routing = dict(reversed(list(routing.items())))
            o = self.new(tuple(sorted(routing)), self.vt[x][1])
            steps.append(("shuf", o, x, routing))
            avail.append(o)
        elif c == "conv":
            m = 1 + k.work(3)
            perm = list(self.full)
            cut = k.work(self.n + 1)
            groups = [g for g in (tuple(perm[:cut]), tuple(perm[cut:])) if g]
            parts = [self.src(steps, g, m=m) for g in groups]
            ps = tuple(sorted(x for g in groups for x in g))
            o = self.new(ps, m)
            if k.work(2):
                parts.reverse()
            steps.append(("conv", o, parts))
            avail.append(o)
        elif c == "cond":
            pv = self.src(steps, self.full, ranked=False)
            puid = self.u()
            if k.work(2):  # decided some steps before it is used
                at = k.work(len(steps))
                steps[at:at] = [steps.pop(), ("pred", pv, puid)]
            ins = [self.pick(avail) for _ in range(1 + k.work(2))]
            branches = []
            n_out = 1 + (k.work(3) == 0)
            sig = []
            for _ in range(n_out):
                if k.work(3) == 0:  # as some value at hand, to be returned as it is
                    sig.append(self.vt[self.pick(
                        [v for v in avail if self.vt[v][0] is not None])])
                else:
                    sig.append((self.parties(), 1 + k.work(3)))
            for _ in range(2):
                bs, ba = [], list(avail)
                self.block(bs, ba, k.work(3), depth + 1)
                bo = []
                for ps, m in sig:
                    ready = [v for v in ba if self.vt[v] == (ps, m)]
                    if ready and k.work(2):
                        bo.append(self.pick(ready))
                        continue
                    cand = [v for v in self.covering(ba, ps)]
                    o = self.new(ps, m)
                    bs.append(("call", [o], ps, [cand[-1 - k.work(min(3, len(cand)))]],
                               self.u(), m, 0, 0.0))
                    bo.append(o)
                branches.append((bs, bo))
            outs = [self.new(ps, m) for ps, m in sig]
            steps.append(("cond", outs, pv, puid, ins, *branches))
            avail.extend(outs)
        elif c == "while":
            cnt = self.new(self.full, 1)
            steps.append(("zero", cnt))
            trips = k.work(4)
            if depth == 0 and k.work(16) == 5:
                k.probe("many-iterations")
                k.max_steps *= 3
                trips = 12 + k.work(30)
            inits = [self.pick([v for v in avail if self.vt[v][0] is not None])
                     for _ in range(1 + k.work(2))]
            inner = [self.new(*self.vt[v]) for v in inits]
            inner_cnt = self.new(self.full, 1)
            bs, ba = [], list(avail) + inner
            self.block(bs, ba, k.work(3), depth + 1)
            bo = []
            for v in inner:
                ps, m = self.vt[v]
                ready = [x for x in ba if self.vt[x] == (ps, m)]
                if k.work(3) == 0:  # unchanged, another state's value, or a captured one
                    bo.append(self.pick(ready))
                    continue
                cand = self.covering(ba, ps)
                o = self.new(ps, m)
                bs.append(("call", [o], ps, [v, cand[-1 - k.work(min(3, len(cand)))]],
                           self.u(), m, 0, 0.0))
                bo.append(o)
            outs = [self.new(*self.vt[v]) for v in inits]
            steps.append(("while", outs, cnt, inits, inner_cnt, inner, bs, bo, trips))
            avail.extend(outs)

    def misc(self, steps, avail):
        """Constants, calls returning an input as it is, calls without a result."""
        k = self.k
        c = k.work(3)
        if c == 0:
            ps, m = self.parties(), 1 + k.work(3)
            o = self.new(ps, m)
            steps.append(("const", o, ps, self.u(), m))
            avail.append(o)
            return
        v = self.pick([v for v in avail if self.vt[v][0] is not None])
        ps = self.parties(self.vt[v][0])
        if c == 1:
            m = 1 + k.work(3)
            a, b = self.new(ps, self.vt[v][1]), self.new(ps, m)
            steps.append(("pass", a, b, ps, v, self.u(), m))
            avail.extend([a, b])
        else:
            steps.append(("void", ps, v, self.u()))

    def recipe(self, m):
        """Tensor operations on m numbers, and how many numbers they give."""
        k = self.k
        shape, ops = (m,), []
        for _ in range(1 + k.work(4)):
            c = k.work(5)
            if c == 0:
                n = int(np.prod(shape))
                a = self.pick([d for d in range(1, n + 1) if n % d == 0])
                shape = (a, n // a)
                ops.append(("reshape", (shape, (-1, n // a), (a, -1))[k.work(3)]))
            elif c == 1 and len(shape) == 2:
                shape = shape[::-1]
                ops.append(("transpose", (1, 0)))
            elif c == 2:
                ax = k.work(len(shape))
                idx = tuple(k.work(shape[ax]) for _ in range(1 + k.work(4)))
                shape = shape[:ax] + (len(idx),) + shape[ax + 1:]
                ops.append(("gather", idx, ax - len(shape) if k.work(2) else ax))
            elif c == 3:
                cut = []
                for d in shape:
                    a = k.work(d)
                    b = a + 1 + k.work(d - a)
                    cut.append((a - d if k.work(3) == 0 else a, b, 1 + k.work(2)))
                shape = tuple(len(range(d)[slice(*c)]) for d, c in zip(shape, cut))
                ops.append(("slice", tuple(cut)))
            else:
                ops.append(("each",))
        return tuple(ops), int(np.prod(shape))

    def coll(self, steps, avail):
        """The collective library: movements named by purpose."""
        k = self.k
        name = ("transfer", "replicate", "distribute", "collect", "allreplicate",
                "permute")[k.work(6)]
        if not self.cyclic and name in ("allreplicate", "permute"):
            name = "replicate"
        cand = [v for v in avail if self.vt[v][0] is not None]
        one = [v for v in cand if len(self.vt[v][0]) == 1]
        if name in ("transfer", "replicate"):
            v = self.pick(one) if one else self.src(steps, (k.work(self.n),))
            m = self.vt[v][1]
            if name == "transfer":
                arg = k.work(self.n)
                o = self.new((arg,), m)
            else:
                arg = self.parties()
                o = self.new(arg, m)
                if k.work(2):
                    arg = tuple(reversed(arg))
            ins, outs = [v], [o]
        elif name == "distribute":
            arg = self.vt[self.pick(one)][0][0] if one else k.work(self.n)
            m = 1 + k.work(3)
            have = [v for v in one if self.vt[v] == ((arg,), m)]
            ins = [self.pick(have) if have and k.work(2) else
                   self.src(steps, (arg,), m=m) for _ in range(1 + k.work(self.n))]
            outs = [self.new(tuple(range(len(ins))), m)]
        else:
            v = self.pick(cand)
            holders, m = self.vt[v]
            ins = [v]
            if name == "collect":
                arg = k.work(self.n)
                outs = [self.new((arg,), m) for _ in holders]
            elif name == "allreplicate":
                arg = None
                outs = [self.new(holders, m) for _ in holders]
            else:
                arg = {t: self.pick(list(holders)) for t in self.parties()}
                outs = [self.new(tuple(sorted(arg)), m)]
        steps.append(("coll", name, outs, ins, arg))
        avail.extend(outs)


def routings(name, holders, ins, arg):
    """What a collective moves: one {target: source} per output (None: as it is)."""
    if name == "transfer":
        return [None if holders[0] == arg else {arg: holders[0]}]
    if name == "replicate":
        return [dict.fromkeys(arg, holders[0])]
    if name == "collect":
        return [{arg: s} for s in holders]
    if name == "allreplicate":
        return [dict.fromkeys(holders, s) for s in holders]
    return [arg]


def reshaped(recipe, xs):
    """What the tensor operations of a recipe give."""
    x = np.concatenate([np.asarray(x).reshape(-1) for x in xs])
    for op, *a in recipe:
        if op == "reshape":
            x = x.reshape(a[0])
        elif op == "transpose":
            x = x.T
        elif op == "gather":
            x = np.take(x, a[0], axis=a[1])
        elif op == "slice":
            x = x[tuple(slice(*c) for c in a[0])]
        else:
            x = x + 1
    return x.reshape(-1)


def reshape_with(recipe, m, xs):
    """The same, as a program."""
    x = tensor.concat(list(xs), axis=0) if len(xs) > 1 else xs[0]
    for op, *a in recipe:
        if op == "reshape":
            x = tensor.reshape(x, a[0])
        elif op == "transpose":
            x = tensor.transpose(x, a[0])
        elif op == "gather":
            x = tensor.gather(x, tensor.constant(np.array(a[0], np.int64)), axis=a[1])
        elif op == "slice":
            starts, ends, strides = zip(*a[0])
            x = tensor.slice_tensor(x, starts, ends, strides)
        else:
            x = tensor.elementwise(lambda e: inc_p.bind(e), x)
    return tensor.reshape(x, (m,))


class Program:
    def __init__(self, n, steps, outs, vt):
        self.n = n
        self.steps = steps
        self.outs = outs
        self.vt = vt

    def kinds(self):
        seen = set()

        def walk(steps):
            for s in steps:
                seen.add(s[0])
                for x in s:
                    if isinstance(x, list) and x and isinstance(x[0], tuple):
                        walk(x)
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], list):
                        walk(x[0])
        walk(self.steps)
        return seen

    # ------------------------------------------------------------ real program
    def fn(self):
        """The program as a Python function over the simp API."""

        def body():
            env = {}
            emit(self.n, self.steps, env)
            return [env[v] for v in self.outs]

        return body

    # --------------------------------------------------------------- reference
    def expect(self):
        """Per output, the list of per-party values (None where absent)."""
        env = {}
        model(self.n, self.steps, env)
        return [env[v] for v in self.outs]


def boxout(c, a, b):
    return {"state": (a, {"z": b}), "count": c}


def boxin(st):
    return [st["count"], st["state"][0], st["state"][1]["z"]]


def world():
    """Parties of the surrounding cluster, None where a program is built without one."""
    from mplang.edsl.context import find_context

    c = find_context(lambda c: hasattr(c, "get_dialect_state")
                     and hasattr(c.get_dialect_state("simp"), "world_size"))
    if c is None:
        return None
    K.CURRENT.probe("all-parties")
    return c.get_dialect_state("simp").world_size


def predicate(full, puid, x):
    return simp.pcall_static(full, lambda x, uid=puid: pred_p.bind(x, uid=uid), x)


def emit(n, steps, env):
    full = tuple(range(n))
    for s in steps:
        c = s[0]
        if c == "src":
            _, v, ps, uid, m, ranked, slow = s
            env[v] = simp.pcall_static(
                ps, lambda uid=uid, m=m, ranked=ranked, slow=slow:
                src_p.bind(uid=uid, m=m, ranked=ranked, slow=slow))
        elif c == "zero":
            env[s[1]] = simp.pcall_static(full, lambda: L(0, 1, 1)[0])
        elif c == "call":
            _, outs, ps, ins, uid, m, style, slow = s
            args = [env[v] for v in ins]
            k = len(outs)

            def local(*a, uid=uid, m=m, k=k, slow=slow):
                r = L(uid, k, m, *a, slow=slow)
                return tuple(r) if k > 1 else r[0]

            if style == 1 and len(args) > 1:
                first, rest = args[0], args[1:]
                # the first input is captured from the enclosing scope
                res = simp.pcall_static(ps, lambda *a, f=local, x=first: f(x, *a), *rest)
            elif style == 2:
                # arguments and results travel in containers
                def packed(d, f=local, k=k):
                    r = f(*d["a"])
                    return {"r": list(r) if k > 1 else [r], "tag": 7}

                out = simp.pcall_static(ps, packed, {"a": args})
                assert out["tag"] == 7
                res = tuple(out["r"]) if k > 1 else out["r"][0]
            else:
                if ps == full and uid % 3 == 0 and world() == n:
                    res = mp.function(local)(*args)     # every party there is
                else:
                    res = simp.pcall_static(ps, local, *args)
            if k > 1:
                for o, r in zip(outs, res):
                    env[o] = r
            else:
                env[outs[0]] = res
        elif c == "shape":
            _, o, ps, ins, recipe, m = s
            env[o] = simp.pcall_static(
                ps, lambda *xs, r=recipe, m=m: reshape_with(r, m, xs), *[env[v] for v in ins])
        elif c == "dyn":
            _, o, ins, uid, m = s
            env[o] = simp.pcall_dynamic(
                lambda *a, uid=uid, m=m: L(uid, 1, m, *a)[0], *[env[v] for v in ins])
        elif c == "shuf":
            env[s[1]] = simp.shuffle_static(env[s[2]], dict(s[3]))
        elif c == "conv":
            env[s[1]] = simp.converge(*[env[v] for v in s[2]])
        elif c == "pred":
            env["pred", s[2]] = predicate(full, s[2], env[s[1]])
        elif c == "cond":
            _, outs, pv, puid, ins, (ts, to), (es, eo) = s
            pred = env.pop(("pred", puid), None)
            if pred is None:
                pred = predicate(full, puid, env[pv])

            def branch(steps, bo, ins=ins, env=env):
                def f(*a):
                    e = dict(env)
                    e.update(zip(ins, a))
                    emit(n, steps, e)
                    r = [e[v] for v in bo]
                    if boxed:
                        return {"r": r, "k": (boxed, None)}
                    return r[0] if len(r) == 1 else tuple(r)
                return f

            boxed = puid // 3 % 3
            res = simp.uniform_cond(pred, branch(ts, to), branch(es, eo),
                                    *[env[v] for v in ins])
            if boxed:
                assert res["k"] == (boxed, None)
                for o, r in zip(outs, res["r"], strict=True):
                    env[o] = r
            elif len(outs) == 1:
                env[outs[0]] = res
            else:
                for o, r in zip(outs, res):
                    env[o] = r
        elif c == "while":
            _, outs, cnt, inits, icnt, inner, bs, bo, trips = s

            def cond(state, trips=trips):
                return simp.pcall_static(full, lambda x: lt_p.bind(x, limit=trips),
                                         state[0])

            def loop(state, inner=inner, icnt=icnt, bs=bs, bo=bo, env=env):
                e = dict(env)
                e[icnt] = state[0]
                e.update(zip(inner, state[1:]))
                emit(n, bs, e)
                nxt = simp.pcall_static(full, lambda x: inc_p.bind(x), state[0])
                return [nxt] + [e[v] for v in bo]

            if len(outs) == 2:
                # the same state in nested containers
                res = simp.while_loop(
                    lambda st: cond(boxin(st)), lambda st: boxout(*loop(boxin(st))),
                    boxout(env[cnt], *[env[v] for v in inits]))
                res = boxin(res)
            else:
                res = simp.while_loop(cond, loop, [env[cnt]] + [env[v] for v in inits])
            for o, r in zip(outs, res[1:], strict=True):
                env[o] = r
        elif c == "const":
            _, o, ps, uid, m = s
            env[o] = simp.constant(ps, src_value(uid, 0, m))
        elif c == "pass":
            _, a, b, ps, v, uid, m = s
            env[a], env[b] = simp.pcall_static(
                ps, lambda x, uid=uid, m=m: (x, L(uid, 1, m, x)[0]), env[v])
        elif c == "void":
            _, ps, v, uid = s
            r = simp.pcall_static(ps, lambda x, uid=uid: L(uid, 1, 1, x) and None, env[v])
            assert r is None
        elif c == "coll":
            _, name, outs, ins, arg = s
            a = [env[v] for v in ins]
            if name == "transfer":
                res = [coll.transfer(a[0], to=arg)]
            elif name == "replicate":
                res = [coll.replicate(a[0], to=arg)]
            elif name == "distribute":
                res = [coll.distribute(a, frm=arg)]
            elif name == "collect":
                res = coll.collect(a[0], to=arg)
            elif name == "allreplicate":
                res = coll.allreplicate(a[0])
            else:
                res = [coll.permute(a[0], mapping=dict(arg))]
            for o, r in zip(outs, res, strict=True):
                env[o] = r
        elif c == "func":
            _, inner, bs, bo, calls = s

            def body(*a, inner=inner, bs=bs, bo=bo):
                e = dict(zip(inner, a, strict=True))
                emit(n, bs, e)
                r = [e[v] for v in bo]
                return r[0] if len(r) == 1 else tuple(r)

            h = func.func(body, *[env[v] for v in calls[0][0]])
            for args, outs in calls:
                res = func.call(h, *[env[v] for v in args])
                for o, r in zip(outs, res if len(outs) > 1 else [res], strict=True):
                    env[o] = r
        else:
            raise AssertionError(c)


class NonUniform(Exception):
    pass


class Record:
    """What a run of the model did: local executions and data movements."""

    def __init__(self):
        self.runs = {}
        self.moves = []
        self.preds = 0

    def ran(self, uid, parties):
        for r in parties:
            self.runs[(uid, r)] = self.runs.get((uid, r), 0) + 1


_rec = None


def effects(prog):
    """The executions and data movements one run of the program consists of."""
    global _rec
    _rec = rec = Record()
    try:
        prog.expect()
    except NonUniform:
        pass
    finally:
        _rec = None
    return rec


class Executions:
    """Counts the local computations really executed (an OBSERVER)."""

    def __init__(self):
        self.runs = {}
        OBSERVER[0] = self

    def __call__(self, what, uid, rank):
        self.runs[(uid, rank)] = self.runs.get((uid, rank), 0) + 1

    def check(self, k, progs, times=1, most=False):
        """Every computation ran as often as the programs say (or at most as often)."""
        want = {}
        for p in progs:
            for key, c in effects(p).runs.items():
                want[key] = want.get(key, 0) + c * times
        for key in sorted(set(want) | set(self.runs)):
            a, b = self.runs.get(key, 0), want.get(key, 0)
            if a > b if most else a != b:
                k.fail("wrong-execution-count", f"local computation {key[0]} ran {a} times on "
                       f"party {key[1]}, the program says {b}")


def model(n, steps, env):
    for s in steps:
        c = s[0]
        if c == "src":
            _, v, ps, uid, m, ranked, _ = s
            if _rec:
                _rec.ran(uid, ps)
            env[v] = [src_value(uid, r if ranked else -1, m) if r in ps else None
                      for r in range(n)]
        elif c == "zero":
            if _rec:
                _rec.ran(0, range(n))
            env[s[1]] = [lin(0, 0, 1, [])] * n
        elif c == "call":
            _, outs, ps, ins, uid, m, _, _ = s
            if _rec:
                _rec.ran(uid, ps)
            for j, o in enumerate(outs):
                env[o] = [lin(uid, j, m, [env[v][r] for v in ins]) if r in ps else None
                          for r in range(n)]
        elif c == "shape":
            _, o, ps, ins, recipe, _m = s
            env[o] = [reshaped(recipe, [env[v][r] for v in ins]) if r in ps else None
                      for r in range(n)]
        elif c == "dyn":
            _, o, ins, uid, m = s
            env[o] = [lin(uid, 0, m, [env[v][r] for v in ins])
                      if all(env[v][r] is not None for v in ins) else None
                      for r in range(n)]
            if _rec:
                _rec.ran(uid, [r for r in range(n) if env[o][r] is not None])
        elif c == "shuf":
            env[s[1]] = [env[s[2]][s[3][r]] if r in s[3] else None for r in range(n)]
            if _rec:
                _rec.moves += [(s[3][t], t, env[s[2]][s[3][t]]) for t in s[3]
                               if s[3][t] != t]
        elif c == "const":
            _, o, ps, uid, m = s
            env[o] = [src_value(uid, 0, m) if r in ps else None for r in range(n)]
        elif c == "pass":
            _, a, b, ps, v, uid, m = s
            if _rec:
                _rec.ran(uid, ps)
            env[a] = [env[v][r] if r in ps else None for r in range(n)]
            env[b] = [lin(uid, 0, m, [env[v][r]]) if r in ps else None for r in range(n)]
        elif c == "void":
            _, ps, v, uid = s
            if _rec:
                _rec.ran(uid, ps)
        elif c == "coll":
            _, name, outs, ins, arg = s
            if name == "distribute":
                env[outs[0]] = [env[ins[r]][arg] if r < len(ins) else None
                                for r in range(n)]
                routes = [(ins[i], {i: arg}) for i in range(len(ins))]
            else:
                held = [r for r in range(n) if env[ins[0]][r] is not None]
                routes = [(ins[0], rt) for rt in routings(name, held, ins, arg)]
                for o, (v, rt) in zip(outs, routes, strict=True):
                    env[o] = env[v] if rt is None else [
                        env[v][rt[r]] if r in rt else None for r in range(n)]
            if _rec:
                _rec.moves += [(rt[t], t, env[v][rt[t]]) for v, rt in routes if rt
                               for t in rt if rt[t] != t]
        elif c == "func":
            _, inner, bs, bo, calls = s
            for args, outs in calls:
                e = dict(zip(inner, [env[v] for v in args], strict=True))
                model(n, bs, e)
                for o, b in zip(outs, bo, strict=True):
                    env[o] = e[b]
        elif c == "conv":
            env[s[1]] = [next((env[v][r] for v in s[2] if env[v][r] is not None), None)
                         for r in range(n)]
        elif c == "cond":
            _, outs, pv, puid, ins, (ts, to), (es, eo) = s
            vals = {pred_value(puid, [env[pv][r]]) for r in range(n)}
            if _rec:
                _rec.preds += 1
            if len(vals) > 1:
                raise NonUniform
            steps2, bo = (ts, to) if vals.pop() else (es, eo)
            e = dict(env)
            model(n, steps2, e)
            for o, b in zip(outs, bo):
                env[o] = e[b]
        elif c == "while":
            _, outs, cnt, inits, icnt, inner, bs, bo, trips = s
            state = [env[v] for v in inits]
            cv = [x.copy() for x in env[cnt]]
            while cv[0][0] < trips:
                e = dict(env)
                e[icnt] = cv
                e.update(zip(inner, state))
                model(n, bs, e)
                state = [e[v] for v in bo]
                cv = [x + 1 for x in cv]
            for o, v in zip(outs, state):
                env[o] = v


def compare(k, got, want, what, kind="wrong-result"):
    """`got`: per output the fetched per-party list (or single value when n == 1)."""
    if len(got) != len(want):
        k.fail(kind, f"{what}: {len(got)} outputs, expected {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        if len(w) == 1 and not isinstance(g, list):
            g = [g]
        if len(g) != len(w):
            k.fail(kind, f"{what}: output {i} has {len(g)} parties, expected {len(w)}")
        for r in range(len(w)):
            a, b = g[r], w[r]
            a = a.unwrap() if hasattr(a, "unwrap") else a
            if (a is None) != (b is None):
                k.fail(kind, f"{what}: output {i} at party {r}: got {a!r}, expected {b!r}")
            if a is not None and not (np.asarray(a).shape == b.shape
                                      and np.array_equal(np.asarray(a), b)):
                k.fail(kind, f"{what}: output {i} at party {r}: got {a!r}, expected {b!r}")


# ---------------------------------------------------------------------- clusters
class MemCluster:
    def __init__(self, k, n, **kw):
        self.k = k
        self.n = n
        self.interp = mp.make_simulator(n, **kw)
        self.driver = self.interp.get_dialect_state("simp")

    def compile(self, prog):
        return mp.compile(prog.fn(), context=self.interp)

    def run_traced(self, prog, traced=None):
        traced = traced or self.compile(prog)
        out = mp.evaluate(traced, context=self.interp)
        return self.fetch(out)

    def run_eager(self, prog):
        out = mp.evaluate(prog.fn(), context=self.interp)
        return self.fetch(out)

    def fetch(self, out):
        return [mp.fetch(x, context=self.interp) for x in out]

    def run_whole(self, prog, job_id, traced=None, gap=0):
        """Submit the complete graph as one job to every worker."""
        traced = traced or self.compile(prog)
        futs = []
        order = list(range(self.n))
        if gap:
            order = order[gap % self.n:] + order[:gap % self.n]
        for r in order:
            futs.append((r, self.driver.submit(r, traced.graph, [], job_id)))
            if gap:
                self.k.sleep(self.k.delay(0.0005))
        futs = [f for _, f in sorted(futs, key=lambda x: x[0])]
        res = self.driver.collect(futs)
        return self.gather(traced, res)

    def gather(self, traced, res):
        n_out = len(traced.graph.outputs)
        out = []
        for j in range(n_out):
            row = []
            for r in range(self.n):
                uri = res[r][j]
                row.append(None if uri is None else self.driver.fetch(r, uri).result())
            out.append(row)
        # outputs may be deduplicated by tracing: map back through the trace
        return reorder(traced, out)

    def close(self):
        self.interp.shutdown()


def reorder(traced, out):
    import jax.tree_util as jtu

    class Leaf:
        def __init__(self, i):
            self.i = i

    vals = traced.reconstruct_outputs([Leaf(i) for i in range(len(out))])
    leaves = jtu.tree_leaves(vals, is_leaf=lambda x: isinstance(x, Leaf))
    return [out[x.i] for x in leaves]


class HttpCluster(MemCluster):
    def __init__(self, k, n, base=8200, hosts=True, **kw):
        import mplang.backends.simp_worker.http as H

        self.k = k
        self.n = n
        self.addrs = [f"127.0.0.1:{base + i}" for i in range(n)]
        self.eps = ["http://" + a for a in self.addrs]
        self.kw = kw
        self.hosts = [None] * n
        self.incarnation = [0] * n
        self.H = H
        for r in range(n):
            self.start(r)
        self.attach()

    def attach(self):
        # the driver runs in a client process of its own
        with loader.another_process("mplang.backends.simp_driver.http",
                                    "mplang.backends.simp_driver.ops"):
            self.interp = mp.make_driver(self.eps)
        self.driver = self.interp.get_dialect_state("simp")

    def start(self, r):
        def factory(r=r):
            return self.H.create_worker_app(r, self.n, self.eps, **self.kw)

        name = f"node{r}" if not self.incarnation[r] else f"node{r}.{self.incarnation[r]}"
        self.incarnation[r] += 1
        self.hosts[r] = N.Host(self.k.net, name, self.addrs[r], factory).start()


def slow_program(n, slow):
    """Every party computes for a while, exchanges, computes again."""
    full = tuple(range(n))
    steps = [
        ("src", 0, full, 1, 2, True, 0.0),
        ("call", [1], full, [0], 2, 2, 0, slow),
        ("shuf", 2, 1, {t: 0 for t in full}),
        ("call", [3], full, [2, 0], 3, 2, 0, slow),
    ]
    return Program(n, steps, [3], {})


# ------------------------------------------------------------------- literals
def literal_pool(k):
    """Constants that are easily mistaken for one another: same bytes, same values,
    same shape or nearly."""
    v = 1 + k.work(5)
    ints = np.array([v, 0, 2, 1], np.int32)
    pool = [ints, ints.view(np.uint32), ints.view(np.float32), ints.view(np.int64),
            ints.view(np.float64), ints.view(np.uint8), ints.view(np.int16),
            ints.reshape(2, 2), ints.reshape(2, 2).T, np.asfortranarray(ints.reshape(2, 2)),
            ints[::-1], ints.astype(np.int64), ints.astype(np.float32), ints.astype(bool),
            ints.astype(np.int8), ints[:1], ints[0], np.array([0.0, -0.0]), np.array([-0.0, 0.0]),
            np.array([np.nan, 1.0]), np.array([np.inf, -np.inf], np.float32),
            np.zeros((2, 1)), np.array(True), np.array([True, False]),
            np.array([1, 0], np.uint8), np.int64(v), np.uint8(v), np.float32(v), v, float(v),
            True, [v, 0, 2, 1], [[v, 0], [2, 1]], np.uint64(2**64 - v), np.int64(-v),
            np.arange(600, dtype=np.int32) + v, ints.astype(np.float16)]
    return [pool[k.work(len(pool))] for _ in range(2 + k.work(6))]


def literals(k, cl, mode):
    """Programs made of constants: every one arrives as written, whatever other
    constants are in the program, also if the client changes its array later."""
    import mplang.dialects.tensor as T

    n = cl.n
    pool = literal_pool(k)
    calls = []              # (parties, constants, how, moved to)
    for _ in range(1 + k.work(3)):
        parties = tuple(sorted(set(k.work(n) for _ in range(1 + k.work(n)))))
        cs = [pool[k.work(len(pool))] for _ in range(1 + k.work(4))]
        how = k.work(3)
        calls.append((parties, cs[:1] if how == 2 else cs, how,
                      [None, k.work(n)][k.work(2)]))
    want = []
    mutate = k.work(3) == 0

    def prog():
        outs = []
        keep = []
        for parties, cs, how, to in calls:
            mine = [c.copy() if isinstance(c, np.ndarray) else c for c in cs]
            keep.extend(x for x in mine if isinstance(x, np.ndarray))
            if how == 0:
                r = simp.pcall_static(parties, lambda: tuple(T.constant(c) for c in mine))
            elif how == 1:      # constants next to a computation
                r = simp.pcall_static(parties, lambda: tuple(
                    T.run_jax(lambda x: x, T.constant(c)) for c in mine))
            else:
                r = (simp.constant(parties, mine[0]),)
            for x in r:
                if to is not None:
                    x = simp.shuffle_static(x, {to: parties[0]})
                outs.append(x)
        if mutate:
            k.probe("changed-later")
            for x in keep:
                if x.size and x.flags.writeable:
                    x[...] = 0
        return outs

    for parties, cs, how, to in calls:
        for c in cs:
            a = np.asarray(c)
            ps = parties if to is None else (to,)
            want.append([a if q in ps else None for q in range(n)])

    def client():
        if mode == "eager":
            with cl.interp:
                got = cl.fetch(prog())
        elif mode == "traced":
            t = mp.compile(prog, context=cl.interp)
            got = cl.fetch(mp.evaluate(t, context=cl.interp))
        else:
            t = mp.compile(prog, context=cl.interp)
            futs = [cl.driver.submit(r, t.graph, [], "lit") for r in range(n)]
            got = cl.gather(t, cl.driver.collect(futs))
        for i, (row, exp) in enumerate(zip(got, want, strict=True)):
            row = row if n > 1 or isinstance(row, list) else [row]
            for q, (x, e) in enumerate(zip(row, exp, strict=True)):
                if (x is None) != (e is None):
                    k.fail("wrong-party", f"constant {i} on party {q}: {x!r}")
                if e is None:
                    continue
                x = np.asarray(x.unwrap() if hasattr(x, "unwrap") else x)
                if x.dtype != e.dtype or x.shape != e.shape or x.tobytes() != e.tobytes():
                    k.fail("wrong-constant", f"constant {i} on party {q} is {x!r}, written {e!r}")
        k.probe("literals")
        cl.close()

    from checks.common import go, join_all, raise_unexpected
    j = go(k, client, "client")
    join_all(k, [j], 30_000.0, "the constants")
    raise_unexpected(k, [j])
