"""C07: a multi-party program computes what the language says, in-process."""

import jax.tree_util as jtu
import numpy as np

import mplang as mp
from checks import spmd
from checks.common import Variant, go, join_all, how_many, raise_unexpected
from checks.common import stalls
from mplang.dialects import simp

PLAN = {"traced": (900, 4000), "eager": (360, 1500), "whole": (960, 4000),
        "dynamic": (360, 1500), "constants": (360, 1500),
        "literals": (600, 2500)}
LEVEL = "exploration"
RULE = ("Random programs (local calls on subsets, shuffles, converge, conditionals, "
        "loops) on 1 to 4 in-process parties under random thread schedules.")
REAL = ["tracer, program graphs, host and worker interpreters, simp handlers",
        "SimpMemDriver, LocalMesh/ThreadCommunicator, object store"]
STUB = ["clock and OS threads (simulated)", "local kernels (harness arithmetic)",
        "libspu (not installable; never called here)"]
ASSUMPTIONS = ["programs are traced from one client thread"]
MUST_PROBE = ["call", "shuf", "conv", "cond", "while", "dyn", "const", "pass", "void",
              "coll", "func", "constants", "refused", "long", "many-iterations",
              "literals", "changed-later"]


def note(k, prog):
    for x in prog.kinds():
        k.probe(x)


def traced(k, mode="traced"):
    n = how_many(k, 1 + k.work(4))
    g = spmd.Gen(k, n, control=mode != "eager", dynamic=True, dyn_missing=False,
                 slow=0.01, slow_p=5, funcs=mode != "eager")
    prog = g.program(g.long(2 + k.work(8)))
    note(k, prog)
    stalls(k)
    cl = spmd.MemCluster(k, n)
    ran = spmd.Executions()

    def client():
        times = 1 + (k.work(2 if mode == "traced" else 3) if mode != "eager" else 0)
        if mode == "traced":
            t = cl.compile(prog)
            for i in range(times):
                spmd.compare(k, cl.run_traced(prog, t), prog.expect(), f"run {i}")
        elif mode == "eager":
            spmd.compare(k, cl.run_eager(prog), prog.expect(), "eager")
        else:
            t = cl.compile(prog)
            for i in range(times):
                spmd.compare(k, cl.run_whole(prog, f"job-{i}", t), prog.expect(),
                             f"job {i}")
        ran.check(k, [prog], times)
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], 2000.0, "the program")
    raise_unexpected(k, [j])


def dynamic(k):
    """Calls whose executing parties are only known at run time."""
    n = how_many(k, 1 + k.work(4))
    g = spmd.Gen(k, n, control=False, dynamic=True, dyn_missing=True)
    prog = g.program(g.long(3 + k.work(7)))
    note(k, prog)
    stalls(k)
    cl = spmd.MemCluster(k, n)
    ran = spmd.Executions()

    def client():
        t = cl.compile(prog)
        if k.work(2):
            got = cl.run_traced(prog, t)
        else:
            got = cl.run_whole(prog, "job", t)
        spmd.compare(k, got, prog.expect(), "dynamic")
        ran.check(k, [prog])
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], 2000.0, "the program")
    raise_unexpected(k, [j])


SHAPES = [lambda v, w, c: (v, c), lambda v, w, c: {"a": v, "k": [c, None]},
          lambda v, w, c: {"a": c, "b": v}, lambda v, w, c: {"a": v, "b": c},
          lambda v, w, c: [v, {"c": c, "w": w}], lambda v, w, c: (w, c, v)]
CONSTS = [3, 4, "x", 2.5, None, np.arange(3), np.arange(3) + 1, True, 1]


def constants(k):
    """Branches returning Python constants and containers around their values: the
    result is the chosen branch's, or the conditional is refused - never a mixture."""
    n = 1 + k.work(3)
    full = tuple(range(n))
    uid = 1 + k.work(50)
    sh = [k.work(len(SHAPES))]
    cs = [k.work(len(CONSTS))]
    sh.append(sh[0] if k.work(2) else k.work(len(SHAPES)))
    cs.append(cs[0] if k.work(2) else k.work(len(CONSTS)))
    stalls(k)
    cl = spmd.MemCluster(k, n)

    def prog():
        x, w = (simp.pcall_static(full, lambda u=u: spmd.src_p.bind(uid=u, m=2, ranked=False, slow=0.0))
                for u in (uid, uid + 1))
        p = simp.pcall_static(full, lambda a: spmd.pred_p.bind(a, uid=uid), x)
        return simp.uniform_cond(p, *[lambda v, u, s=s, c=c: SHAPES[s](v, u, CONSTS[c])
                                      for s, c in zip(sh, cs)], x, w)

    def plain(v):
        if not isinstance(v, mp.Object):
            return v
        vals = mp.fetch(v, context=cl.interp)
        vals = vals if n > 1 else [vals]
        if any(not np.array_equal(x, vals[0]) for x in vals):
            k.fail("wrong-result", f"parties disagree on a branch's value: {vals}")
        return np.asarray(vals[0])

    def client():
        vals = [spmd.src_value(u, -1, 2) for u in (uid, uid + 1)]
        b = 0 if spmd.pred_value(uid, vals[:1]) else 1
        want = SHAPES[sh[b]](*vals, CONSTS[cs[b]])
        same = (jtu.tree_structure(SHAPES[sh[0]](0, 0, 0)) ==
                jtu.tree_structure(SHAPES[sh[1]](0, 0, 0)) and cs[0] == cs[1])
        try:
            t = mp.compile(prog, context=cl.interp)
        except TypeError:
            if sh[0] == sh[1] and same:
                k.fail("refused", f"branches both return {want}")
            k.probe("refused")
        else:
            got = mp.evaluate(t, context=cl.interp)
            got = jtu.tree_map(plain, got, is_leaf=lambda v: isinstance(v, mp.Object))
            if jtu.tree_structure(got) != jtu.tree_structure(want) or not all(
                    type(x) is type(y) and np.array_equal(x, y)
                    for x, y in zip(jtu.tree_leaves(got), jtu.tree_leaves(want))):
                k.fail("wrong-result", f"conditional gave {got}, the chosen branch {want}")
            k.probe("constants")
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], 2000.0, "the program")
    raise_unexpected(k, [j])


def literals(k):
    stalls(k)
    cl = spmd.MemCluster(k, 1 + k.work(3))
    spmd.literals(k, cl, ["eager", "traced", "whole"][k.work(3)])


VARIANTS = {
    "literals": Variant(literals, 0),
    "constants": Variant(constants, 0),
    "traced": Variant(lambda k: traced(k, "traced"), 0),
    "eager": Variant(lambda k: traced(k, "eager"), 0),
    "whole": Variant(lambda k: traced(k, "whole"), 0),
    "dynamic": Variant(dynamic, 0),
}
