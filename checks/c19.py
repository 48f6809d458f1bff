"""C19: a compiled or packed program stands for its source, whoever runs it."""

import io
import json
import os
import tarfile

import numpy as np

import mplang as mp
from checks import spmd
from checks.common import (Variant, describe, go, join_all, net_faults, how_many, raise_unexpected,
                           stalls)
from mplang.tool import program as tool
from sim import kernel as K
from sim import simos

PLAN = {"staged": (520, 6500), "staged-http": (320, 4000), "files": (600, 8000),
        "misuse": (160, 1500)}
LEVEL = "exploration"
RULE = ("Random multi-party programs cut into stages that take the values of earlier stages as "
        "positional, keyword, nested and captured arguments next to constants; each stage is "
        "called directly, compiled (on other values of the same types than it is called with) "
        "or packed, unpacked and called, on in-process and HTTP clusters. Program files "
        "written and read by several processes through crashes, power failures and disk "
        "errors, or altered; calls with arguments a program was not compiled for.")
REAL = ["trace, TracedFunction, evaluate, fetch", "compile_program, pack, unpack, inspect",
        "graph and type serde, drivers, workers and interpreters"]
STUB = ["clock, OS threads, event loop (simulated)", "TCP/uvicorn (simulated network)",
        "disk: real files in a scratch directory behind fault-injecting wrappers",
        "local kernels (harness arithmetic)", "libspu"]
ASSUMPTIONS = ["programs are traced from one client thread",
               "altered artifacts are altered in one place, by accident"]
MUST_PROBE = ["eager", "compiled", "packed", "rearranged", "captured", "kw", "passed-through",
              "refused-misuse", "loaded", "refused-torn", "crash", "power", "altered"]


# ------------------------------------------------------------------------ stages
class Staged(spmd.Program):
    """A program in stages; before stage i the values it is given are rearranged."""

    def __init__(self, prog, cuts, perms):
        super().__init__(prog.n, prog.steps, prog.outs, prog.vt)
        at = [0, *cuts, len(prog.steps)]
        self.parts = [prog.steps[a:b] for a, b in zip(at, at[1:])]
        self.perms = perms

    def run_model(self):
        """Per stage: (values given, values made); and all values at the end."""
        env, out = {}, []
        for part, perm in zip(self.parts, self.perms, strict=True):
            given = {v: env[perm.get(v, v)] for v in env}
            e = dict(given)
            spmd.model(self.n, part, e)
            made = {v: e[v] for v in e if v not in given}
            out.append((given, made))
            env.update(made)
        return out, env

    def expect(self):
        final = self.run_model()[1]
        return [final[v] for v in self.outs]


def stage_program(k, n, http):
    g = spmd.Gen(k, n, control=True, dynamic=True, slow=(0.01, 0.2)[k.work(2)], slow_p=8)
    prog = g.program(3 + k.work(6))
    # a cut never separates a loop counter or predicate input from its use by rearranging:
    # only values that no control flow depends on are exchanged
    fixed = set()
    for s in prog.steps:
        if s[0] == "zero":
            fixed.add(s[1])
        if s[0] == "while":
            fixed.add(s[2])
        if s[0] == "cond":
            fixed.add(s[2])
    m = len(prog.steps)
    cuts = sorted({1 + k.work(m - 1) for _ in range(1 + k.work(3))}) if m > 1 else []
    st = Staged(prog, cuts, [{}] * (len(cuts) + 1))
    known = []
    perms = []
    for i, part in enumerate(st.parts):
        perm = {}
        if i and k.work(2):
            pool = [v for v in known if v not in fixed and prog.vt[v][0] is not None]
            for v in pool:
                same = [w for w in pool if prog.vt[w] == prog.vt[v]]
                if len(same) > 1 and k.work(2):
                    perm[v] = same[k.work(len(same))]
        perms.append(perm)
        known = sorted(set(known) | set(st.run_model()[0][i][1]) & set(prog.vt))
    # rearranged values may make a predicate differ between the parties
    st.perms = perms
    try:
        st.run_model()
    except spmd.NonUniform:
        st.perms = [{}] * len(perms)
    return st


def run_stages(k, cl, st):
    ctx = cl.interp
    env = {}
    want, final = st.run_model()
    for i, part in enumerate(st.parts):
        perm = st.perms[i]
        given_w, made_w = want[i]
        mine = sorted(v for v in made_w if v in st.vt)
        names = sorted(env)
        how = k.work(5)
        mode = ("eager", "compiled", "packed")[k.work(3)]
        back = [v for v in names if k.work(4) == 0]      # handed back as they are
        captured = set()
        if how == 4 and mode != "packed":
            captured = {v for v in names if v not in perm and k.work(2)}
        passed = [v for v in names if v not in captured]
        c1, c2 = 1 + k.work(9), (3.5, "s", None, True)[k.work(4)]

        def body(e, part=part, mine=mine, back=back, captured=captured):
            e = dict(e)
            for v in captured:
                e[v] = env[v]
            given = dict(e)
            spmd.emit(st.n, part, e)
            return [e[v] for v in mine], {f"b{j}": given[v] for j, v in enumerate(back)}

        if mode == "packed":
            def f(*a):
                new, old = body(dict(zip(passed, a, strict=True)))
                return [new, old]

            def args(m):
                return [env[m.get(v, v)] for v in passed], {}
        elif how == 0:
            def f(d, c):
                new, old = body(d["e"])
                return {"new": new, "old": old, "c": c, "z": (c2, [])}

            def args(m):
                return [{"e": {v: env[m.get(v, v)] for v in passed}}, c1], {}
        elif how == 1:
            def f(c, *a, **kw):
                assert c == c1
                new, old = body(dict(zip(passed, a, strict=True)))
                return (old, c), new, kw["c2"]

            def args(m):
                return [c1, *[env[m.get(v, v)] for v in passed]], {"c2": c2}
        elif how == 2:
            def f(**kw):
                new, old = body({int(x[1:]): o for x, o in kw.items() if x[0] == "v"})
                return {"r": (new, old), "c": kw["c"]}

            def args(m):
                kw = {f"v{v}": env[m.get(v, v)] for v in passed}
                if k.work(2):
                    kw = dict(reversed(list(kw.items())))
                return [], {"c": c1, **kw}
        else:
            def f(c, lst, *, t=()):
                h = len(passed) // 2
                new, old = body(dict(zip(passed, [*lst[0], *t], strict=True)))
                assert len(t) == len(passed) - h
                return [c1, [new], None, old, c]

            def args(m):
                a = [env[m.get(v, v)] for v in passed]
                h = len(a) // 2
                return [c1, [a[:h], "x"]], {"t": tuple(a[h:])}
        k.probe(mode)
        for on, x in ((perm, "rearranged"), (captured, "captured"), (back, "passed-through"),
                      (how == 2 and passed and mode != "packed", "kw")):
            if on:
                k.probe(x)
        pos, kw = args(perm)
        if mode == "eager":
            out = mp.evaluate(f, *pos, context=ctx, **kw)
        else:
            p0, kw0 = args({}) if k.work(3) else args(perm)
            if mode == "compiled":
                t = mp.compile(f, *p0, context=ctx, **kw0)
                out = mp.evaluate(t, *pos, context=ctx, **kw)
            else:
                try:
                    art = tool.compile_program(f, *p0, context=ctx)
                except ValueError:
                    # a handed-back constant cannot be packed; nothing here is one
                    k.fail("refused-program", f"stage {i} cannot be packed")
                data = tool.pack(art, compress=bool(k.work(2)))
                got = tool.unpack(data)
                if got.graph_digest != art.graph_digest or (
                        got.required_world_size != art.required_world_size):
                    k.fail("wrong-description", "digest or party count changed by packing")
                out = mp.evaluate(got, *pos, context=ctx)
        if mode == "packed":
            if len(out) != len(mine) + len(back):
                k.fail("wrong-result", f"stage {i}: {len(out)} results, expected "
                       f"{len(mine) + len(back)}")
            new, old = out[:len(mine)], {f"b{j}": o for j, o in enumerate(out[len(mine):])}
            consts = None
        elif how == 0:
            new, old, consts = out["new"], out["old"], (out["c"], out["z"]) == (c1, (c2, []))
        elif how == 1:
            (old, a), new, b = out
            consts = (a, b) == (c1, c2)
        elif how == 2:
            (new, old), consts = out["r"], out["c"] == c1
        else:
            a, (new,), nothing, old, b = out
            consts = (a, nothing, b) == (c1, None, c1)
        if consts is False:
            k.fail("wrong-constant", f"stage {i} ({mode}, {how}): {out!r}"[:500])
        for j, v in enumerate(back):
            spmd.compare(k, cl.fetch([old[f"b{j}"]]), [given_w[v]],
                         f"stage {i} ({mode}): value {v} handed back")
        if len(new) != len(mine):
            k.fail("wrong-result", f"stage {i}: {len(new)} new values, expected {len(mine)}")
        env.update(zip(mine, new))
    spmd.compare(k, cl.fetch([env[v] for v in st.outs]), [final[v] for v in st.outs], "program")


def staged(k, http):
    n = how_many(k, 1 + k.work(4))
    st = stage_program(k, n, http)
    stalls(k)
    if http:
        net_faults(k, ["slow"], 0.05)
    cl = (spmd.HttpCluster if http else spmd.MemCluster)(k, n)
    ran = spmd.Executions()

    def client():
        run_stages(k, cl, st)
        ran.check(k, [st])
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], 30_000.0, "the program")
    raise_unexpected(k, [j])


# ------------------------------------------------------------------------- files
def variants_of(k, n):
    """Look-alike programs: the same but for one thing."""
    g = spmd.Gen(k, n, control=True)
    prog = g.program(1 + k.work(4))
    uid0 = 500
    out = [prog]
    for j in range(2):
        steps = [(s[0], s[1], s[2], uid0 + j, *s[4:]) if i == 0 else s
                 for i, s in enumerate(prog.steps)]
        out.append(spmd.Program(n, steps, prog.outs, prog.vt))
    if len(prog.outs) > 1:
        out.append(spmd.Program(n, prog.steps, prog.outs[::-1], prog.vt))
    ok = []
    for p in out:
        try:
            p.expect()
        except spmd.NonUniform:
            continue
        ok.append(p)
    return ok


def alter(k, data):
    """The artifact with one value in its description changed."""
    with tarfile.open(fileobj=io.BytesIO(data)) as tf:
        name = tf.getnames()[0]
        doc = json.loads(tf.extractfile(name).read())
    leaves = []

    def walk(x):
        it = x.items() if isinstance(x, dict) else enumerate(x)
        for a, b in list(it):
            if isinstance(b, (dict, list)):
                walk(b)
            else:
                leaves.append((x, a, b))

    walk(doc)
    x, a, b = leaves[k.fault_int(len(leaves))]
    if isinstance(b, bool) or b is None:
        x[a] = 1
    elif isinstance(b, (int, float)):
        x[a] = b + (1, -1, 7)[k.fault_int(3)]
    else:
        c = k.fault_int(3)
        i = k.fault_int(max(1, len(b)))
        x[a] = (b[:i] + chr(97 + k.fault_int(26)) + b[i + 1:], b[:i] + b[i + 1:], b + "0")[c]
    raw = json.dumps(doc).encode()
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w") as tf:
        info = tarfile.TarInfo(name)
        info.size = len(raw)
        tf.addfile(info, io.BytesIO(raw))
    return out.getvalue(), f"{a}: {b!r} -> {x[a]!r}"


def files(k):
    n = 1 + k.work(3)
    progs = variants_of(k, n)
    want = [p.expect() for p in progs]
    stalls(k)
    fs = k.fs
    mode = k.work(5)
    os.makedirs("data/art", exist_ok=True)
    fs.filter = lambda p: "data/art" in p
    if mode in (1, 2):
        fs.durable = simos.Durable(k)
    fs.on_crash = lambda nd: (k.probe("crash"), k.kill_node(nd))
    cl = spmd.MemCluster(k, n)
    paths = [f"data/art/p{i}.tar.gz" for i in range(1 + k.work(2))]
    arts = [tool.compile_program(p.fn(), context=cl.interp) for p in progs]
    digests = [a.graph_digest for a in arts]
    for i, a in enumerate(digests):
        if a in digests[:i] and not all(
                all((x is None) == (y is None) and (x is None or np.array_equal(x, y))
                    for x, y in zip(u, v))
                for u, v in zip(want[i], want[digests.index(a)])):
            k.fail("same-digest", "two different programs have one digest")
    may = {p: {None} for p in paths}      # what a load may give (None: refused)
    busy = dict.fromkeys(paths, 0)
    version = dict.fromkeys(paths, 0)

    def writer(todo):
        for path, i, compress in todo:
            alone = busy[path] == 0
            busy[path] += 1
            version[path] += 1
            v = version[path]
            may[path] |= {i, None}
            try:
                tool.pack_to_path(arts[i], path, compress=compress)
                ok = True
            except OSError:
                ok = False
            busy[path] -= 1
            if ok and alone and version[path] == v:
                may[path] = {i}

    loaded = []

    def reader(todo):
        for path in todo:
            before = set(may[path])
            v = version[path]
            quiet = busy[path] == 0
            try:
                p = tool.unpack_path(path)
                d = p.graph_digest
                loaded.append((path, p))
            except TaskErrors:
                raise
            except Exception as e:
                if quiet and version[path] == v and None not in before and not fs.p_read_err:
                    k.fail("lost", f"{path} was written completely but: {describe(e)}")
                k.probe("refused-torn")
                continue
            k.probe("loaded")
            allowed = before | may[path]
            if d not in [digests[i] for i in allowed if i is not None]:
                k.fail("foreign-program", f"{path}: the loaded program was never written there")

    for life in range(1 + k.work(3)):
        w, r = K.Node(f"w{life}"), K.Node(f"r{life}")
        if mode == 3:
            fs.p_write_err = (0.3, 1.0)[k.fault_int(2)]
            fs.p_meta_err = (0.0, 0.3)[k.fault_int(2)]
            fs.p_read_err = (0.0, 0.3)[k.fault_int(2)]
        fs.p_short = 0.3 if k.fault_int(3) == 0 else 0.0
        if mode in (1, 2):
            fs.crash_at[w] = k.fault_int(8)
        js = []
        for j in range(1 + k.work(2)):
            todo = [(paths[k.work(len(paths))], k.work(len(progs)), bool(k.work(2)))
                    for _ in range(1 + k.work(3))]
            js.append(go(k, lambda t=todo: writer(t), f"writer{life}.{j}", w))
        todo = [paths[k.work(len(paths))] for _ in range(1 + k.work(4))]
        js.append(go(k, lambda t=todo: reader(t), f"reader{life}", r))
        for j in js:
            j.join(1000.0)
        raise_unexpected(k, [j for j in js if j.error is not None])
        crashed = any(not j.finished for j in js)
        k.kill_node(w)
        k.kill_node(r)
        for p in paths:
            if busy[p] or crashed:
                may[p] |= {None}
            busy[p] = 0
        if mode == 2 and k.fault_int(2):
            k.probe("power")
            fs.durable.power_loss("data")
            for p in paths:        # nothing was synced
                may[p] = set(range(len(progs))) | {None}
        fs.p_write_err = fs.p_meta_err = fs.p_read_err = fs.p_short = 0.0
        fs.crash_at.clear()

    def client():
        for p in paths:
            reader([p])
        # what was loaded runs as what was written
        for path, p in loaded[:3] + loaded[-2:]:
            i = digests.index(p.graph_digest)
            out = cl.fetch(mp.evaluate(p, context=cl.interp))
            spmd.compare(k, out, want[i], path)
        i = k.work(len(arts))
        data, what = alter(k, tool.pack(arts[i], compress=False))
        k.probe("altered")
        try:
            p = tool.unpack(data)
            out = cl.fetch(mp.evaluate(p, context=cl.interp))
        except TaskErrors:
            raise
        except Exception:
            k.probe("refused-altered")
            cl.close()
            return
        spmd.compare(k, out, want[i], f"altered {what}")
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], 30_000.0, "loading and running")
    raise_unexpected(k, [j])


TaskErrors = (K.TaskKilled, K.Violation, K.HarnessError, K.Stop)


# ------------------------------------------------------------------------ misuse
def misuse(k):
    """A compiled program called with arguments it was not compiled for."""
    from mplang.dialects import simp

    n = 2 + k.work(2)
    stalls(k)
    cl = spmd.MemCluster(k, n)
    ctx = cl.interp
    full = tuple(range(n))
    consts = [2, 3, 2.0, True, "2", np.int32(2), np.array([2, 3]), np.array([2, 4]),
              np.array([[2, 3]]), np.array([2, 3], np.float32), -2, 2**70]
    c = consts[k.work(len(consts))]
    d = consts[k.work(len(consts))]

    def as_uid(c):
        return sum(1 << i for i in range(len(consts)) if c is consts[i])

    def f(x, c, *, y, t=5):
        return simp.pcall_static(full, lambda a, b: spmd.L(
            as_uid(c) * 10 + (t if isinstance(t, int) else 0), 1, 2, a, b)[0], x, y)

    def client():
        x, y = [mp.evaluate(lambda u=u: simp.pcall_static(
            full, lambda: spmd.src_p.bind(uid=u, m=2, ranked=True, slow=0.0)), context=ctx)
            for u in (1, 2)]
        t = mp.compile(f, x, c, y=y, t=4, context=ctx)
        calls = [((x, c), {"y": y, "t": 4}, True), ((x, d), {"y": y, "t": 4}, c is d),
                 ((x, c), {"y": y}, False), ((x, c), {"y": y, "t": 5}, False),
                 ((x,), {"y": y, "t": 4}, False), ((x, c, y), {"t": 4}, False),
                 ((), {"x": x, "c": c, "y": y, "t": 4}, False),
                 ((x, c), {"y": y, "t": 4, "u": 1}, False),
                 ((x, c, 4), {"y": y, "t": 4}, False), (([x], c), {"y": y, "t": 4}, False),
                 ((y, c), {"y": x, "t": 4}, True)]
        a, kw, fine = calls[k.work(len(calls))]
        try:
            direct = cl.fetch([mp.evaluate(f, *a, context=ctx, **kw)])
        except TaskErrors:
            raise
        except Exception:
            direct = None
        try:
            got = cl.fetch([mp.evaluate(t, *a, context=ctx, **kw)])
        except TaskErrors:
            raise
        except Exception as e:
            if fine:
                k.fail("refused-call", describe(e))
            k.probe("refused-misuse")
            got = None
        if got is not None:
            if direct is None:
                k.fail("accepted-misuse", f"call {a!r} {kw!r} is an error but the compiled "
                       f"program gave {got}"[:800])
            spmd.compare(k, got, [[np.asarray(v) for v in direct[0]]], "compiled call")
        art = tool.compile_program(lambda: f(
            *[simp.pcall_static(full, lambda: spmd.src_p.bind(uid=1, m=2, ranked=True, slow=0.0))
              for _ in (1,)], c, y=simp.pcall_static(full, lambda: spmd.src_p.bind(
                  uid=2, m=2, ranked=True, slow=0.0))), context=ctx)
        # a program for more parties than the cluster has
        small = mp.make_simulator(n - 1)
        where = k.work(4)

        def needs_all():
            """The last party takes part, at the top or only inside of something."""
            def bind(uid, *ins):
                return lambda *a: spmd.L(uid, 1, 2, *a)[0]

            def inner(v):
                return simp.pcall_static(full, bind(7), v)

            def bind0(a):
                return spmd.inc_p.bind(a)

            x = simp.pcall_dynamic(lambda: spmd.src_p.bind(uid=1, m=2, ranked=False, slow=0.0))
            if where == 0:
                return inner(x)
            p = simp.pcall_dynamic(lambda a: spmd.pred_p.bind(a, uid=3), x)
            if where == 1:
                return simp.uniform_cond(p, inner, inner, x)
            if where == 2:
                return simp.uniform_cond(p, lambda v: simp.uniform_cond(p, inner, inner, v),
                                         inner, x)
            cnt = simp.pcall_dynamic(lambda: spmd.src_p.bind(uid=0, m=1, ranked=False, slow=0.0))
            return simp.while_loop(
                lambda i: simp.pcall_dynamic(lambda a: spmd.lt_p.bind(a, limit=2), i),
                lambda i: simp.pcall_dynamic(lambda a: spmd.inc_p.bind(a),
                                             simp.pcall_static(full, bind0, i)), cnt)

        big = tool.compile_program(needs_all, context=ctx)
        packed = k.work(2)
        try:
            r = mp.evaluate(tool.unpack(tool.pack(big)) if packed else big, context=small)
            r = mp.fetch(r, context=small)
        except TaskErrors:
            raise
        except Exception:
            k.probe("refused-small")
        else:
            k.fail("too-small-cluster", f"a program for {n} parties gave {r!r} on {n - 1}"[:500])
        try:
            mp.evaluate(big, context=ctx)
        except TaskErrors:
            raise
        except Exception as e:
            k.fail("refused-call", f"{where}: {describe(e)}")
        try:
            mp.evaluate(art, x, context=ctx)
        except TaskErrors:
            raise
        except Exception:
            pass
        else:
            k.fail("accepted-misuse", "a packed program without inputs took one")
        small.shutdown()
        cl.close()

    j = go(k, client, "client")
    join_all(k, [j], 30_000.0, "the calls")
    raise_unexpected(k, [j])


VARIANTS = {"staged": Variant(lambda k: staged(k, False), 0),
            "staged-http": Variant(lambda k: staged(k, True), 0),
            "files": Variant(files, 0), "misuse": Variant(misuse, 0)}
