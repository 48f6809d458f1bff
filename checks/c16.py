"""C16: keeping compiled programs never changes or prevents a computation."""

import os

import jax.extend as jxt
import jax.numpy as jnp
import numpy as np

import mplang as mp
from checks.common import Variant, go, raise_unexpected, stalls
from mplang.backends import tensor_impl
from mplang.dialects import tensor
from mplang.edsl.graph import Graph
from sim import kernel as K
from sim import simos

PLAN = {"cache": (2520, 10080)}
LEVEL = "exploration"
RULE = ("Several processes, some sharing one data directory and each running several jobs at "
        "once, evaluate look-alike JAX programs (differing in one constant - also late in long "
        "programs -, an unused input, a shape or an element type) over process restarts, crashes and power failures at every "
        "disk operation, disk errors, and kept programs cut short, emptied, overwritten by "
        "foreign text or replaced by directories. Results compared with NumPy.")
REAL = ["tensor.run_jax tracing and execution", "Interpreter",
        "XLA compilation, serialization and loading (compilation memoised by program text)"]
STUB = ["disk: real files in a scratch directory behind wrappers that inject errors, tear "
        "writes, crash, and undo what was not synced", "clock, OS threads (simulated)",
        "process memory: module-level dictionaries hold one content per simulated process"]
ASSUMPTIONS = ["damaged files are cut, emptied or foreign, not altered in single bits"]
MUST_PROBE = ["ran", "shared-root", "restarted", "damaged", "crash", "power", "concurrent",
              "long"]


# ---------------------------------------------------------------- the programs
def _programs():
    """(name, jax function, argument arrays per variant, reference)."""
    out = []
    f32, i32, i64 = np.float32, np.int32, np.int64

    def add(name, fn, ref, shapes, dts):
        out.append((name, fn, ref, shapes, dts))

    for c in (2, 3):
        add(f"lin{c}", lambda x, y, c=c: x * c + y, lambda x, y, c=c: x * c + y,
            [(3,), (3,)], [(f32, f32), (i32, i32)])
    add("lin-wide", lambda x, y: x * 2 + y, lambda x, y: x * 2 + y,
        [(4,), (4,)], [(f32, f32), (i64, i64)])
    add("sub", lambda x, y: x - y, lambda x, y: x - y, [(3,), (3,)], [(f32, f32), (i32, i32)])
    add("rsub", lambda x, y: y - x, lambda x, y: y - x, [(3,), (3,)], [(f32, f32), (i32, i32)])
    add("unused", lambda x, y: x + 1, lambda x, y: x + 1, [(3,), (3,)], [(i32, i32)])
    add("unused2", lambda x, y: y + 1, lambda x, y: y + 1, [(3,), (3,)], [(i32, i32)])
    add("unused3", lambda x, y, z: z - x, lambda x, y, z: z - x, [(2,), (3,), (2,)],
        [(i32, f32, i32)])
    add("sum", lambda x: x.sum(), lambda x: x.sum(), [(2, 3)], [(f32,), (i32,)])
    add("sumT", lambda x: x.sum(), lambda x: x.sum(), [(3, 2)], [(f32,)])
    add("dot", lambda x, y: x @ y, lambda x, y: x @ y, [(2, 3), (3, 2)], [(f32, f32)])
    add("dotT", lambda x, y: y @ x, lambda x, y: y @ x, [(2, 3), (3, 2)], [(f32, f32)])
    add("two", lambda x, y: (x + y, x * y), lambda x, y: (x + y, x * y), [(3,), (3,)],
        [(f32, f32)])
    add("owt", lambda x, y: (x * y, x + y), lambda x, y: (x * y, x + y), [(3,), (3,)],
        [(f32, f32)])
    add("same", lambda x: (x, x), lambda x: (x, x), [(3,)], [(i32,)])
    add("const", lambda x: (x, jnp.arange(4)), lambda x: (x, np.arange(4)), [(2,)], [(f32,)])
    # long programs that differ in one place
    big = (np.arange(20000) * 7919 % 90001).astype(np.int32)
    for at in (0, 9999, 19999, None):
        t = big.copy()
        if at is not None:
            t[at] = 90002
        add(f"big{at}", lambda x, t=t: jnp.asarray(t)[x], lambda x, t=t: t[x], [(3,)], [(i32,)])
    for last in (1, 2):
        def chain(x, last=last):
            for i in range(150):
                x = x * 3 + i if i % 2 else x - i
            return x + last
        add(f"chain{last}", chain, chain, [(3,)], [(i32,)])
    res = []
    for name, fn, ref, shapes, dts in out:
        for dt in dts:
            res.append((f"{name}:{','.join(np.dtype(d).name for d in dt)}", fn, ref,
                        list(zip(shapes, dt))))
    return res


PROGRAMS = _programs()
_GRAPHS = {}
_COMPILED = {}
_SAVED = {}


class _Client:
    """The XLA client; compiling the same text twice returns the first program."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def compile_and_load(self, code, *a, **kw):
        k = K.CURRENT
        if k is not None:
            k.probe("compiled")
        if code not in _COMPILED:
            exe = _COMPILED[code] = self._real.compile_and_load(code, *a, **kw)
            # A program that has run may no longer be serializable (sort): a process
            # that compiles saves before it runs, so the saved form is kept as well.
            try:
                _SAVED[id(exe)] = self._real.serialize_executable(exe)
            except Exception as e:
                _SAVED[id(exe)] = e
        return _COMPILED[code]

    def serialize_executable(self, exe, *a, **kw):
        r = _SAVED.get(id(exe))
        if r is None:
            return self._real.serialize_executable(exe, *a, **kw)
        if isinstance(r, Exception):
            raise r
        return r

    def deserialize_executable(self, *a, **kw):
        r = self._real.deserialize_executable(*a, **kw)
        if K.CURRENT is not None:
            K.CURRENT.probe("from-disk")
        return r


class PerProcess(dict):
    """A module-level dictionary: one content per simulated process."""

    def _d(self):
        t = K.current_task()
        n = t.node if t is not None else None
        d = self.__dict__.setdefault("by", {})
        return d.setdefault(n, {})

    def __contains__(self, x):
        return x in self._d()

    def __getitem__(self, x):
        return self._d()[x]

    def __setitem__(self, x, v):
        self._d()[x] = v

    def __delitem__(self, x):
        del self._d()[x]

    def __len__(self):
        return len(self._d())

    def __iter__(self):
        return iter(list(self._d()))

    def get(self, x, default=None):
        return self._d().get(x, default)

    def pop(self, *a):
        return self._d().pop(*a)

    def setdefault(self, x, v=None):
        return self._d().setdefault(x, v)

    def clear(self):
        self._d().clear()

    def keys(self):
        return self._d().keys()

    def items(self):
        return self._d().items()

    def values(self):
        return self._d().values()


def _install():
    if _GRAPHS:
        return
    real = jxt.backend.get_backend()
    client = _Client(real)
    jxt.backend.get_backend = lambda *a, **kw: client
    for name, v in list(vars(tensor_impl).items()):
        if type(v) is dict and not v and not name.startswith("__"):
            setattr(tensor_impl, name, PerProcess())


def graph_of(i):
    """The traced program, as a graph with its arguments as inputs."""
    return _GRAPHS[i]


def arrays(k, i):
    spec = PROGRAMS[i][3]
    if PROGRAMS[i][0].startswith("big"):
        return [np.array([(0, 9999, 19999)[k.work(3)] for _ in range(3)], np.int32)]
    return [np.array([k.work(20) - 5 for _ in range(int(np.prod(s)))], dt).reshape(s)
            for s, dt in spec]


def prepare():
    _install()
    if _GRAPHS:
        return
    for i, (_n, fn, _r, spec) in enumerate(PROGRAMS):
        zeros = [np.zeros(s, d) for s, d in spec]
        g = mp.compile(lambda fn=fn, zeros=zeros: tensor.run_jax(
            fn, *[tensor.constant(z) for z in zeros])).graph
        (op,) = [o for o in g.operations if o.opcode == "tensor.run_jax"]
        h = Graph()
        ins = [h.add_input(f"in{j}", v.type) for j, v in enumerate(op.inputs)]
        for v in h.add_op(op.opcode, ins, [v.type for v in op.outputs], dict(op.attrs)):
            h.add_output(v)
        _GRAPHS[i] = h


def cache_files(root):
    out = []
    for d, _s, fs in os.walk(root):
        out += [os.path.join(d, f) for f in sorted(fs)]
    return sorted(out)


def damage(k, root):
    """What a machine's user or a broken disk does to files kept below `root`."""
    for p in cache_files(root):
        c = k.fault_int(8)
        if c >= 5:
            continue
        k.probe("damaged")
        with open(p, "rb") as f:
            data = f.read()
        os.unlink(p)
        if c == 0:
            data = data[:k.fault_int(len(data) + 1)]
        elif c == 1:
            data = b""
        elif c == 2:
            data = b"not a program\n" * (1 + k.fault_int(5))
        elif c == 3:
            os.mkdir(p)
            continue
        else:
            n = k.fault_int(len(data) + 1)
            data = data[:n] + bytes(len(data) - n)
        with open(p, "wb") as f:
            f.write(data)
    if k.fault_int(8) == 0 and os.path.isdir(root + "/cache"):
        # a file in the place of the directory
        import shutil

        shutil.rmtree(root + "/cache")
        with open(root + "/cache", "w") as f:
            f.write("taken")
        k.probe("damaged")


def cache(k):
    from mplang.backends.tensor_impl import TensorValue
    from mplang.runtime.interpreter import Interpreter

    stalls(k)
    fs = k.fs
    n = 1 + k.work(3)
    shared = n > 1 and k.work(2)
    roots = ["data/node0" if shared else f"data/node{i}" for i in range(n)]
    for r in roots:
        os.makedirs(r, exist_ok=True)
    if shared:
        k.probe("shared-root")
    pool = range(len(PROGRAMS))
    if k.work(3) == 0:
        kind = ("big", "chain", "lin")[k.work(3)]
        pool = [i for i in pool if PROGRAMS[i][0].startswith(kind)]
        k.probe("long")
    few = [pool[k.work(len(pool))] for _ in range(2 + k.work(4))]
    mode = k.work(5)
    fs.filter = lambda p: "data/" in p
    if mode in (1, 2):
        fs.durable = simos.Durable(k)
    fs.on_crash = lambda nd: (k.probe("crash"), k.kill_node(nd))

    def job(root, steps):
        it = Interpreter(name="it", root_dir=root)
        for i, ints in steps:
            name, _fn, ref, spec = PROGRAMS[i]
            vals = arrays_of[(i, ints)]
            args = [TensorValue.wrap(v) for v in vals]
            try:
                got = it.evaluate_graph(graph_of(i), args)
            except (RuntimeError, OSError, KeyError, ValueError) as e:
                k.fail("computation-prevented",
                       f"{name} on {root}: {type(e).__name__}: {str(e)[:300]}")
            k.probe("ran")
            want = ref(*vals)
            got = [g.unwrap() for g in got]
            want = [np.asarray(w) for w in (want if isinstance(want, tuple) else [want])]
            if len(got) != len(want) or any(
                    a.shape != b.shape or not (a == b).all() for a, b in zip(got, want)):
                k.fail("wrong-result", f"{name}: got {got}, expected {want}")

    arrays_of = {}

    def steps():
        out = []
        for _ in range(1 + k.work(4)):
            i = few[k.work(len(few))]
            c = k.work(4)
            if (i, c) not in arrays_of:
                arrays_of[(i, c)] = arrays(k, i)
            out.append((i, c))
        return out

    for life in range(1 + k.work(3)):
        if life:
            k.probe("restarted")
        nodes = [K.Node(f"p{i}.{life}") for i in range(n)]
        if mode == 3 or (mode == 4 and life):
            fs.p_write_err = (0.3, 1.0)[k.fault_int(2)]
            fs.p_meta_err = (0.0, 0.3, 1.0)[k.fault_int(3)]
            fs.p_read_err = (0.0, 0.3, 1.0)[k.fault_int(3)]
        else:
            fs.p_write_err = fs.p_meta_err = fs.p_read_err = 0.0
        fs.p_short = 0.3 if k.fault_int(3) == 0 else 0.0
        if mode in (1, 2) and k.fault_int(2):
            fs.crash_at[nodes[k.fault_int(n)]] = k.fault_int(25)
        js = []
        for i in range(n):
            m = 1 + k.work(3)
            if m > 1:
                k.probe("concurrent")
            js += [(nodes[i], go(k, lambda r=roots[i], s=steps(): job(r, s),
                                 f"p{i}.{life}.job{j}", nodes[i])) for j in range(m)]
        end = k.now + 2000.0
        while any(nd.alive and not j.finished for nd, j in js) and k.now < end:
            k.sleep(1.0)
        raise_unexpected(k, [j for _nd, j in js if j.finished])
        if any(nd.alive and not j.finished for nd, j in js):
            k.fail("no-progress", "evaluations did not end")
        fs.crash_at.clear()
        for nd in nodes:
            if nd.alive:
                k.kill_node(nd)
        if mode == 2:
            k.probe("power")
            fs.durable.power_loss("data")
        if mode == 4 or (mode == 0 and k.fault_int(3) == 0):
            for r in sorted(set(roots)):
                damage(k, r)


prepare()
VARIANTS = {"cache": Variant(cache, 0)}
