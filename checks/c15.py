"""C15: table files: every party reads its own, and writes all or nothing."""

import hashlib
import json
import os

import pyarrow as pa
import pyarrow.csv
import pyarrow.json
import pyarrow.parquet

import mplang as mp
import mplang.edsl.typing as elt
from checks import spmd
from checks.common import Variant, go, join_all, net_faults, how_many, raise_unexpected, stalls
from mplang.backends import table_impl
from mplang.dialects import simp, table
from sim import kernel as K
from sim import runner as R

PLAN = {"parties": (600, 4000), "columns": (200, 1500), "typed": (600, 6000),
        "mem": (300, 2400), "http": (200, 1500)}
LEVEL = "exploration"
RULE = ("Parties sharing a process and a working directory read, query and write table files "
        "of the same names, several jobs at once, lazily and repeatedly, in parquet, CSV and "
        "JSON; writes that fail half way, repeat, conflict, race, or are cut off by a crash; "
        "paths leading elsewhere; files of several tables of up to 131072 rows from files, "
        "queries and memory; columns of every type declared in part, reordered or wider. "
        "Compared with a model of each party's files.")
REAL = ["table.read / write / run_sql implementations", "ObjectStore, FileSystemBackend",
        "interpreters, worker apps, drivers, in-process cluster",
        "pyarrow and DuckDB (their own threads run to completion inside one step)"]
STUB = ["disk metadata operations behind wrappers that interleave and crash",
        "clock, OS threads, network (simulated)", "libspu"]
ASSUMPTIONS = ["nobody but the program changes the parties' files meanwhile"]
MUST_PROBE = ["read", "query", "write", "lazy", "refused", "rewritten", "half-way", "crash", "copied",
              "escape-refused", "absolute", "missing", "at-once", "wide", "unequal",
              "late-difference", "declared", "tensor", "side-by-side", "small-batches",
              "pieces"]
SCHEMA = {"id": elt.i64, "v": elt.i64, "s": elt.STRING}
FORMATS = ["parquet", "csv", "json"]


def rows(seed, n):
    return {"id": list(range(n)), "v": [(seed * 7919 + i * 31) % 100_003 for i in range(n)],
            "s": [f"r{seed}, {i} é" for i in range(n)]}


def put_file(path, fmt, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    t = pa.table(data)
    if fmt == "parquet":
        pyarrow.parquet.write_table(t, path)
    elif fmt == "csv":
        pyarrow.csv.write_csv(t, path)
    else:
        t.to_pandas().to_json(path, orient="records", lines=True)


def file_rows(k, path, fmt, text=()):
    """The rows of a file, read independently of the code under test."""
    text = pa.schema([(c, ARROW[kd]) for c, kd in dict(text).items()])
    try:
        if fmt == "parquet":
            t = pyarrow.parquet.read_table(path)
        elif fmt == "csv":
            t = pyarrow.csv.read_csv(path, convert_options=pyarrow.csv.ConvertOptions(
                column_types=text))
        else:
            t = pyarrow.json.read_json(path, parse_options=pyarrow.json.ParseOptions(
                explicit_schema=text))
    except FileNotFoundError:
        return None
    except Exception as e:  # noqa: BLE001
        k.fail("torn-table", f"{path}: {type(e).__name__}: {e}")
    return t.to_pydict()


def digest(root):
    out = {}
    for d, _s, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[p] = "-> " + os.readlink(p)
            else:
                with open(p, "rb") as h:
                    out[p] = hashlib.sha256(h.read()).hexdigest()
    return out


def query(t, c):
    return table.run_sql(f"SELECT id, v + {c} AS v, s FROM t ORDER BY id",
                         out_type=elt.TableType(SCHEMA), t=t)


def plus(data, c):
    return {"id": data["id"], "v": [x + c for x in data["v"]], "s": data["s"]}


def shown(x):
    x = x.data if hasattr(x, "data") and not isinstance(x, pa.Table) else x
    if hasattr(x, "to_pydict"):
        return x.to_pydict()
    return {c: list(x[c]) for c in x.columns}


def kind(name):
    f = name.rpartition(".")[2]
    return "auto" if f == "json" else f


def brief(d):
    return None if d is None else {c: v[:3] for c, v in d.items()}


# ---------------------------------------------------- parties as bare interpreters
class Party:
    def __init__(self, k, r, base):
        from mplang.runtime.interpreter import Interpreter
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        self.k = k
        self.r = r
        self.base = base
        self.make = lambda: Interpreter(
            name=f"party{r}", root_dir=base, trace_pid=r,
            store=ObjectStore(FileSystemBackend(base + "/store")))
        self.files = {}     # name -> rows put there by the harness
        self.tried = {}     # name -> [rows of writes begun]
        self.won = {}       # name -> [rows of writes that succeeded]

    def path(self, name):
        return f"{self.base}/store/{name}"


def evaluate(interp, fn):
    t = mp.compile(fn, context=interp)
    return lambda: interp.evaluate_graph(t.graph, [])


ESCAPES = ["../out.parquet", "../../out.parquet", "a/../../out.csv", "../store2/out.parquet",
           "../../node1/store/t0.parquet", "../../../.tmp/t0.parquet"]


def parties(k):
    n = how_many(k, 1 + k.work(3))
    ps = [Party(k, r, f"data/node{r}") for r in range(n)]
    fmts = [FORMATS[k.work(3)] for _ in range(2)]
    names = [f"{('t', 'sub/t')[k.work(2)]}{i}.{f}" for i, f in enumerate(fmts)]
    outs = [f"{('out', 'deep/er/out')[k.work(2)]}.{FORMATS[k.work(3)]}", "out2.parquet"]
    fmt_of = dict(zip(names, fmts))
    for o in outs:
        fmt_of[o] = o.rpartition(".")[2]
    for p in ps:
        for i, nm in enumerate(names):
            if k.work(8):
                # same names, same sizes, different rows
                p.files[nm] = rows(100 * p.r + i + 1, (3, 3, 40)[k.work(3)])
                put_file(p.path(nm), fmt_of[nm], p.files[nm])
    stalls(k)
    fs = k.fs
    crash = k.work(3) == 0
    fs.filter = lambda path: "data/" in path or ".tmp" in path
    node = K.Node("machine")
    fs.on_crash = lambda nd: (k.probe("crash"), k.kill_node(nd))

    def job(p, j):
        it = p.make()
        held = []
        seed = 1000 * (j + 1) + 10 * p.r
        for step in range(1 + k.work(4)):
            c = k.work(10)
            nm = names[k.work(len(names))]
            if c < 3:
                data = p.files.get(nm)
                try:
                    got = evaluate(it, lambda: table.read(
                        nm, schema=elt.TableType(SCHEMA)))()[0]
                except FileNotFoundError:
                    if data is not None:
                        raise
                    k.probe("missing")
                    continue
                if data is None:
                    k.fail("wrong-table", f"party {p.r} has no {nm}, read succeeded")
                k.probe("read")
                held.append((got, data, f"{nm} on party {p.r}"))
                if k.work(2):
                    check_held(held)
            elif c < 5 and p.files.get(nm) is not None:
                f = evaluate(it, lambda: query(table.read(
                    nm, schema=elt.TableType(SCHEMA)), step))
                got = f()[0]
                k.probe("query")
                held.append((got, plus(p.files[nm], step), f"query of {nm} on party {p.r}"))
            elif c < 8:
                o = outs[k.work(2)]
                data = rows(seed + (step if k.work(2) else 0), 3)
                do_write(p, it, o, data)
            elif c == 8:
                # writing over the file it reads
                if p.files.get(nm) is None or not nm.endswith("parquet"):
                    continue
                f = evaluate(it, lambda: table.write(query(table.read(
                    nm, schema=elt.TableType(SCHEMA)), 1 + step), nm))
                try:
                    f()
                except FileExistsError:
                    k.probe("refused")
                else:
                    k.fail("overwrote", f"party {p.r} replaced {nm} by other rows")
            else:
                bad(p, it, k.work(3))
        check_held(held)

    def check_held(held):
        for got, want, what in held:
            if k.work(2):
                k.probe("lazy")
            d = shown(got)
            if d != want:
                k.fail("wrong-table", f"{what}: got {brief(d)}, expected {brief(want)}")

    def do_write(p, it, o, data):
        p.tried.setdefault(o, []).append(data)
        f = evaluate(it, lambda: table.write(table.constant(data), o, format=kind(o)))
        k.probe("write")
        try:
            f()
        except FileExistsError:
            k.probe("refused")
            if all(d == data for d in p.tried[o]):
                k.fail("refused-same", f"party {p.r}: rewriting {o} with the same rows failed")
            return
        won = p.won.setdefault(o, [])
        if data in won:
            k.probe("rewritten")
        won.append(data)
        have = file_rows(k, p.path(o), fmt_of[o])
        if have != data:
            k.fail("lost-table", f"party {p.r} wrote {o} {brief(data)}, file has {brief(have)}")

    def bad(p, it, which):
        if which == 0:
            # two tables of different lengths: fails half way
            o = f"broken.{FORMATS[k.work(3)]}"
            a = {"a": list(range(3))}
            b = {"b": list(range(5))}
            f = evaluate(it, lambda: table.write(
                [table.constant(a), table.constant(b)], o, format=kind(o)))
            try:
                f()
            except ValueError:
                k.probe("half-way")
            else:
                k.fail("half-written", f"tables of different lengths were written to {o}")
        elif which == 1:
            o = ESCAPES[k.work(len(ESCAPES))]
            if k.work(2):
                f = evaluate(it, lambda: table.write(table.constant(rows(1, 2)), o))
            else:
                f = evaluate(it, lambda: table.read(o, schema=elt.TableType(SCHEMA)))
            try:
                f()
            except (ValueError, OSError):
                k.probe("escape-refused")
            else:
                k.fail("outside-storage", f"party {p.r}: {o} was accepted")
        else:
            # an absolute path names a file of the machine
            o = os.path.abspath(f"shared/in{p.r}.parquet")
            got = evaluate(it, lambda: table.read(o, schema=elt.TableType(SCHEMA)))()[0]
            if shown(got) != rows(77 + p.r, 4):
                k.fail("wrong-table", f"{o}: {brief(shown(got))}")
            k.probe("absolute")

    for p in ps:
        put_file(f"shared/in{p.r}.parquet", "parquet", rows(77 + p.r, 4))
    before = digest(".")
    if crash:
        fs.crash_at[node] = 10 + k.fault_int(60)
    jobs = [1 + k.work(2) for _ in ps]
    # the temporary directory on another filesystem, or a filesystem without hard links
    # (where nothing promises that two writers at once keep off each other's file)
    fs.links = (None, None, "within", "never" if max(jobs) == 1 else "within")[k.work(4)]
    if fs.links:
        k.probe("copied")
    js = [go(k, lambda p=p, j=j: job(p, j), f"party{p.r}.job{j}", node)
          for p, n in zip(ps, jobs) for j in range(n)]
    if len(js) > 1:
        k.probe("at-once")
    end = k.now + 5_000.0
    while node.alive and not all(j.finished for j in js) and k.now < end:
        k.sleep(1.0)
    raise_unexpected(k, [j for j in js if j.finished])
    if node.alive and not all(j.finished for j in js):
        k.fail("no-progress", "reading and writing did not finish")
    fs.crash_at.clear()
    _inspect(k, ps, before, fmt_of, not node.alive)
    if not node.alive:
        # restarted: everything can be read and written again
        def again():
            for p in ps:
                it = p.make()
                for nm, data in p.files.items():
                    got = evaluate(it, lambda: table.read(
                        nm, schema=elt.TableType(SCHEMA)))()[0]
                    if shown(got) != data:
                        k.fail("wrong-table", f"after a crash, {nm} on party {p.r}")
                for o in outs:
                    have = file_rows(k, p.path(o), fmt_of[o])
                    if have is None:
                        do_write(p, it, o, rows(5, 2))
        j = go(k, again, "again")
        join_all(k, [j], 1000.0, "working after a crash")
        raise_unexpected(k, [j])

    if fs.escapes:
        k.fail("outside-storage", f"{fs.escapes}")


def _inspect(k, ps, before, fmt_of, crashed):
    for p in ps:
        for o, tried in p.tried.items():
            have = file_rows(k, p.path(o), fmt_of[o])
            won = p.won.get(o, [])
            if have is None:
                if won:
                    k.fail("lost-table", f"party {p.r}: {o} was written and is gone")
            elif have not in tried:
                k.fail("torn-table", f"party {p.r}: {o} has {brief(have)}, nobody wrote that")
            if any(d != have for d in won):
                k.fail("lost-table", f"party {p.r}: {o} has {brief(have)}, but a write of "
                       f"{[brief(d) for d in won if d != have]} succeeded")
    after = digest(".")
    ok = {os.path.normpath(os.path.join(".", p.path(o))) for p in ps for o in p.tried}
    for f, d in after.items():
        g = os.path.normpath(f)
        if g.startswith(".tmp" + os.sep) or g in ok or g.startswith("tmp" + os.sep):
            continue
        if f not in before and any(g.startswith(o + ".") for o in ok):
            if k.fs.links and crashed:
                continue        # a copy the crash cut off
            k.fail("left-over", f"{f} was left behind")
        if before.get(f) != d:
            k.fail("outside-storage" if f not in before else "overwrote",
                   f"{f} was {'changed' if f in before else 'created'}")
    for f in before:
        if f not in after:
            k.fail("overwrote", f"{f} is gone")


# --------------------------------------------- one file from several parties' tables
SIZES = (7, 4000, 65_536, 70_000, 131_072)


def source_expr(k, p, i, n, col, seed):
    """A one-column table of n rows by one of several routes, as (expr thunk, rows)."""
    vals = [(seed * 131 + j * 17) % 9973 for j in range(n)]
    data = {col: vals}
    route = k.work(6)
    ty = elt.TableType({col: elt.i64})
    if route < 2:
        nm = f"src{i}.parquet"
        path = p.path(nm)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        group = (None, max(1, n // 3), 65_536)[k.work(3)]
        pyarrow.parquet.write_table(pa.table(data), path, row_group_size=group)
        return lambda: table.read(nm, schema=ty), data
    if route < 4:
        fmt = ("csv", "json")[route - 2]
        nm = f"src{i}.{fmt}"
        put_file(p.path(nm), fmt, data)
        return lambda: table.read(nm, schema=ty), data
    if route == 4:
        return lambda: table.constant(data), data
    nm = f"src{i}.parquet"
    put_file(p.path(nm), "parquet", data)
    return lambda: table.run_sql(f"SELECT {col} FROM t", out_type=ty,
                                 t=table.read(nm, schema=ty)), data


def columns(k):
    n = 1 + k.work(2)
    ps = [Party(k, r, f"data/node{r}") for r in range(n)]
    stalls(k)

    def job(p):
        it = p.make()
        for w in range(1 + k.work(2)):
            size = SIZES[k.work(len(SIZES))]
            m = 1 + k.work(3)
            sizes = [size] * m
            if m > 1 and k.work(3) == 0:
                other = (size - 1, size + 1, size // 2, 0, 65_536)[k.work(5)]
                sizes[k.work(m)] = other
            srcs = []
            for i in range(m):
                if not sizes[i]:
                    v = {f"c{i}": []}
                    nm = f"empty{w}{i}.parquet"
                    path = p.path(nm)
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    pyarrow.parquet.write_table(
                        pa.table({f"c{i}": pa.array([], pa.int64())}), path)
                    srcs.append((lambda nm=nm, i=i: table.read(
                        nm, schema=elt.TableType({f"c{i}": elt.i64})), v))
                else:
                    srcs.append(source_expr(k, p, f"{w}{i}", sizes[i], f"c{i}",
                                            p.r * 1000 + w * 100 + i))
            o = f"wide{w}.{FORMATS[k.work(3)]}"
            f = evaluate(it, lambda: table.write([e() for e, _d in srcs], o,
                                                 format=kind(o)))
            try:
                f()
            except ValueError as e:
                if len(set(sizes)) == 1:
                    k.fail("refused-same", f"party {p.r}: columns of {sizes} rows: {e}")
                if os.path.exists(p.path(o)):
                    k.fail("half-written", f"party {p.r}: {o} exists after a failed write")
                k.probe("unequal")
                continue
            if len(set(sizes)) > 1:
                k.fail("half-written", f"columns of {sizes} rows were written to {o}")
            want = {c: v for _e, d in srcs for c, v in d.items()}
            have = file_rows(k, p.path(o), o.rpartition(".")[2])
            if have != want:
                k.fail("lost-table", f"party {p.r} wrote {m} tables of {size} rows to {o}, "
                       f"which has {[len(v) for v in (have or {}).values()]}: {brief(have)}")
            k.probe("wide" if m > 1 else "tall")
            if k.work(2) == 0:
                # the same table with one other number: as large, but not the same
                other = {c: list(v) for c, v in want.items()}
                c = f"c{m - 1}"
                at = (size - 1, size // 2, k.work(size))[k.work(3)]
                old = other[c][at]
                other[c][at] = old + (1 if old % 10 < 9 else -1)
                nm = f"other{w}.parquet"
                put_file(p.path(nm), "parquet", other)
                ty = elt.TableType({c: elt.i64 for c in other})
                try:
                    evaluate(it, lambda: table.write(table.read(nm, schema=ty), o,
                                                     format=kind(o)))()
                except FileExistsError:
                    k.probe("late-difference")
                else:
                    k.fail("overwrote", f"party {p.r}: writing another table of {size} rows "
                           f"(column {c}, row {at}) to {o} was not refused")
                if file_rows(k, p.path(o), o.rpartition(".")[2]) != want:
                    k.fail("overwrote", f"party {p.r}: a refused write changed {o}")

    js = [go(k, lambda p=p: job(p), f"party{p.r}") for p in ps]
    join_all(k, js, 50_000.0, "writing tables")
    raise_unexpected(k, js)


# ------------------------------------------- declared columns of every type and order
KINDS = {   # kind of the file's column -> kinds it may be declared as
    "i8": ("i8", "i16", "i32", "i64", "f64"), "i16": ("i16", "i32", "i64"),
    "i32": ("i32", "i64", "f64"), "i64": ("i64",), "u8": ("u8", "u16", "i32", "u64"),
    "u32": ("u32", "u64", "i64"), "u64": ("u64",), "f32": ("f32", "f64"), "f64": ("f64",),
    "bool": ("bool",), "str": ("str",)}
ARROW = {"i8": pa.int8(), "i16": pa.int16(), "i32": pa.int32(), "i64": pa.int64(),
         "u8": pa.uint8(), "u16": pa.uint16(), "u32": pa.uint32(), "u64": pa.uint64(),
         "f32": pa.float32(), "f64": pa.float64(), "bool": pa.bool_(), "str": pa.string()}
DECLARED = {"i8": elt.i8, "i16": elt.i16, "i32": elt.i32, "i64": elt.i64, "u8": elt.u8,
            "u16": elt.u16, "u32": elt.u32, "u64": elt.u64, "f32": elt.f32, "f64": elt.f64,
            "bool": elt.bool_, "str": elt.STRING}


def _small_batches():
    table_impl.DEFAULT_BATCH_SIZE = BATCH


BATCH = table_impl.DEFAULT_BATCH_SIZE
R.RESETS.append(_small_batches)


LOOKS = [["007", "10", "1e3", "1.50"], ["2020-01-02", "1999-12-31"], ["true", "False", "TRUE"],
         ["2020-01-02T03:04:05", "2020-01-02T03:04:06"], ["2020-01-02 03:04:05.100"],
         ["12:30:00", "01:02:03"], ["0F1A2B3C-0000-4000-8000-0123456789AB"], ["+5", "-0"]]


def column(k, kd, n, fmt, nulls):
    """n values of kind kd that a file of format fmt can hold."""
    if kd in ("f32", "f64"):
        v = [(k.work(4001) - 2000) / 8 for _ in range(n)]
        if kd == "f64" and k.work(2):
            v = [x * (1e-13, 0.1, 1e300)[k.work(3)] for x in v]
    elif kd == "bool":
        v = [k.work(2) == 1 for _ in range(n)]
    elif kd == "str":
        v = [f"r{k.work(50)}, \"é\" {i}" for i in range(n)]
        if k.work(2):               # looks like something else
            some = LOOKS[k.work(len(LOOKS))]
            v = [some[k.work(len(some))] for _ in range(n)]
            k.probe("look-alike")
    else:
        lo, hi = (0 if kd[0] == "u" else -1 << int(kd[1:]) - 1), None
        hi = lo + (1 << int(kd[1:])) - 1
        if fmt == "json":               # numbers a JSON reader keeps
            lo, hi = max(lo, -1 << 52), min(hi, 1 << 52)
        some = [lo, hi, 0, hi // 3, lo + (hi - lo) // 7]
        v = [some[k.work(5)] if k.work(4) == 0 else lo + k.work(min(hi - lo, 1 << 20) + 1)
             for _ in range(n)]
    if nulls:
        v = [None if k.work(5) == 0 else x for x in v]
    return v


def typed(k):
    """Files with columns of every type, read as declared: some of the columns, in another
    order, as wider types; queried, turned into tensors and back, and written side by side."""
    ps = [Party(k, r, f"data/node{r}") for r in range(1 + k.work(2))]
    stalls(k)
    if k.work(2):
        # tables are streamed in batches of this many rows
        table_impl.DEFAULT_BATCH_SIZE = 1 + k.work(7)
        k.probe("small-batches")

    def source(p, i, n, kinds=None):
        """A file: its name and its columns, by name, as (kind, values)."""
        fmt = FORMATS[k.work(3)]
        nm = f"typed{i}.{fmt}"
        cols = {}
        for j in range(1 + k.work(5)):
            kd = (kinds or list(KINDS))[k.work(len(kinds or KINDS))]
            nulls = not kinds and k.work(3) == 0 and (fmt, kd) != ("csv", "str")
            cols[f"k{i}_{(j * 3) % 7}"] = kd, column(k, kd, n, fmt, nulls)
        if fmt == "csv":            # a blank line is no row
            cols["row"] = "i32", list(range(n))
        t = pa.table({c: pa.array(v, ARROW[kd]) for c, (kd, v) in cols.items()})
        path = p.path(nm)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if fmt == "parquet":
            pyarrow.parquet.write_table(t, path, row_group_size=1 + k.work(2 * n))
        elif fmt == "csv":
            pyarrow.csv.write_csv(t, path)
        else:
            with open(path, "w") as h:
                for i in range(n):
                    h.write(json.dumps({c: v[i] for c, (_k, v) in cols.items()}) + "\n")
        return nm, cols

    def declare(cols, wider):
        """Some of the columns in some order: (schema, expected rows, types)."""
        left, picked = list(cols), []
        while left and (not picked or k.work(4)):
            picked.append(left.pop(k.work(len(left))))
        as_ = {}
        for c in picked:
            may = KINDS[cols[c][0]]
            as_[c] = may[k.work(len(may))] if wider else cols[c][0]
        return (elt.TableType({c: DECLARED[d] for c, d in as_.items()}),
                {c: cols[c][1] for c in picked}, {c: ARROW[d] for c, d in as_.items()})

    def same(got, want, types, what):
        d = shown(got)
        if d != want or list(d) != list(want):
            k.fail("wrong-table", f"{what}: got {brief(d)}, expected {brief(want)}")
        x = got.data if hasattr(got, "data") and not isinstance(got, pa.Table) else got
        if hasattr(x, "schema"):
            have = {f.name: f.type for f in x.schema}
            if have != types:
                k.fail("wrong-table", f"{what}: columns are {have}, declared {types}")

    def job(p):
        it = p.make()
        for w in range(1 + k.work(3)):
            n = (1, 3, 10, 40, 300)[k.work(5)]
            c = k.work(4)
            if c == 0:
                nm, cols = source(p, w, n)
                schema, want, types = declare(cols, True)
                got = evaluate(it, lambda: table.read(nm, schema=schema))()[0]
                same(got, want, types, f"{nm} on party {p.r}")
                k.probe("declared")
            elif c == 1:
                nm, cols = source(p, w, n)
                schema, want, types = declare(cols, True)
                _s, less, kept = declare({c: (d, want[c]) for c, (d, _v) in cols.items()
                                          if c in want}, False)
                kept = {c: types[c] for c in less}
                out = elt.TableType({c: schema.schema[c] for c in less})
                got = evaluate(it, lambda: table.run_sql(
                    f"SELECT {', '.join(less)} FROM t", out_type=out,
                    t=table.read(nm, schema=schema)))()[0]
                same(got, less, kept, f"query of {nm} on party {p.r}")
                k.probe("query")
            elif c == 2:
                kd = list(KINDS)[k.work(9)]
                nm, cols = source(p, w, n, [kd])
                cols.pop("row", 0)
                schema, want, types = declare(cols, False)
                names = [f"n{i}" for i in range(len(want))]

                def conv():
                    x = table.table2tensor(table.read(nm, schema=schema), number_rows=n)
                    return x, table.tensor2table(x, column_names=names)

                arr, back = evaluate(it, conv)()
                a = arr.unwrap()
                if a.tolist() != [list(r) for r in zip(*want.values())]:
                    k.fail("wrong-table", f"{nm} as a {a.dtype} tensor is {a[:3].tolist()}, "
                           f"expected {brief(want)}")
                same(back, dict(zip(names, want.values())),
                     {c: ARROW[kd] for c in names}, f"{nm} from a tensor")
                k.probe("tensor")
            else:
                o = f"typed-out{w}.{FORMATS[k.work(3)]}"
                want, reads, text = {}, [], []
                for i in range(1 + k.work(3)):
                    nm, cols = source(p, f"{w}_{i}", n)
                    cols.pop("row", 0)
                    if o.endswith("csv"):
                        cols = {c: (d, v) for c, (d, v) in cols.items()
                                if d != "str" or None not in v}
                    if o.endswith("json"):
                        # a JSON reader cannot tell big unsigned numbers
                        cols = {c: (d, v) for c, (d, v) in cols.items() if d != "u64"}
                    if not cols:
                        continue
                    schema, rows_, _t = declare(cols, True)
                    want.update(rows_)
                    if k.work(4) == 0:      # in memory, in pieces
                        whole = pa.table({c: pa.array(v, _t[c]) for c, v in rows_.items()})
                        cuts = sorted({0, n, *(k.work(n) for _ in range(k.work(8)))})
                        whole = pa.concat_tables(whole.slice(a, b - a)
                                                 for a, b in zip(cuts, cuts[1:]))
                        reads.append(lambda whole=whole: table.constant(whole))
                        text += [(c, cols[c][0]) for c in rows_ if cols[c][0] in ("str", "u64")]
                        k.probe("pieces")
                        continue
                    text += [(c, cols[c][0]) for c in rows_ if cols[c][0] in ("str", "u64")]
                    if k.work(3):
                        reads.append(lambda nm=nm, schema=schema: table.read(
                            nm, schema=schema))
                    else:
                        reads.append(lambda nm=nm, schema=schema: table.run_sql(
                            f"SELECT {', '.join(schema.schema)} FROM t", out_type=schema,
                            t=table.read(nm, schema=schema)))
                if (not reads or any(set(v) == {None} for v in want.values())
                        or o.endswith("csv") and len(want) == 1 and None in [*want.values()][0]):
                    continue
                evaluate(it, lambda: table.write([e() for e in reads], o, format=kind(o)))()
                have = file_rows(k, p.path(o), o.rpartition(".")[2], text)
                if have != want or not o.endswith("json") and list(have) != list(want):
                    k.fail("lost-table", f"party {p.r} wrote {o}: {brief(want)}, which has "
                           f"{brief(have)}")
                k.probe("side-by-side")

    js = [go(k, lambda p=p: job(p), f"party{p.r}") for p in ps]
    join_all(k, js, 50_000.0, "typed tables")
    raise_unexpected(k, js)


# ------------------------------------------------------------------------ clusters
class TableProgram:
    """Reads `name` on parties `ps`, queries it, writes `out`."""

    def __init__(self, name, fmt, ps, c, out, out_fmt):
        self.a = (name, fmt, ps, c, out, out_fmt)

    def fn(self):
        name, fmt, ps, c, out, out_fmt = self.a

        def run():
            t = simp.pcall_static(ps, lambda: table.read(
                name, schema=elt.TableType(SCHEMA),
                format="auto" if fmt == "json" else fmt))
            r = simp.pcall_static(ps, lambda x: query(x, c), t)
            if out:
                simp.pcall_static(ps, lambda x: table.write(x, out, format=kind(out)), r)
            return (t, r)
        return run


def on_cluster(k, cl, n, store_of):
    names = {}
    for i in range(1 + k.work(2)):
        fmt = FORMATS[k.work(3)]
        names[f"in{i}.{fmt}"] = fmt
    files = {}
    for nm, fmt in names.items():
        for r in range(n):
            files[r, nm] = rows(100 * r + len(nm), 4)
            put_file(f"{store_of(r)}/{nm}", fmt, files[r, nm])
    progs = []
    for i in range(1 + k.work(3)):
        nm = list(names)[k.work(len(names))]
        ps = tuple(range(n)) if k.work(3) else (k.work(n),)
        out = f"out{i}.{FORMATS[k.work(3)]}" if k.work(3) else None
        progs.append(TableProgram(nm, names[nm], ps, i + 1, out,
                                  out and out.rpartition(".")[2]))
    traced = [cl.compile(p) for p in progs]
    modes = [k.work(2) for _ in progs]

    def client(i):
        nm, _f, ps, c, out, ofmt = progs[i].a
        if modes[i]:
            got = cl.run_whole(progs[i], f"job{i}", traced[i])
        else:
            got = cl.run_traced(progs[i], traced[i])
        got = [g if isinstance(g, list) else [g] for g in got]
        for r in range(n):
            want = [files[r, nm], plus(files[r, nm], c)] if r in ps else [None, None]
            for j, what in enumerate(("read of", "query of")):
                g = got[j][r]
                d = None if g is None else shown(g)
                if d != want[j]:
                    k.fail("wrong-table", f"{what} {nm} on party {r}: {brief(d)}, expected "
                           f"{brief(want[j])}")
            if out and r in ps:
                have = file_rows(k, f"{store_of(r)}/{out}", ofmt)
                if have != want[1]:
                    k.fail("lost-table", f"party {r}: {out} has {brief(have)}")
            elif out and os.path.exists(f"{store_of(r)}/{out}"):
                k.fail("outside-storage", f"{out} appeared on party {r}")
            k.probe("read")

    if len(progs) > 1:
        k.probe("at-once")
    js = [go(k, lambda i=i: client(i), f"client{i}") for i in range(len(progs))]
    join_all(k, js, 50_000.0, "table programs")
    raise_unexpected(k, js)
    for (r, nm), data in files.items():
        if file_rows(k, f"{store_of(r)}/{nm}", names[nm]) != data:
            k.fail("overwrote", f"{nm} of party {r} changed")
    cl.close()


def mem(k):
    n = how_many(k, 1 + k.work(3))
    stalls(k)
    cl = spmd.MemCluster(k, n)
    on_cluster(k, cl, n, lambda r: f".mpl/__sim_{n}/node{r}/store")


def http(k):
    n = how_many(k, 1 + k.work(3))
    net_faults(k, ["slow"], 0.03)
    stalls(k)
    cl = spmd.HttpCluster(k, n)
    on_cluster(k, cl, n, lambda r: f".mpl/__http_{n}/node{r}")


VARIANTS = {"parties": Variant(parties, 0), "typed": Variant(typed, 0),
            "columns": Variant(columns, 0),
            "mem": Variant(mem, 0), "http": Variant(http, 0)}
