"""C14: checkpoints survive crashes whole, and stay inside their party's storage."""

import os
import posixpath

import numpy as np

import mplang as mp
from checks import spmd
from checks.common import Variant, go, join_all, net_faults, how_many, payload, raise_unexpected
from checks.common import same, stalls
from mplang.dialects import simp, store
from sim import kernel as K
from sim import simos

PLAN = {"objects": (2100, 16000), "names": (480, 3000), "cluster": (330, 2600),
        "local": (270, 2000)}
LEVEL = "exploration"
RULE = ("Saves, loads, deletions and listings by several threads of a party over few names, "
        "with process crashes and power failures at every disk operation, torn and short "
        "writes, disk errors, values that cannot be stored, and restarts; multi-party programs "
        "saving and loading over worker crashes; hostile names. Compared with a register per "
        "party and name.")
REAL = ["ObjectStore, FileSystemBackend, MemoryBackend", "store.save / store.load",
        "worker apps, drivers, in-process cluster", "pickle"]
STUB = ["disk: real files in a scratch directory behind wrappers that inject errors, tear "
        "writes, crash, and undo what was not synced", "clock, OS threads, network (simulated)",
        "local kernels (harness arithmetic)", "libspu"]
ASSUMPTIONS = ["a power failure keeps synced contents and keeps directory changes in order; "
               "one sync commits all earlier directory changes",
               "values are of kinds the runtime passes between computations"]
MUST_PROBE = ["crash", "power", "disk-error", "unstorable", "load-hit", "load-miss", "deleted",
              "recovered", "overlap", "refused-name", "sibling", "worker-crash", "reloaded",
              "second-cluster", "mem-gone", "look-alike"]
INF = float("inf")
ABSENT = object()


class Write:
    __slots__ = ("start", "end", "value")

    def __init__(self, start, value):
        self.start = start
        self.end = INF
        self.value = value


class Register:
    """Regular register: what a load may return given overlapping saves."""

    def __init__(self):
        w = Write(-1, ABSENT)
        w.end = -1
        self.writes = [w]

    def begin(self, t, value):
        w = Write(t, value)
        self.writes.append(w)
        return w

    def possible(self, start, end):
        out = []
        for w in self.writes:
            if w.start >= end:
                continue
            if any(q.start > w.end and q.end < start for q in self.writes):
                continue
            out.append(w)
        return out

    def power(self):
        """A power failure: deletions are not promised to have reached the disk."""
        for w in self.writes[1:]:
            if w.value is ABSENT:
                w.end = INF

    def settle(self, seen, t):
        """After a restart: what was observed is from now on the only value."""
        w = Write(t, seen)
        w.end = t
        self.writes = [w]


class Clock:
    def __init__(self):
        self.t = 0

    def __call__(self):
        self.t += 1
        return self.t


def eq(a, b):
    if a is ABSENT or b is ABSENT:
        return a is b
    return same(a, b)


def observe(k, reg, clock, read, what):
    t0 = clock()
    try:
        got = read()
    except (KeyError, FileNotFoundError):
        got = ABSENT
    except OSError as e:
        if "injected" in str(e):
            return None
        raise
    except (K.TaskKilled, K.Violation, K.HarnessError):
        raise
    except Exception as e:  # noqa: BLE001
        k.fail("torn-checkpoint", f"{what}: {type(e).__name__}: {e}")
    poss = reg.possible(t0, clock())
    if not any(eq(got, w.value) for w in poss):
        k.fail("wrong-checkpoint" if got is not ABSENT else "lost-checkpoint",
               f"{what}: got {'nothing' if got is ABSENT else repr(got)[:200]}, possible: "
               f"{['nothing' if w.value is ABSENT else repr(w.value)[:100] for w in poss]}")
    k.probe("load-miss" if got is ABSENT else "load-hit")
    return got


NAMES = ["ckpt", "ckpt2", "a/b", "a/c/d", "model.step=1", "ünï", ".hidden", "a b"]
# names easily taken for one another
FAMILIES = [["run2", "run\u00b2", "run\uff12", "run 2", "run-2"], ["\u00e9", "e\u0301", "e", "E\u0301"],
            ["CKPT", "ckpt", "Ckpt"], ["v1..2", "v12", "v1.2", "v1...2"], ["a.b", "a/b", "a_b", "a\\b"],
            ["x", "x ", " x", "x.", ".x"], ["m", "m.pkl", "m.tmp", "m.bak", "m~"],
            ["%41", "A", "%2541"], ["a+b", "a b", "a%20b"], ["l" * 120 + "1", "l" * 120 + "2"],
            ["~", "$HOME", "*", "?"], ["k#a", "k?a", "k", "k;a"], ["1", "01", "1.0", "1e0"],
            ["s/1/2", "s/12", "s1/2", "s/1_2"]]


class Unstorable:
    def __reduce__(self):
        raise TypeError("cannot be stored")


def big(k, uid):
    v = payload(k, uid)
    if getattr(v, "dtype", None) == ">i4":      # NumPy itself reads these back in native order
        v = v.astype("i4")
    if k.work(4) == 0:
        return [v, bytes([uid & 255]) * (9000 + 3000 * k.work(4))]
    if k.work(12) == 0:
        k.probe("unstorable")
        return [v, b"x" * (100 + 10_000 * k.work(2)), Unstorable()]
    return v


def unstorable(v):
    return isinstance(v, list) and len(v) == 3 and isinstance(v[2], Unstorable)


def objects(k):
    from mplang.runtime.object_store import FileSystemBackend, ObjectStore

    root = "data/node0/store"
    fs = k.fs
    fs.durable = simos.Durable(k)
    clock = Clock()
    pool = NAMES
    if k.work(2):
        pool = FAMILIES[k.work(len(FAMILIES))]
        k.probe("look-alike")
    names = [pool[k.work(len(pool))] for _ in range(1 + k.work(3))]
    names = sorted(set(names))
    regs = {n: Register() for n in names}
    uid = [0]
    writing = [0]

    def life(st, ops):
        for _ in range(ops):
            n = names[k.work(len(names))]
            c = k.work(8)
            spelled = (n, f"fs://{n}", "/" + n, n.replace("/", "//"))[k.work(4)]
            uri = spelled if "://" in spelled else f"fs://{spelled}"
            if c < 4:
                uid[0] += 1
                v = big(k, uid[0])
                w = regs[n].begin(clock(), v)
                writing[0] += 1
                if writing[0] > 1:
                    k.probe("overlap")
                try:
                    r = st.put(v, uri=spelled)
                except OSError as e:
                    if "injected" not in str(e):
                        raise
                    k.probe("disk-error")
                    continue
                except TypeError:
                    if not unstorable(v):
                        raise
                    regs[n].writes.remove(w)
                    continue
                finally:
                    writing[0] -= 1
                if unstorable(v):
                    k.fail("wrong-checkpoint", "an unstorable value was saved")
                w.end = clock()
                if st.resolve_uri(r) != r or not r.endswith(spelled.partition("://")[2]):
                    k.fail("wrong-identity", f"saved {spelled!r}, told {r!r}")
            elif c < 7:
                observe(k, regs[n], clock, lambda: st.get(uri), f"load {n!r}")
            else:
                w = regs[n].begin(clock(), ABSENT)
                try:
                    st.delete(uri)
                    w.end = clock()
                    k.probe("deleted")
                except FileNotFoundError:
                    pass
                except OSError as e:
                    if "injected" not in str(e):
                        raise

    def inspect(st, what):
        """Nothing is running: every name has one value; listings agree with it."""
        have = set()
        for n in names:
            got = observe(k, regs[n], clock, lambda: st.get(f"fs://{n}"), f"{what}: {n!r}")
            if got is not None and what == "restarted":
                regs[n].settle(got, clock())
            if got is not ABSENT:
                have.add(n)
            if st.exists(f"fs://{n}") != (got is not ABSENT):
                k.fail("wrong-listing", f"{what}: exists({n!r}) disagrees with load")
        listed = {x for x in st.list_keys() if x.startswith("fs://")}
        if listed != {f"fs://{n}" for n in have}:
            k.fail("wrong-listing", f"{what}: listed {sorted(listed)}, stored {sorted(have)}")

    def blackout():
        fs.durable.power_loss("data/node0")
        for r in regs.values():
            r.power()

    for gen in range(1 + k.work(3)):
        dead = False
        node = K.Node(f"party.{gen}")
        last = k.work(4) == 0
        power = k.work(2) == 1
        crash = not last
        if k.work(3) == 0:
            fs.p_write_err = 0.03
            fs.p_meta_err = 0.03
        fs.p_short = (0.0, 0.2)[k.work(2)]
        stalls(k)

        def on_crash(nd, power=power):
            k.probe("power" if power else "crash")
            if power:
                blackout()
            k.kill_node(nd)

        fs.on_crash = on_crash
        fs.crash_at.clear()
        boxes = {}

        def opened():
            boxes["st"] = ObjectStore(FileSystemBackend(root))

        j0 = go(k, opened, "open", node)
        join_all(k, [j0], 100.0, "opening the store")
        if isinstance(j0.error, OSError) and "injected" in str(j0.error):
            fs.p_write_err = fs.p_meta_err = 0.0
            opened()
        else:
            raise_unexpected(k, [j0])
        st = boxes["st"]
        if crash:
            fs.crash_at[node] = k.fault_int(40)
        js = [go(k, lambda: life(st, 1 + k.work(6)), f"job{i}", node)
              for i in range(1 + k.work(3))]
        end = k.now + 5_000.0
        while node.alive and not all(j.finished for j in js) and k.now < end:
            k.sleep(0.5)
        raise_unexpected(k, [j for j in js if j.finished])
        if node.alive and not all(j.finished for j in js):
            k.fail("no-progress", "saving and loading did not finish")
        fs.crash_at.clear()
        fs.p_write_err = fs.p_meta_err = fs.p_short = 0.0
        writing[0] = 0
        if node.alive and k.work(3) == 0:
            inspect(st, "running")
        if not node.alive or k.work(2):
            if node.alive and k.work(2):
                blackout()
                k.probe("power")
            fs.durable.writeback("data/node0")
            st = ObjectStore(FileSystemBackend(root))
            dead = True
        inspect(st, "restarted" if dead else "running")
        if dead:
            k.probe("recovered")
    if fs.escapes:
        k.fail("outside-storage", f"{fs.escapes}")


BAD = ["../x", "../../x", "a/../../x", "..", "../store2/x", "../store/../x", "../../node1/store/x",
       "../../node10/store/x", "/../x", "a/../..", "../store-old/ckpt", "a/../../store.bak/x"]
FINE = ["a/../b", "./a", "a//b", "..a", "a..", "...", "a/..b/c", "/abs/name", "~/x", "a\\b"]


def names(k):
    """No name reaches anything outside the party's own storage."""
    from mplang.runtime.object_store import FileSystemBackend, ObjectStore

    others = ["data/node0/x", "data/x", "data/node0/store2/x", "data/node1/store/x",
              "data/node10/store/x", "data/node0/store-old/ckpt", "data/node0/store.bak/x", "x"]
    me = ("data/node0/store", "data/node1/store")[k.work(2)]
    others = [p for p in others if not p.startswith(me + "/")]
    for p in others:
        os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
        with open(p, "wb") as f:
            f.write(b"I" + b"\x8a\x02")     # not a pickle of anything we store
    st = ObjectStore(FileSystemBackend((me, "./" + me, os.path.abspath(me), me + "/")[k.work(4)]))
    model = {}
    before = {p: open(p, "rb").read() for p in others}

    def client():
        for i in range(3 + k.work(8)):
            bad = k.work(2)
            n = (BAD if bad else FINE)[k.work(len(BAD if bad else FINE))]
            own = os.path.normpath(os.path.join(me, n.lstrip("/")))
            bad = not own.startswith(me + os.sep)
            if bad and own.startswith(me):
                k.probe("sibling")
            act = k.work(4)
            try:
                if act == 0:
                    st.put(i, uri=n)
                    r = i
                elif act == 1:
                    r = st.get(f"fs://{n}")
                elif act == 2:
                    r = st.exists(f"fs://{n}")
                else:
                    st.delete(f"fs://{n}")
                    r = None
            except (ValueError, KeyError, OSError) as e:
                if bad:
                    k.probe("refused-name")
                elif act == 0 and isinstance(e, ValueError):
                    k.fail("refused-own-name", f"{n!r}: {e}")
                continue
            except (K.TaskKilled, K.Violation, K.HarnessError):
                raise
            except Exception as e:  # noqa: BLE001
                if bad:
                    k.fail("outside-storage", f"reading {n!r}: {type(e).__name__}: {e}")
                raise
            if bad:
                if act == 2 and r is False:
                    continue
                if act == 3 and not any(own == p for p in others):
                    continue
                k.fail("outside-storage", f"{('save', 'load', 'exists', 'delete')[act]} "
                       f"{n!r} -> {own} was accepted ({r!r})")
            key = posixpath.normpath(n.lstrip("/"))
            if act == 0:
                model[key] = i
            elif act == 1 and model.get(key, "none") != r:
                k.fail("wrong-checkpoint", f"{n!r}: {r!r}, expected {model.get(key)}")
            elif act == 3:
                model.pop(key, None)
        for p, b in before.items():
            if not os.path.exists(p) or open(p, "rb").read() != b:
                k.fail("outside-storage", f"{p} was changed")
        if k.fs.escapes:
            k.fail("outside-storage", f"{k.fs.escapes}")

    j = go(k, client, "client")
    join_all(k, [j], 1_000.0, "storing")
    raise_unexpected(k, [j])


# --------------------------------------------------------------------- programs
class SaveProgram:
    """Parties `ps` compute a value and save it under a name."""

    def __init__(self, name, ps, uid, m, top):
        self.a = (name, ps, uid, m)
        self.top = top

    def value(self, r):
        _n, ps, uid, m = self.a
        return spmd.src_value(uid, r, m) if r in ps else None

    def fn(self):
        name, ps, uid, m = self.a

        def body():
            x = spmd.src_p.bind(uid=uid, m=m, ranked=True, slow=0.0)
            return x if self.top else store.save(x, name)

        def run():
            v = simp.pcall_static(ps, body)
            return (store.save(v, name) if self.top else v,)
        return run


class LoadProgram:
    def __init__(self, name, ps, m, top):
        self.a = (name, ps, m)
        self.top = top

    def fn(self):
        import mplang.edsl.typing as elt

        name, ps, m = self.a
        t = spmd._vec(m)

        def run():
            if self.top:
                return (store.load(name, elt.MPType(t, ps)),)
            return (simp.pcall_static(ps, lambda: store.load(name, t)),)
        return run


def arr(v):
    return None if v is None else [int(x) for x in
                                  np.asarray(getattr(v, "unwrap", lambda: v)()).reshape(-1)]


def script(k, cl, regs, clock, n, count, uid, alive):
    """Save and load random names; a failed program may have saved anywhere."""
    for _ in range(count):
        if not alive():
            return
        name = ("ckpt", "a/b", "state")[k.work(3)]
        full = tuple(range(n))
        ps = full if k.work(2) else tuple(r for r in full if k.work(2)) or (k.work(n),)
        mode = k.work(2)
        top = k.work(3) == 0
        if k.work(3) or not uid[0]:
            uid[0] += 1
            p = SaveProgram(name, ps, uid[0], 2, top)
            t = clock()
            ws = {r: regs[r, name].begin(t, [int(x) for x in p.value(r)]) for r in ps}
            try:
                got = run(cl, p, mode, f"save-{uid[0]}")
            except Exception:  # noqa: BLE001
                if alive():
                    raise
                return
            t = clock()
            for r in ps:
                ws[r].end = t
                if arr(got[r]) != ws[r].value:
                    k.fail("wrong-result", f"saving {name}: party {r} has {got[r]}")
        else:
            load(k, cl, regs, clock, name, ps, mode, top, alive)


def run(cl, p, mode, job):
    t = cl.compile(p)
    got = (cl.run_whole(p, job, t) if mode else cl.run_traced(p, t))[0]
    return got if isinstance(got, list) else [got]


def load(k, cl, regs, clock, name, ps, mode, top, alive):
    t0 = clock()
    if cl.fragile and any(w.value is ABSENT for r in ps
                          for w in regs[r, name].possible(t0, t0)):
        return      # a failing program ends an in-process cluster
    try:
        if k.work(4) == 0:
            # asking the parties for the stored objects
            k.probe("fetched")
            fs = {r: cl.driver.fetch(r, f"fs://{name}") for r in ps}
            got = {r: f.result() for r, f in fs.items()}
        else:
            got = run(cl, LoadProgram(name, ps, 2, top), mode, f"load-{t0}")
    except Exception as e:  # noqa: BLE001
        if not alive():
            return
        end = clock()
        if any(w.value is ABSENT for r in ps for w in regs[r, name].possible(t0, end)):
            k.probe("load-miss")
            return
        k.fail("lost-checkpoint", f"loading {name!r} on {ps}: {type(e).__name__}: {e}")
    end = clock()
    for r in ps:
        poss = [w.value for w in regs[r, name].possible(t0, end)]
        if not any(v is not ABSENT and v == arr(got[r]) for v in poss):
            k.fail("wrong-checkpoint", f"loading {name!r}: party {r} has {got[r]}, "
                   f"possible {['nothing' if v is ABSENT else v for v in poss]}")
    k.probe("load-hit")


def all_regs(n):
    return {(r, name): Register() for r in range(n) for name in ("ckpt", "a/b", "state")}


def cluster(k):
    n = how_many(k, 1 + k.work(3))
    fs = k.fs
    fs.durable = simos.Durable(k)
    fs.filter = lambda p: "/store" in p
    net_faults(k, ["slow"], 0.03)
    stalls(k)
    cl = spmd.HttpCluster(k, n)
    cl.fragile = False
    regs = all_regs(n)
    clock = Clock()
    uid = [0]
    for gen in range(1 + k.work(2)):
        hosts = list(cl.hosts)
        victim = k.work(n)
        power = k.work(2)

        def on_crash(node, power=power, hosts=hosts):
            for r, h in enumerate(hosts):
                if h.node is node:
                    k.probe("worker-crash")
                    if power:
                        k.probe("power")
                        fs.durable.power_loss(f".mpl/__http_{n}/node{r}")
                    h.crash()

        fs.on_crash = on_crash
        if k.work(3):
            fs.crash_at[hosts[victim].node] = k.fault_int(30)
        js = [go(k, lambda: script(k, cl, regs, clock, n, 1 + k.work(4), uid,
                                   lambda: hosts[victim].node.alive), "client")]
        end = k.now + 20_000.0
        while k.now < end and hosts[victim].node.alive and not all(j.finished for j in js):
            k.sleep(1.0)
        if hosts[victim].node.alive:
            join_all(k, js, 100.0, "saving and loading")
        raise_unexpected(k, [j for j in js if j.finished])
        fs.crash_at.clear()
        # the deployment is restarted as a whole: other parties' halves of a broken
        # job have nobody left to finish them
        whole = not hosts[victim].node.alive
        if not whole and k.work(2):
            whole = True
        if whole:
            for r, h in enumerate(hosts):
                if h.node.alive:
                    h.crash()
            k.sleep(30.0)
            fs.durable.writeback(".mpl")
            cl.close()
            for r in range(n):
                cl.start(r)
            cl.attach()
            cl.driver = cl.interp.get_dialect_state("simp")
        check(k, cl, regs, clock, n, whole)
    cl.close()


def check(k, cl, regs, clock, n, restarted):
    def client():
        for r in range(n):
            for name in ("ckpt", "a/b", "state"):
                load(k, cl, regs, clock, name, (r,), 1, False, lambda: True)
                # loading twice gives the same value
                t0 = clock()
                try:
                    got = arr(run(cl, LoadProgram(name, (r,), 2, False), 1, f"chk-{t0}")[r])
                except Exception:  # noqa: BLE001
                    got = ABSENT
                if not any(w.value is got or w.value == got
                           for w in regs[r, name].possible(t0, clock())):
                    k.fail("lost-checkpoint", f"{name!r} on party {r}: {got}")
                if restarted:
                    regs[r, name].settle(got, clock())
                if restarted and got is not ABSENT:
                    k.probe("reloaded")

    j = go(k, client, "reader")
    join_all(k, [j], 50_000.0, "loading after a restart")
    raise_unexpected(k, [j])


def local(k):
    """In-process clusters: checkpoints outlive the simulator and stay per cluster."""
    from mplang.backends.simp_driver.mem import MemCluster

    n = how_many(k, 1 + k.work(3))
    regs = {}
    clock = Clock()
    uid = [0]
    stalls(k)
    handles = []
    for gen in range(2 + k.work(3)):
        cid = ("east", "west")[k.work(2)] if gen else "east"
        if cid == "west":
            k.probe("second-cluster")
        rg = regs.setdefault(cid, all_regs(n))
        cl = spmd.MemCluster.__new__(spmd.MemCluster)
        cl.k, cl.n, cl.fragile = k, n, True
        cl.interp = simulator(n, cid)
        cl.driver = cl.interp.get_dialect_state("simp")

        def client():
            for x in handles:
                # handles of an earlier life name nothing now
                for r, u in enumerate(x):
                    try:
                        cl.driver.workers[r].store.get(u)
                    except KeyError:
                        k.probe("mem-gone")
                        continue
                    k.fail("wrong-checkpoint", f"stale handle {u} resolves")
            handles.clear()
            script(k, cl, rg, clock, n, 2 + k.work(4), uid, lambda: True)
            if k.work(2):
                check_now(k, cl, rg, clock, n)
            t = cl.compile(spmd.slow_program(n, 0.0))
            res = cl.driver.collect([cl.driver.submit(r, t.graph, [], "h")
                                     for r in range(n)])
            handles.append([x[0] for x in res])

        j = go(k, client, "client")
        join_all(k, [j], 50_000.0, "saving and loading")
        raise_unexpected(k, [j])
        cl.close()


def check_now(k, cl, regs, clock, n):
    for r in range(n):
        for name in ("ckpt", "a/b", "state"):
            load(k, cl, regs, clock, name, (r,), 1, False, lambda: True)


def simulator(n, cid):
    import dataclasses

    from mplang.libs.device import ClusterSpec

    spec = dataclasses.replace(ClusterSpec.simple(n), cluster_id=cid)
    return mp.make_simulator(n, cluster_spec=spec)


VARIANTS = {"objects": Variant(objects, 0), "names": Variant(names, 0),
            "cluster": Variant(cluster, 0), "local": Variant(local, 0)}
