#!/opt/venv/bin/python
"""Decide one property by seeded simulation.

  check.py C01                       quick (VERIF_TIER / VERIF_SEED are honoured)
  check.py C01 --tier thorough
  check.py C01 --replay FILE         re-execute a recorded violation exactly
  check.py C01 --determinism         run a sample several ways and compare traces
"""

import argparse
import json
import os
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def worker_env(hashseed="0"):
    e = {
        k: v for k, v in os.environ.items()
        if k in ("PATH", "HOME", "LANG", "LC_ALL", "VERIF_REPO", "VERIF_DEBUG", "TMPDIR", "LD_LIBRARY_PATH")
    }
    e["PYTHONHASHSEED"] = hashseed
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["JAX_PLATFORMS"] = "cpu"
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
    return e


# ------------------------------------------------------------------ worker side
def worker_main(args):
    out_fd = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(out_fd, "w", buffering=1)
    from sim import runner as R

    if args.scratch:
        root = os.path.join(args.scratch, "w%02d" % args.slot)
        os.mkdir(root)
    else:
        root = R.make_scratch()

    def emit(**kw):
        out.write(R.dumps(kw) + "\n")
        out.flush()

    try:
        R.world(root)
        mod = R.load_check(args.property)
    except Exception:  # noqa: BLE001
        import traceback

        emit(t="fatal", error=traceback.format_exc()[-4000:])
        return
    job = json.loads(args.job)
    if job["mode"] == "search":
        _search(R, mod, args, job, root, emit)
    elif job["mode"] == "minimise":
        v = mod.VARIANTS[job["variant"]]
        tapes, runs = R.minimise(v, job["tapes"], job["kind"], root, job["budget"])
        r = R.run_one(v, job["seed"], tapes, trace=True, scratch_root=root)
        if r.status != "violation" or r.kind != job["kind"]:
            tapes = job["tapes"]
            r = R.run_one(v, job["seed"], tapes, trace=True, scratch_root=root)
        emit(t="min", runs=runs, status=r.status, kind=r.kind,
             doc=R.replay_doc(args.property, v.name, job["seed"], r, R.tapes_of(r.k)))
    elif job["mode"] == "replay":
        doc = job["doc"]
        for vn, i in doc.get("prelude", []):
            R.run_one(mod.VARIANTS[vn], R.seed_of(doc["base_seed"], args.property, vn, i),
                      scratch_root=root)
        v = mod.VARIANTS[doc["variant"]]
        limit = int(getattr(mod, "WALL_LIMIT", 60))

        def stuck(frames):
            emit(t="replayed", status="violation" if frames else "harness",
                 kind="stuck", detail=str(frames), trace_hash=0)

        with R.Deadline(limit, stuck):
            r = R.run_one(v, doc["seed"], doc.get("tapes"), trace=True, scratch_root=root)
        emit(t="replayed", status=r.status, kind=r.kind, detail=r.detail[-3000:],
             trace_hash=r.k.h, log=r.k.log[-400:], steps=r.k.steps)
    out.flush()
    os._exit(0)


def _search(R, mod, args, job, root, emit):
    """Run this worker's share of the plan."""
    t0 = time.monotonic()
    wall = job["wall"]
    agg = {"evals": 0, "steps": 0, "lines": 0, "simt": 0.0, "switches": 0,
           "preempts": 0, "faults": {}, "probes": {}, "per_variant": {},
           "strategies": {}}
    hashes, scheds, samples = set(), set(), []
    done = []
    cur = [None]
    limit = int(getattr(mod, "WALL_LIMIT", 60))

    def stuck(frames):
        vn, i = cur[0]
        emit(t="hit", variant=vn, index=i, status="violation" if frames else "harness",
             kind="stuck", detail=f"no scheduling point for {limit}s of real time in "
             f"{frames}", tapes=None, prelude=done[-200:])

    truncated = False
    for vn, i in job["plan"]:
        if time.monotonic() - t0 > wall:
            truncated = True
            break
        v = mod.VARIANTS[vn]
        cur[0] = (vn, i)
        with R.Deadline(limit, stuck):
            r = R.run_one(v, R.seed_of(job["base"], args.property, vn, i),
                          scratch_root=root)
        k = r.k
        agg["evals"] += 1
        agg["steps"] += k.steps
        agg["lines"] += k.lines
        agg["simt"] += k.now
        agg["switches"] += k.switches
        agg["preempts"] += k.preempts
        pv = agg["per_variant"].setdefault(vn, [0, 0, 0.0])
        pv[0] += 1
        for d, s in (("faults", k.fault_counts), ("probes", k.probes)):
            for a, b in s.items():
                agg[d][a] = agg[d].get(a, 0) + b
        s = str(k.strategy)
        agg["strategies"][s] = agg["strategies"].get(s, 0) + 1
        nontrivial = k.switches >= 1 or k.fault_counts
        if nontrivial:
            pv[1] += 1
            hashes.add(f"{vn}:{k.h:x}")
            scheds.add(f"{vn}:{k.sched_h:x}")
        if len(samples) < 2:
            samples.append({
                "variant": vn, "seed": R.seed_of(job["base"], args.property, vn, i),
                "steps": k.steps, "switches": k.switches, "sim_s": round(k.now, 4),
                "faults": k.fault_counts, "trace": f"{k.h:08x}",
                "probes": dict(list(k.probes.items())[:12])})
        if r.status != "ok":
            emit(t="hit", variant=vn, index=i, status=r.status, kind=r.kind,
                 detail=r.detail[-4000:], tapes=R.tapes_of(k), prelude=done[-200:],
                 trace_hash=k.h)
            if r.status == "violation" or job.get("stop_on_harness"):
                break
        done.append((vn, i))
        if job.get("record"):
            emit(t="trace", variant=vn, index=i, h=k.h, steps=k.steps, now=repr(k.now))
    emit(t="agg", agg=agg, hashes=sorted(hashes), scheds=sorted(scheds),
         samples=samples, truncated=truncated, wall=time.monotonic() - t0)


# ------------------------------------------------------------------ parent side
class Worker:
    def __init__(self, pid, slot, job, scratch, on_msg, hashseed="0"):
        self.msgs = []
        cmd = [PY, os.path.abspath(__file__), pid, "--worker", "--slot", str(slot),
               "--scratch", scratch, "--job", json.dumps(job)]
        if len(cmd[-1]) > 100_000:
            fd, p = tempfile.mkstemp(dir=scratch)
            os.write(fd, cmd[-1].encode())
            os.close(fd)
            cmd[-1] = "@" + p
        self.errf = open(os.path.join(scratch, f"err{slot}"), "wb")
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=worker_env(hashseed), cwd=HERE,
                                  start_new_session=True)
        self.on_msg = on_msg
        self.slot = slot
        self.scratch = scratch
        self.th = threading.Thread(target=self._read, daemon=True)
        self.th.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                m = json.loads(line)
            except ValueError:
                continue
            self.msgs.append(m)
            if self.on_msg:
                self.on_msg(self, m)

    def wait(self, timeout):
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            return False
        self.th.join(5)
        return True

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()

    def err(self):
        try:
            with open(os.path.join(self.scratch, f"err{self.slot}"), "rb") as f:
                return f.read()[-2000:].decode(errors="replace")
        except OSError:
            return ""


def one_job(pid, job, scratch, slot, timeout, hashseed="0"):
    w = Worker(pid, slot, job, scratch, None, hashseed)
    ok = w.wait(timeout)
    return w.msgs, ok, w.err()


def plan_of(meta, tier, scale=1.0):
    plan = []
    for vn, (q, t) in meta.items():
        n = q if tier == "quick" else t
        plan += [(vn, i) for i in range(max(1, int(n * scale)))]
    # interleave the variants so that a truncated run still covers all of them
    order = {}
    for vn, i in plan:
        order.setdefault(vn, []).append(i)
    keyed = []
    for vn, idx in order.items():
        for j, i in enumerate(idx):
            keyed.append(((j + 0.5) / len(idx), vn, i))
    keyed.sort()
    return [(vn, i) for _p, vn, i in keyed]


def read_meta(pid):
    """Static metadata of a check (without importing the code under test)."""
    import ast

    with open(os.path.join(HERE, "checks", pid.lower() + ".py")) as f:
        tree = ast.parse(f.read())
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ("PLAN", "LEVEL", "RULE", "REAL", "STUB",
                                   "ASSUMPTIONS", "WALL_LIMIT", "MUST_PROBE"):
                out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--wall", type=float, default=0)
    ap.add_argument("--only", default="")
    ap.add_argument("--replay")
    ap.add_argument("--determinism", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--slot", type=int, default=0)
    ap.add_argument("--scratch", default="")
    ap.add_argument("--job", default="")
    args = ap.parse_args()
    args.property = args.property.upper()
    if args.job.startswith("@"):
        with open(args.job[1:]) as f:
            args.job = f.read()
    if args.worker:
        return worker_main(args)
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    from sim import runner as R

    scratch = R.make_scratch()
    try:
        if args.replay:
            rc = do_replay(args, scratch)
        elif args.determinism:
            rc = do_determinism(args, scratch)
        else:
            rc = do_check(args, scratch)
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def do_replay(args, scratch):
    with open(args.replay) as f:
        doc = json.load(f)
    msgs, ok, err = one_job(args.property, {"mode": "replay", "doc": doc}, scratch, 0, 300)
    r = next((m for m in msgs if m["t"] == "replayed"), None)
    if r is None:
        print("replay did not finish:", msgs[-1:] or err)
        return 2
    same = r["kind"] == doc["kind"] and r["trace_hash"] == doc["trace_hash"]
    if args.verbose:
        print("\n".join(r.get("log", [])))
    print(f"replay: status={r['status']} kind={r['kind']} trace={r['trace_hash']:08x} "
          f"identical={same}")
    print(r["detail"])
    if r["status"] == "violation":
        print(f"VIOLATION property={args.property} replay={args.replay}")
        return 1
    return 0 if r["status"] == "ok" else 2


def do_check(args, scratch):
    t0 = time.time()
    pid, tier, base = args.property, args.tier, args.seed
    meta = read_meta(pid)
    pl = meta["PLAN"]
    if args.only:
        pl = {k: v for k, v in pl.items() if k in args.only.split(",")}
    plan = plan_of(pl, tier, args.scale)
    jobs = args.jobs or min(8, os.cpu_count() or 2)
    if tier == "quick":
        jobs = min(jobs, max(1, len(plan) // 4))
    wall = args.wall or (240.0 if tier == "quick" else 780.0)
    print(f"{pid} tier={tier} seed={base} runs={len(plan)} workers={jobs}", flush=True)
    hits, fatal = [], []
    stop = threading.Event()

    def on_msg(w, m):
        if m["t"] == "hit":
            hits.append(m)
            # a run the harness could not judge does not end the search for violations
            if m["status"] == "violation" or len(hits) >= 40:
                stop.set()
        elif m["t"] == "fatal":
            fatal.append(m)
            stop.set()

    ws = [
        Worker(pid, i, {"mode": "search", "plan": plan[i::jobs], "base": base,
                        "wall": wall}, scratch, on_msg)
        for i in range(jobs)
    ]
    end = time.time() + wall + 90
    died = False
    while any(w.p.poll() is None for w in ws) and time.time() < end:
        if stop.is_set():
            grace = time.time() + 3
            while time.time() < grace and any(w.p.poll() is None for w in ws):
                time.sleep(0.05)
            break
        time.sleep(0.05)
    for w in ws:
        if w.p.poll() is None:
            if not stop.is_set():
                died = True
            w.kill()
        w.th.join(5)
    aggs = [m for w in ws for m in w.msgs if m["t"] == "agg"]
    if not hits and not fatal and (died or len(aggs) < len(ws)):
        fatal.append({"error": "a worker ended without a report: "
                      + " | ".join(w.err() for w in ws)[-3000:]})
    violation = None
    if fatal:
        print("HARNESS-ERROR", fatal[0]["error"])
    viol = sorted((h for h in hits if h["status"] == "violation"),
                  key=lambda h: (h["kind"] == "stuck", h["variant"], h["index"]))
    harness = [h for h in hits if h["status"] == "harness"]
    if viol:
        violation = report(args, viol[0], scratch, base)
    elif harness:
        print("HARNESS-ERROR in run", harness[0]["variant"], harness[0]["index"])
        print(harness[0]["detail"])
    ran = sum(a["agg"]["evals"] for a in aggs)
    known = []
    if not violation and not fatal and not harness:
        known, bad = check_known(args, scratch)
        if bad:
            fatal.append({"error": bad})
            print("HARNESS-ERROR", bad)
    wall_s = time.time() - t0
    if not args.no_evidence:
        write_evidence(args, meta, aggs, wall_s, 1 if violation else 0, known, len(plan))
    print(f"{pid}: {ran} simulated runs in {wall_s:.1f}s")
    if violation:
        return 1
    if fatal or harness:
        return 2
    return 0


def check_known(args, scratch):
    """Replay each recorded finding; it must still fail the recorded way."""
    out = []
    for n, e in enumerate(known_findings(args.property)):
        if e.get("status") == "fixed":
            continue
        doc = {"variant": e["variant"], "seed": e["seed"], "tapes": e.get("tapes"),
               "kind": e["kind"], "trace_hash": 0}
        msgs, ok, err = one_job(args.property, {"mode": "replay", "doc": doc}, scratch,
                                50 + n, 200)
        r = next((m for m in msgs if m["t"] == "replayed"), None)
        if r is None or r["status"] == "harness":
            return out, f"known finding {e['id']} could not be replayed: {msgs[-1:]} {err}"
        if r["status"] == "violation" and r["kind"] == e["kind"]:
            print(f"KNOWN-FINDING: property={args.property} {e['id']}: {e['what']}")
            out.append({"id": e["id"], "reproduced": True})
        else:
            print(f"note: known finding {e['id']} no longer reproduces")
            out.append({"id": e["id"], "reproduced": False})
    return out, None


def report(args, hit, scratch, base):
    pid = args.property
    seed = f"{base}:{pid}:{hit['variant']}:{hit['index']}"
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}-{hit['variant']}-{base}-{hit['index']}.json")
    doc = None
    if hit.get("tapes") is not None:
        msgs, ok, err = one_job(pid, {"mode": "minimise", "variant": hit["variant"],
                                      "tapes": hit["tapes"], "kind": hit["kind"],
                                      "seed": seed, "budget": 40.0}, scratch, 80, 240)
        m = next((m for m in msgs if m["t"] == "min"), None)
        if m is not None and m["status"] == "violation" and m["kind"] == hit["kind"]:
            doc = m["doc"]
            doc["minimise_runs"] = m["runs"]
    if doc is None:
        # depends on earlier runs of the same process, or never returned: replay
        # from the seed with the same prelude
        doc = {"property": pid, "variant": hit["variant"], "seed": seed,
               "kind": hit["kind"], "detail": hit["detail"], "tapes": hit.get("tapes"),
               "trace_hash": hit.get("trace_hash", 0), "base_seed": base,
               "prelude": hit["prelude"] if hit.get("tapes") is not None else [],
               "note": "not minimised"}
    doc["base_seed"] = base
    doc["original_seed"] = seed
    msgs, ok, err = one_job(pid, {"mode": "replay", "doc": doc}, scratch, 81, 240)
    r = next((m for m in msgs if m["t"] == "replayed"), None)
    if r is not None and doc.get("note") == "not minimised":
        doc["trace_hash"] = r["trace_hash"]
    doc["replay_verified"] = bool(
        r and r["kind"] == doc["kind"] and r["trace_hash"] == doc["trace_hash"])
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    print(f"violation: {hit['kind']} in variant {hit['variant']} seed {seed}")
    print((doc.get("detail") or "")[-2500:])
    print(f"replay reproduces exactly: {doc['replay_verified']}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return path


def write_evidence(args, meta, aggs, wall_s, violations, known, planned):
    tot = {}

    def add(d, s):
        for a, b in s.items():
            d[a] = d.get(a, 0) + b

    faults, probes, strategies, pv = {}, {}, {}, {}
    hashes, scheds, samples = set(), set(), []
    ev = steps = lines = switches = preempts = 0
    simt = 0.0
    trunc = False
    busy = 0.0
    for a in aggs:
        g = a["agg"]
        ev += g["evals"]
        steps += g["steps"]
        lines += g["lines"]
        switches += g["switches"]
        preempts += g["preempts"]
        simt += g["simt"]
        busy += a["wall"]
        add(faults, g["faults"])
        add(probes, g["probes"])
        add(strategies, g["strategies"])
        for v, (n, nt, _x) in g["per_variant"].items():
            p = pv.setdefault(v, {"runs": 0, "nontrivial": 0})
            p["runs"] += n
            p["nontrivial"] += nt
        hashes |= set(a["hashes"])
        scheds |= set(a["scheds"])
        samples += a["samples"]
        trunc |= a["truncated"]
    names = ["run-to-block", "light-random", "heavy-random", "uniform", "pct"]
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(hashes),
        "rule": meta.get("RULE", "") + " One evaluation is one simulated run drawn from "
        "one seed (workload, faults, schedule); non-trivial: at least one context switch "
        "between simulated threads or one injected fault; distinct: different hash of "
        "the full event trace.",
        "samples": samples[:4],
        "planned_runs": planned,
        "truncated_by_wall_cap": trunc,
        "distinct_schedules": len(scheds),
        "runs_per_variant": pv,
        "simulated_runs_per_hour": int(ev / wall_s * 3600) if wall_s else 0,
        "seeds_per_hour": int(ev / wall_s * 3600) if wall_s else 0,
        "simulated_seconds": round(simt, 3),
        "scheduling_points": steps,
        "context_switches": switches,
        "line_level_preemptions": preempts,
        "source_lines_executed_under_scheduler": lines,
        "faults_injected": faults,
        "conditions_reached": probes,
        "strategies": {names[int(s)]: n for s, n in sorted(strategies.items())},
        "real_components": meta.get("REAL", []),
        "stub_components": meta.get("STUB", []),
        "known_findings": known,
    }
    try:
        seed = int(args.seed)
    except ValueError:
        seed = 0
    doc = {
        "property": args.property, "tier": args.tier, "seed": seed,
        "level": meta.get("LEVEL", "exploration"), "coverage": cov,
        "assumptions": meta.get("ASSUMPTIONS", []), "wall_s": round(wall_s, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", args.property + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for p in meta.get("MUST_PROBE", []):
        if not probes.get(p) and not violations:
            print(f"note: condition '{p}' was never reached")


def do_determinism(args, scratch):
    """The same seeds, in other processes / orders / worker counts / hash seeds."""
    pid = args.property
    meta = read_meta(pid)
    plan = plan_of(meta["PLAN"], "quick", args.scale)
    configs = [("8 workers", 8, "0", False), ("3 workers", 3, "0", False),
               ("8 workers, other hash seed", 8, "77", False),
               ("8 workers, reversed order", 8, "5", True)]
    res = []
    slot = 0
    for name, jobs, hs, rev in configs:
        got = {}
        p = plan[::-1] if rev else plan
        ws = []
        for i in range(jobs):
            ws.append(Worker(pid, slot, {"mode": "search", "plan": p[i::jobs],
                                         "base": args.seed, "wall": 1200,
                                         "record": True}, scratch, None, hs))
            slot += 1
        for w in ws:
            w.wait(1300)
            for m in w.msgs:
                if m["t"] == "trace":
                    got[(m["variant"], m["index"])] = (m["h"], m["steps"], m["now"])
                elif m["t"] in ("hit", "fatal"):
                    print("unexpected", str(m)[:1500])
        res.append((name, got))
        print(name, len(got), "runs", flush=True)
    ref = res[0][1]
    bad = 0
    for name, got in res[1:]:
        diff = [x for x in ref if got.get(x) != ref[x]]
        bad += len(diff)
        print(f"{name}: {len(diff)} of {len(ref)} runs differ", diff[:5])
    print("DETERMINISTIC" if not bad and ref else "NOT DETERMINISTIC")
    return 0 if not bad and ref else 2


if __name__ == "__main__":
    main()
