#!/usr/bin/env python3
"""Development helper: verify planted bugs in /verif/seeded against /repo.

plant.py new ID PROPERTY     take /tmp/w (a scratch copy of /repo with the change) as patch.diff
plant.py check ID [--nocheck] [--notest]
"""
import json
import os
import subprocess
import sys

V = "/verif/seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(i):
    # laid elsewhere, without patches and meta.json, as the final check does
    d = f"/tmp/demo_{i}"
    sh(f"rm -rf {d}; cp -a {V}/{i} {d}; rm -f {d}/*.diff {d}/*.patch {d}/meta.json")
    try:
        r = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
    finally:
        sh(f"rm -rf {d}")
    return r


def main():
    what, i = sys.argv[1:3]
    if what == "new":
        os.makedirs(f"{V}/{i}", exist_ok=True)
        d = sh("git diff HEAD", cwd="/tmp/w").stdout
        open(f"{V}/{i}/patch.diff", "w").write(d)
        print(d)
        return
    opt = sys.argv[3:]
    meta = json.load(open(f"{V}/{i}/meta.json"))
    assert not sh("git status --porcelain", cwd="/repo").stdout.strip(), "/repo is dirty"
    ok = True
    r = demo(i)
    print(f"{i}: demo unchanged -> {r.returncode}")
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-2500:])
        ok = False
    a = sh(f"git apply {V}/{i}/patch.diff", cwd="/repo")
    if a.returncode:
        print("patch does not apply", a.stderr)
        return 1
    try:
        r = demo(i)
        print(f"{i}: demo patched -> {r.returncode}", (r.stdout + r.stderr).strip()[-200:])
        ok &= r.returncode != 0
        if "--notest" not in opt:
            t = sh("bash /root/stable.sh").stdout.strip()
            print(f"{i}: {t}")
            ok &= "missing: 0" in t
        if "--nocheck" not in opt:
            p = meta["property"]
            c = sh(f"VERIF_SEED=1 ./check.py {p} --tier quick --no-evidence", cwd="/verif")
            v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"{i}: check {p} -> {c.returncode}", v[:1])
            if c.returncode not in (0, 1):
                print(c.stdout[-1500:], c.stderr[-1500:])
            ok &= c.returncode == 1
            if c.returncode == 1:
                print("   ", "\n    ".join(c.stdout.strip().splitlines()[-4:])[:900])
    finally:
        sh("git checkout -- .", cwd="/repo")
        sh("git clean -fdq mplang", cwd="/repo")
    print(f"{i}: {'OK' if ok else 'NOT OK'}")
    return 0 if ok else 1


sys.exit(main())
