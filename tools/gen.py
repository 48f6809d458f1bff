#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the check modules."""
import ast
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import NOT_APPLICABLE, PROPS  # noqa: E402


def literals(cid):
    p = f"{V}/checks/{cid.lower()}.py"
    if not os.path.exists(p):
        return None
    out = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        p = dict(p)
        p.setdefault("anchors", {})
        lines.append(json.dumps(p))
        lit = literals(p["id"])
        if lit is None:
            if p["id"] not in NOT_APPLICABLE:
                na.append({"property": p["id"], "reason": "no check yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.py {p['id']} --tier quick",
            "thorough_cmd": f"./check.py {p['id']} --tier thorough",
            "technique": "deterministic simulation: seeded search over schedules, message "
                         "timing and injected faults of the real code, checked against "
                         "a reference model",
            "level": lit.get("LEVEL", "exploration"),
            "level_note": "Sampled, not exhaustive. " + " ".join(lit["RULE"].split())
                          + " Real: " + "; ".join(lit["REAL"]) + ". Simulated or stubbed: "
                          + "; ".join(lit["STUB"]) + "."
                          + (" Assumes: " + "; ".join(lit["ASSUMPTIONS"]) + "."
                             if lit["ASSUMPTIONS"] else ""),
        })
    for i, why in NOT_APPLICABLE.items():
        na.append({"property": i, "reason": why})
    open(f"{V}/properties.jsonl", "w").write("\n".join(lines) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "One simulator (sim/), one runner (check.py), one workload module per "
                  "property (checks/). No hooks in /repo: the simulator replaces the "
                  "standard-library and third-party seams the code already uses. "
                  "Known and fixed findings: known_findings.json."}
    open(f"{V}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
    try:
        import jsonschema
        for line in lines:
            jsonschema.validate(json.loads(line),
                                json.load(open("/root/.vp/PROPERTIES.schema.json")))
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError:
        print("(no jsonschema: not validated)")
    print(len(checks), "checks,", len(na), "not applicable")


main()
