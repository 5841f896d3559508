#!/usr/bin/env python3
"""Single source of the property list: emits properties.jsonl and MANIFEST.json, and tells check.sh how to run one.

  props.py kind ID   how check.sh decides ID
  props.py emit      rewrite properties.jsonl and MANIFEST.json
  props.py ids       the claimed ids
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "SmartCache/sim/"
P = []          # claimed properties
NA = []         # (property dict, reason)


def prop(id, title, statement, over, quant, why, files, mech, kind="go", tech="", state=None, observe=None, note=""):
    P.append(dict(kind=kind, tech=tech, note=note, rec={
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    **({"observe_at": observe} if observe else {}),
                    "hook_needed": None}}))


with open(os.path.join(HERE, "tools", "catalog.py")) as f:
    exec(compile(f.read(), "catalog.py", "exec"))


def emit():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["rec"]["title"]) <= 80, p["rec"]["id"]
            f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
        for rec, _ in NA:
            f.write(json.dumps(rec, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["rec"]["id"],
            "quick_cmd": "bash check.sh %s quick" % p["rec"]["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["rec"]["id"],
            "evidence_file": "evidence/%s.json" % p["rec"]["id"],
            "technique": "runtime monitoring: " + p["tech"],
            "level": "exploration",
            "level_note": p["note"] or "Every execution of the seeded workload is judged online by the monitor; nothing is claimed about executions the workload does not reach.",
        } for p in P],
        "not_applicable": [{"property": rec["id"], "reason": why} for rec, why in NA],
        "notes": "No hooks are needed in /repo: the monitors observe the public cache interface, the dumps, the event log and the simulator's output files. DESIGN.md explains the oracles; known_findings.txt lists repaired and recorded defects.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "kind":
        for p in P:
            if p["rec"]["id"] == sys.argv[2]:
                print(p["kind"])
                sys.exit(0)
        sys.exit(1)
    elif cmd == "ids":
        print(" ".join(p["rec"]["id"] for p in P))
    elif cmd == "emit":
        emit()
