#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
plan = (root / "engine/src/sx/Plan.java").read_text()
claimed = set(re.findall(r'"(C\d\d)"', plan))
NOT_APPLICABLE = {}
NOTE = ("Bounded: the bytecode compiled from /repo on every run (and the JDK's own, where it calls it) is executed symbolically; "
        "every assertion on every feasible path is decided by Z3 for all values within the bounds written in DESIGN.md and in the evidence file. "
        "Histories are followed to a fixpoint of symbolic states where that exists, so there their length is not bounded; pools of keys, table sizes and "
        "instantiated element types are. Trusts the interpreter in /verif/engine (24 paths of every job are replayed on a real JVM on "
        "every run and must agree), javac, Z3, and a few summaries of JDK natives listed in DESIGN.md. Every reported violation was "
        "reproduced on a real JVM.")
checks = []
na = []
for line in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    if p["id"] in claimed:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                       "technique": "symbolic execution of the compiled code, assertions decided by an SMT solver (Z3)",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./build_engine.sh force", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: its commits are fixes only. known_findings.txt lists the defects found and the commits that repair them."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
