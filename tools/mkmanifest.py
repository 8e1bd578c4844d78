#!/usr/bin/env python3
# Generates MANIFEST.json from props.py.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
m = dict(version=1, setup_cmd="python3 run.py --build",
    hooks=dict(guard="none", enable="no hooks in /repo: the simulator interposes pthread, clock, allocator and file system functions and uses the library's public interfaces", source_commits=[]),
    checks=[dict(property=p, quick_cmd="python3 run.py " + p, thorough_cmd="VERIF_TIER=thorough python3 run.py " + p,
                 technique=q.get("technique", "deterministic simulation with fault injection: seeded search"), level=q.get("level", "exploration"), level_note=q["note"]) for p, q in sorted(PROPS.items())],
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
    notes="Seeds come from VERIF_SEED; replay a violation with: python3 run.py --replay FILE. Repaired and known defects: known-findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
