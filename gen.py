#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from spec.py"""
import json, os, subprocess
from spec import SPEC, NOT_APPLICABLE
R = os.path.dirname(os.path.abspath(__file__))
with open(R + "/properties.jsonl", "w") as f:
    for pid, p in SPEC.items():
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    for n in NOT_APPLICABLE: f.write(json.dumps(n["property"]) + "\n")
man = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "hooks": {"guard": "none", "enable": "no hooks: the harness crate in /verif/harness uses only the public API of /repo", "source_commits": []},
       "not_applicable": [{"property": n["property"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
       "notes": "All checks: engine/symx (own symbolic executor on rustc's LLVM IR) + z3 4.8.12; spec.py lists harnesses and bounds; known_findings.json lists recorded defects and fixes."}
for pid, p in SPEC.items():
    man["checks"].append({"property": pid, "quick_cmd": "python3 run.py check %s" % pid, "thorough_cmd": "python3 run.py check %s --tier thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of the compiled Rust code (rustc LLVM IR) with z3 deciding every branch and assertion", "level": "model_checking",
        "level_note": ("Exhaustive within bounds: " + p["quant"] + ". " + p["note"] + " Trusts z3's unsat answers, rustc's front end and the executor's IR semantics; witnesses of verified paths and all counterexamples are replayed natively (dev and release)."
                       + ((" Assumes: " + "; ".join(p["assumptions"]) + ".") if p["assumptions"] else "")).replace("  ", " ")})
json.dump(man, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(SPEC), "properties")
