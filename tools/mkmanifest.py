#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks registered in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the real code's LLVM IR, z3 decides every assertion; counterexamples replayed on the compiled code",
            "level": "model_checking",
            "level_note": "Holds for all values within: %s. Assumes: %s. Trusts clang's IR, /verif/engine, the environment model /verif/model and z3." % (s["bounds"], "; ".join(s["assumptions"]) or "nothing further")})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "check not built yet")})
m["notes"] = "Machinery and per-property design: DESIGN.md. No hooks in /repo; fixed defects are listed in known_findings.jsonl."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
