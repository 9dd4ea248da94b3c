#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); sys.path.insert(0, T); sys.dont_write_bytecode = True
import props
seen = set(); lines = []; checks = []; na = []
for q in sorted(props.P, key=lambda q: (len(q["id"]), q["id"])):
    assert q["id"] not in seen and len(q["title"]) <= 80, q["id"]; seen.add(q["id"])
    for f in q["files"]: assert os.path.exists("/repo/" + f), f
    lines.append(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
        "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}))
    if q["na"]: na.append({"property": q["id"], "reason": q["na"]}); continue
    checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s --tier quick" % q["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"], "evidence_file": "evidence/%s.json" % q["id"],
        "technique": q.get("tech") or "solver-based symbolic execution of the compiled real code (LLVM IR, z3)", "level": "model_checking", "level_note": q["note"]})
open(V + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "bash symex/build.sh", "checks": checks, "not_applicable": na,
  "notes": "Every check compiles the working tree's sources and a harness to LLVM IR, executes it symbolically (symex/, our own engine over LLVM 18 and z3), replays each counterexample in a native AddressSanitizer build of the same code and reports only what reproduces. Bounds and assumptions are in the harness headers and in each evidence file. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(lines), "properties,", len(checks), "checks")
