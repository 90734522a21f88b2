#!/usr/bin/env python3
import json, props, jobs
LVL = "bounded symbolic execution of the compiled implementation; every assertion decided by Z3 for all values within the bounds recorded in the evidence file; trusts clang's IR, the executor and the shims listed as assumptions; rationals stand for doubles"
claimed = [x["id"] for x in props.PR if x["id"] in jobs.PROPS and x["id"] not in props.NA]
with open("properties.jsonl", "w") as f:
    for x in props.PR: f.write(json.dumps(x) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [], "notes": "see DESIGN.md; known findings and repaired defects in known_findings.json"}
for i in claimed:
    b = jobs.PROPS[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
      "technique": "symbolic execution of the real code's LLVM IR with SMT (Z3) deciding each assertion", "level": "model_checking", "level_note": LVL + ". Bounds: " + b["bounds"] + ". Outside: " + b["outside"] + "."})
for x in props.PR:
    if x["id"] not in claimed: m["not_applicable"].append({"property": x["id"], "reason": props.NA.get(x["id"], "check not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
import design
design.write(claimed)
print(len(claimed), "claimed", [x["property"] for x in m["not_applicable"]])
