#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os
import catalog
D = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in catalog.PROPS.values():
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}},
                           ensure_ascii=False) + "\n")
checks = []
for p in catalog.PROPS.values():
    if p["id"] in catalog.NOT_APPLICABLE:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 vrun.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 vrun.py %s --tier thorough" % p["id"],
                   "technique": "bounded symbolic execution of %s, assertions discharged by z3" % (
                       "the real Python code (traced with symbols, both sides of every branch) and of the LLVM IR of the compiled code" if any("generate" in j for j in p["jobs"]) else "the LLVM IR of the real code"),
                   "level": "other",
                   "level_note": "Holds for every input within: %s. Outside: %s. Real arithmetic in place of floating point." % (p["bounds"], p["outside"])})
m = {"version": 1, "setup_cmd": "python3 vrun.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in catalog.NOT_APPLICABLE.items()],
     "notes": "Generated by gen.py from catalog.py. See DESIGN.md."}
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")

W = [open(os.path.join(D, "design_head.md")).read()]
for p in catalog.PROPS.values():
    W.append("### %s. %s\n" % (p["id"], p["title"]))
    if p["id"] in catalog.NOT_APPLICABLE:
        W.append("Not claimed: %s\n" % catalog.NOT_APPLICABLE[p["id"]])
        continue
    W.append(p["statement"] + "\n")
    stubs = sorted({s for j in p["jobs"] for s in j.get("stubs", {})})
    W.append("* Oracle and jobs: " + ", ".join("`%s` x%d" % (e, sum(j["entry"] == e for j in p["jobs"])) for e in sorted({j["entry"] for j in p["jobs"]})) +
             " in `%s`." % ", ".join(sorted({("pytrace/" if "generate" in j else "harness/") + os.path.basename(j["harness"]) for j in p["jobs"]})))
    if stubs:
        W.append("* Stand-ins for: " + ", ".join("`%s`" % s for s in stubs) + ".")
    W += ["* Bounds: " + p["bounds"] + ".", "* Outside: " + p["outside"] + ".", "* Why tests cannot: " + p["why"] + "\n"]
W.append(open(os.path.join(D, "design_tail.md")).read())
W.append("\n| change | property whose check catches it | needs |\n|---|---|---|")
for s in sorted(os.listdir(os.path.join(D, "seeded"))):
    j = json.load(open(os.path.join(D, "seeded", s, "meta.json")))
    W.append("| %s | %s | %s |" % (s, j["property"], j["needs"]))
open(os.path.join(D, "DESIGN.md"), "w").write("\n".join(W) + "\n")
