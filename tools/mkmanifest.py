#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the contracts that exist"""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NA = {}
exec(open(f"{V}/tools/not_applicable.py").read()) if os.path.exists(f"{V}/tools/not_applicable.py") else None
checks = []; na = []
for p in ids:
    f = f"{V}/contracts/{p}.py"
    src = open(f).read() if os.path.exists(f) else ""
    m = re.search(r'^NOTE\s*=\s*"(.*)"', src, re.M)
    if src and m and p not in NA:
        lv = re.search(r'^LEVEL\s*=\s*"(\w+)"', src, re.M).group(1)
        checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}", "evidence_file": f"evidence/{p}.json",
            "technique": "contract-based deductive verification: contracts on the real functions, VCs generated from their LLVM IR on every run, discharged by z3/cvc5",
            "level": lv, "level_note": m.group(1)})
    else: na.append({"property": p, "reason": NA.get(p, "no contract written yet; the property is not claimed")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
