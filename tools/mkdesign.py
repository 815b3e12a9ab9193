#!/usr/bin/env python3-vt
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); out = open(V + "/tools/design_head.md").read()
sys.path.insert(0, V)
fixed = [l.strip()[7:] for l in open(V + "/known_findings.txt") if l.startswith("fixed:")]
seeds = [(os.path.basename(os.path.dirname(p)), json.load(open(p))) for p in sorted(glob.glob(V + "/seeded/*/meta.json"))]
how = json.load(open(V + "/tools/design_notes.json")); man = json.load(open(V + "/MANIFEST.json"))
na = {x.get("property", x.get("id")): x["reason"] for x in man.get("not_applicable", [])}
def const(src, k):
    m = re.search(rf"^{k} = (.*?)(?=^[A-Za-z#@])", src, re.M | re.S); return eval(m[1]) if m else ""
out += "\n## Properties\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; f = f"{V}/contracts/{i}.py"; out += f"\n### {i} {p['title']}\n\n"
    if not os.path.exists(f) or i in na: out += f"Not claimed: {na.get(i, 'no check yet')}\n"; continue
    s = open(f).read(); lev = const(s, "LEVEL")
    out += f"Level: {'proof' if lev == 'proof' else 'proved in part, rest bounded'}. " + const(s, "NOTE") + "\n\n"
    if i in how: out += f"* Contracts and oracle: {how[i]}\n"
    out += "* Assumed: " + "; ".join(const(s, "ASSUMPTIONS") or ["nothing beyond the trusted base"]) + ".\n"
    if const(s, "BOUNDED"): out += "* Bounded stand-ins: " + "; ".join(const(s, "BOUNDED")) + ".\n"
    n = [x for x in fixed if x.startswith(f"property={i} ")]
    if n: out += f"* Defects repaired: {len(n)}.\n"
    n = [a for a, m in seeds if m["property"] == i]
    if n: out += "* Planted bugs (all caught by this check unless noted): " + ", ".join(n) + ".\n"
out += "\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for a, m in seeds: out += f"| {a} | {m['property']} | {m['needs']} | {how.get('seed:' + a, m['property'])} |\n"
out += "\n" + open(V + "/tools/design_tail.md").read(); open(V + "/DESIGN.md", "w").write(out)
