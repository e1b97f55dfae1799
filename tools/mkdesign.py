#!/usr/bin/env python3
"""Write DESIGN.md from tools/design.md, the property texts, the harness headers, known_findings.json and tools/seeds.json."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); t = open(H + "/tools/design.md").read()
P = [json.loads(l) for l in open(H + "/properties.jsonl")]; M = json.load(open(H + "/MANIFEST.json")); na = {x["property"]: x["reason"] for x in M["not_applicable"]}
how = json.load(open(H + "/tools/how.json")) if os.path.exists(H + "/tools/how.json") else {}
cost = json.load(open(H + "/tools/cost.json")) if os.path.exists(H + "/tools/cost.json") else {}
o = []
for p in P:
    if p["id"] in na: continue
    h = (glob.glob(H + "/harness/%s_*.cpp" % p["id"]) + [None])[0]
    if not h: continue
    s = open(h).read(); g = lambda k: "; ".join(re.findall(r"^// @%s (.*)$" % k, s, re.M))
    o.append("### %s %s\n%s  \n**Entries** %s  \n**Oracle** %s  \n**Bounds** %s  \n**Outside** %s  \n%s" % (p["id"], p["title"], p["statement"], ", ".join(re.findall(r"HARNESS\((\w+)\)", s)), how.get(p["id"], "the statement itself, computed independently in the harness"), g("bounds"), g("outside"), ("**Cost** (quick, warm/cold build) " + cost[p["id"]] + "\n") if p["id"] in cost else ""))
t = t.replace("@TABLE@", "\n".join(o))
F = json.load(open(H + "/known_findings.json"))
t = t.replace("@FINDINGS@", "\n".join(("* fixed %s, %s: %s" % (f["commit"], f["property"], f["what"])) if f["status"] == "fixed" else ("* **known finding** %s (%s, \"%s\"): %s" % (f["property"], f["entry"], f["label"], f["what"])) for f in F))
S = json.load(open(H + "/tools/seeds.json")) if os.path.exists(H + "/tools/seeds.json") else {}
rows = ["| change | property | what it breaks | needs | detected |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m)); rows.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"], j["needs"], S.get(i, "")))
t = t.replace("@SEEDS@", "\n".join(rows)); t = t.replace("@NA@", "\n".join("* %s: %s" % x for x in sorted(na.items())) or "none so far")
open(H + "/DESIGN.md", "w").write(t)
