#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the property texts and the harnesses present."""
import json, glob, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/tools")
import props_a
P = list(props_a.P); NA = dict(props_a.NA) if hasattr(props_a, "NA") else {}
for m in ("props_b", "props_c"):
    if os.path.exists(H + "/tools/%s.py" % m): x = __import__(m); P += x.P; NA.update(getattr(x, "NA", {}))
P.sort(key=lambda p: p["id"])
open(H + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
checks = []
for p in P:
    h = glob.glob(H + "/harness/%s_*.cpp" % p["id"])
    if not h or p["id"] in NA: continue
    b = [l[len("// @bounds "):].strip() for l in open(h[0]) if l.startswith("// @bounds ")]; o = [l[len("// @outside "):].strip() for l in open(h[0]) if l.startswith("// @outside ")]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s --thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
        technique="symbolic execution of the library's LLVM IR, goals decided by z3, counterexamples replayed natively", level="model_checking",
        level_note="Bounded: " + "; ".join(b) + ". Outside: " + "; ".join(o) + ". Doubles are exact reals unless stated otherwise."))
m = dict(version=1, setup_cmd="make -C engine -j8 OUT=../build", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
miss = [p["id"] for p in P if p["id"] not in NA and p["id"] not in [c["property"] for c in checks]]
print(len(P), "properties,", len(checks), "checks; without check:", miss)
