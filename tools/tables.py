#!/usr/bin/env python3
"""Fill the tables of DESIGN.md from MANIFEST.json, properties.jsonl, evidence/ and seeded/ (caught.json: result of runseed.sh)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = json.load(open(V + "/MANIFEST.json"))
C = {c["property"]: c for c in M["checks"]}
na = {x["property"]: x["reason"] for x in M["not_applicable"]}
out = []
for p in sorted(P, key=lambda p: p["id"]):
    i = p["id"]
    if i in na:
        continue
    n = C[i]["level_note"].split("on. ")[-1] if "overflow checks being on. " in C[i]["level_note"] else C[i]["level_note"]
    try:
        w = "%.0f s" % json.load(open(V + "/evidence/%s.json" % i))["wall_s"]
    except OSError:
        w = "?"
    out += ["### %s %s" % (i, p["title"]), "", "Decided by: " + C[i]["technique"] + ".", "",
            "Bounds: " + p["quantifier"]["text"] + ". " + n, "",
            "Beyond tests: " + p["why_tests_cant"], "", "Cost (quick): " + w + ".", ""]
out += ["### Not applicable", ""] + ["* %s %s: %s" % (i, next(p["title"] for p in P if p["id"] == i), r) for i, r in sorted(na.items())] + [""]
seeds = ["| planted bug | needs | caught by |", "|---|---|---|"]
try:
    caught = json.load(open(V + "/tools/caught.json"))
except OSError:
    caught = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    seeds.append("| %s | %s | %s |" % (i, m["needs"], ", ".join(caught.get(i, [])) or "not run"))
s = open(V + "/DESIGN.md").read()
for k, t in (("properties", out), ("seeds", seeds)):
    s = re.sub(r"<!-- %s -->.*<!-- /%s -->" % (k, k), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (k, "\n".join(t), k), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
