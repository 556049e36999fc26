#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 props.py"""
import json, os

V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
AI = ("The analysis is an abstract interpreter over rustc's MIR of the current source (driver/src); it trusts rustc's MIR, "
      "the models of the library routines it lists, and overflow checks being on. ")


def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, id
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, technique, level, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None, None)
    NA.append({"property": id, "reason": reason})


exec(open(V + "/props_data.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": [
        {"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"], "technique": t, "level": l, "level_note": n}
        for p, t, l, n in P
        if t
    ],
    "not_applicable": NA,
    "notes": NOTES,
}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
