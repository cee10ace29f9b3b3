#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the compact table below (kept here so that the file stays diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_table.py")).read())
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
