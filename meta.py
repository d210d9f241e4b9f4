#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = "contract-based deductive verification: contracts on the Go functions, weakest-precondition style obligations from go/ssa, discharged by z3/cvc5"
TRUST = "Unbounded proof over the current source; trusted: the condition generator in gov/, go/ssa, the solvers, the assumed contracts of library functions listed in the evidence file, no interference by other goroutines inside a body, no termination claim."

def prop(id, title, statement, over, text, why, files, mech, note="", claimed=True, reason="", state=None, observe=None):
    assert id not in [p["id"] for p in P], id
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, claimed=claimed, reason=reason, observe=observe))

exec(open("meta_props.py").read())

with open("properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in sorted(P, key=lambda p: p["id"]):
    if p["claimed"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": TECH, "level": "proof", "level_note": (p["note"] + " " if p["note"] else "") + TRUST})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
m["notes"] = "Failed obligations are replayed by the harnesses in replay/ against the real code; see DESIGN.md."
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
