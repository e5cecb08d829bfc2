#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/proxsuite-nlp/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, state=state or []))
exec(open(os.path.join(V, "tools", "properties.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
             "quantifier": {"over": q["over"], "text": q["text"]},
             "why_tests_cant": q["why"],
             "anchors": {"files": q["files"],
                         "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                         "observe_at": q["observe"], "hook_needed": None}}
        if q["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in q["state"]]
        f.write(json.dumps(d) + "\n")
M = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for q in P:
    if q["note"] is None:
        M["not_applicable"].append({"property": q["id"], "reason": NA[q["id"]]})
        continue
    M["checks"].append({"property": q["id"], "quick_cmd": "./check " + q["id"],
        "thorough_cmd": "env VERIF_TIER=thorough ./check " + q["id"], "evidence_file": "evidence/%s.json" % q["id"],
        "technique": "stateless model checking of the real code: exhaustive enumeration of bounded " + q["note"][0],
        "level": q["note"][2] if len(q["note"]) > 2 else "model_checking", "level_note": q["note"][1]})
M["notes"] = ("Every check compiles its harness against /repo's headers (and src/block-kind.cpp) at run time, "
              "enumerates every choice sequence within its stated bounds on the real code, and replays any "
              "violation from its choice sequence in a fresh process before reporting it. No hooks are needed.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
