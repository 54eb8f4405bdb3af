#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
Run by hand after editing; neither setup_cmd nor any check runs it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, assume, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, assume=assume, observe=observe or []))
exec(open(os.path.join(V, "tools", "properties.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
LEVEL = ("Random exploration with shrinking against an independent oracle: a violation is a real failing input, "
         "absence of one is evidence over the generated cases only. ")
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "property-based testing: choice-tape generators, " + p["assume"][0] + ", automatic shrinking",
        "level": "exploration",
        "level_note": LEVEL + p["assume"][1],
    } for p in P],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks: everything is reached through the public API of the crates. "
             "known_findings.txt lists repaired and recorded defects.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
