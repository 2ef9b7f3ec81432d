#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []       # claimed
NA = []      # (property, reason)


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), state=list(state)))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                    observe=[], state=[]), reason))


exec(open(os.path.join(HERE, "meta", "list.py")).read())


def line(p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
    if p["observe"]:
        a["observe_at"] = p["observe"]
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}


allp = sorted([line(p) for p in P] + [line(p) for p, _ in NA], key=lambda x: x["id"])
assert len({x["id"] for x in allp}) == len(allp)
for x in allp:
    assert len(x["title"]) <= 80, x["title"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for x in allp:
        fh.write(json.dumps(x) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m hsa.program",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"]}
                for p in sorted(P, key=lambda p: p["id"])],
     "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
     "notes": "Static analysis only: a libTooling front end lowers every translation unit of /repo to a resolved IR; "
              "rules in hsa/rules decide each property on it. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
