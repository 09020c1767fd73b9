"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; its outputs are committed)."""
import json
import os

SRC = "pkm/src/pkm/"
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, level, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                       why_tests_cant=why, anchors=a), technique, level, note))


def not_applicable(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(os.path.dirname(__file__), "props.py")).read())

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{here}/properties.jsonl", "w") as f:
    for p, *_ in PROPS:
        f.write(json.dumps(p) + "\n")
na = {n["property"] for n in NA}
checks = []
for p, technique, level, note in PROPS:
    if p["id"] in na:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}", "technique": technique, "level": level,
                   "level_note": note})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA,
           "notes": "All checks run the real code of /repo (imported from its working tree) under /opt/venv/bin/python; "
                     "no hooks are needed in /repo."},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
