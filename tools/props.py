#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (dict, claim or None, na-reason)


def prop(id, title, statement, qtext, why, files, mechanism, over=("inputs",), level=None, technique=None, note=None, na=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mechanism))
    if state:
        d["anchors"]["state"] = state
    assert len(title) <= 80, (id, len(title))
    P.append((d, dict(level=level, technique=technique, note=note) if level else None, na))


exec(open(os.path.join(V, "tools", "prop_list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, c, na in P:
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for d, c, na in P:
    if c:
        m["checks"].append(dict(property=d["id"], quick_cmd=f"python3 check.py {d['id']}",
                                thorough_cmd=f"VERIF_TIER=thorough python3 check.py {d['id']}",
                                technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=d["id"], reason=na or "no check registered yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
