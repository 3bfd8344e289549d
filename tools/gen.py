#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (kept in step by construction)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CLAIMED = set(open(os.path.join(ROOT,"tools","claimed.txt")).read().split())
def prop(id, title, statement, over, text, why, files, mech, technique, level_note, claimed=None, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, level_note=level_note, claimed=(id in CLAIMED if claimed is None else claimed), reason=reason))
exec(open(os.path.join(ROOT, "tools", "table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="python3 tools/run.py setup",
    checks=[dict(property=p["id"], quick_cmd="python3 tools/run.py check %s --tier quick" % p["id"],
                 thorough_cmd="python3 tools/run.py check %s --tier thorough" % p["id"],
                 technique=p["technique"], level="exploration", level_note=p["level_note"]) for p in P if p["claimed"]],
    not_applicable=[dict(property=p["id"], reason=p["reason"] or "Check under construction in this revision; not yet claimed.") for p in P if not p["claimed"]],
    notes="Runtime monitoring: the real libraries are rebuilt with sanitizers from /repo's working tree and driven by generated workloads under executable reference models. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
