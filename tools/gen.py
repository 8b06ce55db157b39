#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Usage: gen.py ID... (the claimed properties)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props as T
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
claimed = set(open(os.path.join(root, "tools/claimed.txt")).read().split())
line = lambda id, title, st, over, text, why, files, mech: json.dumps(dict(
    id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
out, checks, na = [], [], []
for p in T.props:
    assert len(p["title"]) <= 80, p["title"]
    out.append(line(p["id"], p["title"], p["statement"], p["over"], p["text"], p["why"], p["files"], p["mech"]))
    if p["id"] in claimed:
        checks.append(dict(property=p["id"], quick_cmd="./run.sh " + p["id"], thorough_cmd="./run.sh " + p["id"],
                           technique="static analysis: " + p["technique"], level="other", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=getattr(T, "REASONS", {}).get(p["id"], "not claimed yet: the check is under construction")))
for n in T.N_A:
    out.append(line(*n[:8]))
    na.append(dict(property=n[0], reason=n[8]))
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(out) + "\n")
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Every check type-checks /repo's current tree, builds its SSA form and decides the property by abstract interpretation or dataflow; nothing of /repo is executed. The quick and thorough commands are the same: the analyses are complete over paths, there is no budget to raise."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
