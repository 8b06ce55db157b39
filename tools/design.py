#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts (tools/design-*.md), and per property
what its rules decide, from the evidence of the last run."""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(__file__))
import props as T
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
read = lambda f: open(os.path.join(root, f)).read()
claimed = read("tools/claimed.txt").split()
base = None
out = [read("tools/design-head.md").rstrip() + "\n"]
evs = {i: json.load(open(os.path.join(root, "evidence", i + ".json"))) for i in claimed}
for e in evs.values():
    a = e["assumptions"]
    base = a if base is None else [x for x in base if x in a]
out.append("Assumed by all checks:\n" + "".join("\n- " + x for x in base) + "\n")
bugs = {}
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
for p in T.props:
    i = p["id"]
    if i not in evs:
        continue
    e = evs[i]
    c = e["coverage"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Decided:* %s\n" % c["explanation"])
    out.append("*Oracle and technique:* %s.\n" % p["technique"])
    extra = [x for x in e["assumptions"] if x not in base]
    out.append("*Limits:* %s%s\n" % (p["note"], "".join(" Assumed: %s." % x for x in extra)))
    out.append("*On this tree:* %d obligations in %d functions.\n" % (c["obligations"], c["functions_analysed"]))
    for name, m in bugs.get(i, []):
        out.append("*Planted:* `%s` (%s) -- %s.\n" % (name, m["what_it_breaks"].rstrip("."), m.get("caught", "caught by this check")))
out.append("## Not applicable\n")
for n in T.N_A:
    out.append("- **%s %s**: %s" % (n[0], n[1], n[8]))
out.append("")
out.append(read("tools/design-tail.md"))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
