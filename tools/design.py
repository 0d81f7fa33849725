#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/{head,tail}.md, props.py and the rules named in evidence/*.json (run all checks first)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from props_base import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
out = [rd("tools/design/head.md")]
for p in sorted([p for p in PROPS if p.get("technique")], key=lambda p: p["id"]):
    e = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))["coverage"]
    n = e["obligations_by_rule"]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Technique:* %s. *Obligations now:* %d.\n" % (p["technique"], e["obligations"]))
    for r in e["rules"]:
        k = r.split(":", 1)
        out.append("- **%s** (%s):%s" % (k[0], n.get(k[0], "only counter-instances are reported"), k[1]))
    out.append("\n*Why tests cannot:* %s\n*Limits:* %s\n" % (p["why"], p["note"]))
out.append("## 3. Not applicable\n")
for p in NA:
    out.append("- **%s %s** %s." % (p["id"], p["title"], p["reason"].rstrip(".")))
out.append("")
out.append(rd("tools/design/tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
