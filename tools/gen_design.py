#!/usr/bin/env python3
"""DESIGN.md: tools/design_body.md and the table of families found in an evidence directory."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
evidence = sys.argv[1] if len(sys.argv) > 1 else os.path.join(root, "evidence")
out = open(os.path.join(root, "tools", "design_body.md")).read()
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(evidence, p["id"] + ".json")
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e["coverage"]
    wall = sum(x["wall_s"] for x in c["families"])
    out += f"### {p['id']} {p['title']}\n\n{e['tier']} tier: {c['traces_validated_against_impl']:,} executions, {wall:.0f} s\n\n"
    for x in c["families"]:
        out += f"- {x['name']} ({x['traces']:,}): {x['space']}\n"
    out += "\n"
open(os.path.join(root, "DESIGN.md"), "w").write(out)
