#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_body.md, the list of families, and what `seeds.py catch` recorded."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(os.path.join(R, "tools/design_body.md")).read().rstrip(), "", "## 8. Families and their bounds", "", "Numbers in parentheses are those of the thorough tier.", ""]
for l in subprocess.run([os.path.join(R, "mc/target/release/mc"), "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    if not l.startswith(" "): o += ["", f"**{l}**", ""]
    else: n, b = l.strip().split(None, 1); o.append(f"* `{n}`: {b}")
o += ["", "## 9. Planted bugs and what catches them", "", "Each was caught by its own property's quick check in the named family unless the last column says otherwise.", "", "| bug | property | needs | caught by |", "|-|-|-|-|"]
c = json.load(open(os.path.join(R, "tools/caught.json"))) if os.path.exists(os.path.join(R, "tools/caught.json")) else {}
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    o.append(f"| {d} | {m['property']} | {m['needs']} | {c.get(d, '?')} |")
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(o) + "\n")
