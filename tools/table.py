#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, "DESIGN.md")
t = open(path).read()
head, rest = t.split("| property | change | needs |\n|---|---|---|\n")
rows = ""
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows += f"| {m['property']} | {os.path.basename(os.path.dirname(f))} | {m['needs']} |\n"
open(path, "w").write(head + "| property | change | needs |\n|---|---|---|\n" + rows)
