#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catches.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
catches = json.load(open(ROOT + "/tools/catches.json"))
rows = ["| bug | what it breaks | needs | check |", "| --- | --- | --- | --- |"]
for name in sorted(os.listdir(ROOT + "/seeded")):
    meta = json.load(open("%s/seeded/%s/meta.json" % (ROOT, name)))
    rows.append("| %s | %s | %s | %s |" % (name, meta["what_it_breaks"].replace("|", "/").replace("\n", " "), meta["needs"].replace("|", "/").replace("\n", " "), catches.get(name, "?")))
text = open(ROOT + "/DESIGN.md").read()
head, rest = text.split("<!-- table -->")
tail = rest.split("<!-- end -->")[1]
open(ROOT + "/DESIGN.md", "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->" + tail)
