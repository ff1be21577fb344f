#!/usr/bin/env python3
"""DESIGN.md = tools/design.tmpl.md + tools/design_props.md + the table in tools/design_seeded.md"""
import os, json
H = os.path.dirname(os.path.abspath(__file__))


def table():
    d = os.path.dirname(H) + "/seeded/"
    rows = ["| id | property (check that catches it) | what it breaks | needs |", "|---|---|---|---|"]
    for i in sorted(os.listdir(d)):
        m = json.load(open(d + i + "/meta.json"))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"]))
    return "\n".join(rows)


t = open(H + "/design.tmpl.md").read()
s = H + "/design_seeded.md"
t = t.replace("%%PROPS%%", open(H + "/design_props.md").read().strip()).replace("%%SEEDED%%", open(s).read().strip().replace("SEEDED_TABLE", table()))
open(os.path.dirname(H) + "/DESIGN.md", "w").write(t)
