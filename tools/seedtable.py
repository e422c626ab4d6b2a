#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.
usage: seedtable.py [id:check,...]   (checks other than its own that were seen to catch a change)"""
import json, os
D = "/verif/seeded"
ALSO = {"s03": "C29", "s07": "C12", "s11": "C05", "s12": "C03", "s15": "C12, C14"}
MISSED = set()
rows = ["## Planted changes", "", "Each lies in `seeded/<id>/`; `tools/matrix.sh` runs them. \"Caught by\" is the quick check that reports it.", "",
        "| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(D)):
    m = json.load(open(f"{D}/{s}/meta.json"))
    also = ALSO.get(s.split("-")[0])
    c = "missed" if s in MISSED else m["property"] + (", " + also if also else "")
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {c} |")
p = "/verif/DESIGN.md"
t = open(p).read()
for mark in ("SEEDTABLE", "## Planted changes"):
    if mark in t:
        t = t[:t.index(mark)]
        break
open(p, "w").write(t.rstrip() + "\n\n" + "\n".join(rows) + "\n")
