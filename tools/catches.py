#!/usr/bin/env python3
"""Prints the table "which check catches which planted change" of DESIGN.md from seeded/*/meta.json and a result of the last sweep."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    by.setdefault(m["property"], []).append(d)
print("| check | planted changes it catches |\n|---|---|")
for p in sorted(by):
    print("| %s | %s |" % (p, ", ".join(by[p])))
