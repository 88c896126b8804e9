#!/usr/bin/env python3
"""The planted bugs by property, for DESIGN.md."""
import collections, glob, json, os
by = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(f))
    by[m["property"]].append((os.path.basename(os.path.dirname(f)), m["needs"]))
for p in sorted(by):
    print(f"* {p}: " + "; ".join(f"`{n}` ({d})" for n, d in by[p]) + ".")
