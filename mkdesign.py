#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from propdefs.py, props.py and the planted bugs (between the markers)."""
import json, os, re, glob
V = os.path.dirname(os.path.abspath(__file__))
import sys; sys.path.insert(0, V)
from propdefs import DEFS, FIXES, KNOWN, NA
from props import PROPS
out = []
for d in DEFS:
    p = PROPS.get(d["id"])
    out.append("### %s %s" % (d["id"], d["title"]))
    if p is None:
        out.append("Not claimed: " + dict((n[0], n[1]) for n in NA).get(d["id"], "") + "\n"); continue
    out.append("Decision: %s. Level: %s." % (d["note"].rstrip("."), p.get("level", "proof")))
    out.append("Contract units: %s. Concrete harness: `harness/%s`, about %d s of search (8 times that in thorough)." % (", ".join("`contracts/%s.vrs` (%s)" % (u, ", ".join(f) or "all") for u, f in p["units"].items()), p["harness"], p["secs"]))
    out.append("Bounded only: " + ("; ".join(p.get("bounded", [])) or "nothing") + ".")
    if p.get("assume"): out.append("Assumed: " + "; ".join(p["assume"]) + ".")
    out.append("What tests cannot reach: " + d["why"])
    bugs = []
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        j = json.load(open(m))
        if j["property"] == d["id"]: bugs.append("%s (%s)" % (os.path.basename(os.path.dirname(m)), j["what_it_breaks"]))
    if bugs: out.append("Planted bugs caught: " + "; ".join(bugs) + ".")
    fx = ["%s %s" % (c, t) for i, c, t in FIXES if i == d["id"]]
    if fx: out.append("Genuine defects repaired: " + "; ".join(fx) + ".")
    out.append("")
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
a, b = "<!-- generated by mkdesign.py -->", "<!-- end -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + s[s.index(b):]
open(f, "w").write(s)
