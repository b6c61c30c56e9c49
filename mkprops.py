#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables in propdefs.py / props.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from propdefs import DEFS, NA, FIXES, KNOWN
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in DEFS:
        o = dict(id=d["id"], title=d["title"], statement=d["statement"], quantifier=dict(over=d["over"], text=d["qtext"]),
                 why_tests_cant=d["why"], anchors=dict(files=d["files"], mechanism=[dict(name=n, where=w) for n, w in d["mech"]],
                 state=[dict(name=n, meaning=m, where=w) for n, m, w in d.get("state", [])], observe_at=d["observe"], hook_needed=None))
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
checks = []
for d in DEFS:
    p = d["id"]
    if p not in PROPS: continue
    P = PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique=P.get("technique", "Verus contracts on mechanically extracted functions; failed obligations replayed on the compiled code"),
        level=P.get("level", "proof"), level_note=P.get("note", d.get("note", ""))))
na = [dict(property=p, reason=r) for p, r in NA]
for d in DEFS:
    if d["id"] not in PROPS and d["id"] not in [x[0] for x in NA]: raise SystemExit("unclaimed " + d["id"])
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="none", enable="no hooks are needed: private functions are reached by extracting their text; the harness uses the public API", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Contract-based deductive verification (Verus) of functions extracted from /repo on every run; see DESIGN.md. fix commits in /repo: " + "; ".join("%s (%s)" % (c, t) for _, c, t in FIXES))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
with open(os.path.join(V, "known_findings.txt"), "w") as f:
    for p, k, t in KNOWN: f.write("known: property=%s key=%s %s\n" % (p, k, t))
    for p, c, t in FIXES: f.write("fixed: property=%s %s %s\n" % (p, c, t))
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: print("not validated (use python3-vt)")
print(len(DEFS), "properties,", len(checks), "checks")
