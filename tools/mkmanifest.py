#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from specs/cNN.py (PROP, LEVEL_NOTE) and specs/not_applicable.json."""
import sys, os, json, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "specs"), os.path.join(V, "vc")]
props, checks = [], []
for f in sorted(glob.glob(os.path.join(V, "specs", "c[0-9][0-9].py"))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    assert m.PROP["id"] == m.ID and m.PROP["title"] == m.TITLE and len(m.TITLE) <= 80, m.ID
    props.append(m.PROP)
    checks.append({"property": m.ID, "quick_cmd": "python3 check.py %s" % m.ID, "thorough_cmd": "python3 check.py %s --tier thorough" % m.ID,
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "proof"), "level_note": m.LEVEL_NOTE})
na = json.load(open(os.path.join(V, "specs", "not_applicable.json")))
for e in na:
    props.append(e["prop"])
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in props:
        o.write(json.dumps(p) + "\n")
M = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": e["prop"]["id"], "reason": e["reason"]} for e in na],
     "hooks": {"guard": "VP_HOOKS", "enable": "no hook is needed: the checks compile /repo's sources as they are", "source_commits": []},
     "notes": "Contract-based deductive verification: contracts in specs/*.py and specs/cbmc/*, verifier in vc/, concrete drivers in drivers/."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks")
