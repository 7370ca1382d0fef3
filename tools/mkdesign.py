#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_head.md, specs/cNN.py, specs/not_applicable.json, tools/design_tail.md and tools/seed_results.json"""
import os, sys, json, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/specs", V + "/vc"]
o = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for f in sorted(glob.glob(V + "/specs/c[0-9][0-9].py")):
    m = importlib.import_module(os.path.basename(f)[:-3])
    o += ["### %s %s" % (m.ID, m.TITLE), "", "*Decided by:* %s. %s" % (m.TECHNIQUE, m.LEVEL_NOTE), ""]
    fns = []
    for p in m.PROOFS:
        fns.append("`specs/%s.py`: %s" % (p["spec"], ", ".join(p.get("fns") or ["all its functions"])))
    for p in getattr(m, "CBMC", []):
        fns.append("CBMC (dfcc): %s" % (p.get("name") or p.get("fn") or p) if isinstance(p, dict) else "CBMC: %s" % (p,))
    o += ["*Under contract:* " + "; ".join(fns) + ".", ""]
    if getattr(m, "BOUNDED", []):
        o += ["*Bounded stand-in (not counted as proved):* " + "; ".join(m.BOUNDED) + ".", ""]
    o += ["*Assumed:* " + "; ".join(m.ASSUMPTIONS) + ".", "", "*Why tests cannot:* " + m.PROP["why_tests_cant"], ""]
o += ["## Not applicable", ""]
for e in json.load(open(V + "/specs/not_applicable.json")):
    p = e.get("prop", e)
    o += ["* **%s** %s: %s" % (p.get("id", e.get("property_id")), p.get("title", ""), e.get("reason", ""))]
o += ["", "## Planted bugs", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), res.get(n, "?")))
o += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(o))
