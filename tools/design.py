"""Writes DESIGN.md from design_intro.md, meta.py, the property modules and seeded/."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props"), os.path.join(V, "tools")]
import meta

out = [open(os.path.join(V, "tools", "design_intro.md")).read().rstrip() + "\n\n## Properties\n"]
for p in meta.P:
    m = importlib.import_module(p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("- decided by: " + p["technique"])
    out.append("- observed: " + p["observe"])
    out.append("- workload and oracle: " + m.RULE)
    out.append("- bounds and cost: %s; quick %d cases (about %d s at most), thorough %d cases (up to %d s)" %
               (p["note"], m.QUICK, getattr(m, "CAP", 40), m.THOROUGH, getattr(m, "CAP_T", 700)))
    out.append("- assumptions: " + "; ".join(m.ASSUMPTIONS))
    out.append("- why tests cannot settle it: " + p["why"] + "\n")
out.append("## Planted changes (seeded/)\n")
out.append("Each compiles, passes the 159 stable tests and has a demonstration. 'caught by' was measured by applying the change and running the checks.\n")
out.append("| change | property | needs | caught by |\n|---|---|---|---|")
caught = {}
c = os.path.join(V, "tools", "caught.json")
if os.path.exists(c):
    caught = json.load(open(c))
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    if not os.path.exists(os.path.join(sd, d, "meta.json")):
        continue
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s: %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["property"], m["needs"], caught.get(d, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
