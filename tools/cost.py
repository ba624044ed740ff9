"""collects the cost of the last quick runs from evidence/ into cost.json (for DESIGN.md)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "tools", "cost.json")
c = json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    d = json.load(open(e))
    if d["tier"] == "quick":
        k = d["coverage"]
        c[d["property"]] = "%d s, %d cases, %d paths, %d queries (%.0f s in the solver)" % (d["wall_s"], k["cases"], k["paths"], k["queries"], k["solver_s"])
json.dump(c, open(f, "w"), indent=1)
