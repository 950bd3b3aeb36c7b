#!/usr/bin/env python3
"""Writes analysis/ref/*.json: the format's constant tables and codes, taken once from the reviewed tree (never at check time)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from analysis.mir import Prog
from analysis.tables import *
p = Prog(json.load(open(sys.argv[1] + "/av1enc-bin.json")))


def put(name, v):
    with open(os.path.join(V, "analysis", "ref", name), "w") as f:
        f.write("{" + ",\n".join("%s:%s" % (json.dumps(k), json.dumps(x, separators=(",", ":"))) for k, x in sorted(v.items())) + "}\n")


put("cdf.json", fields(p, "default_cdf"))
T, S = {}, {}
for k in p.named:
    n = k.split("::")[-1]
    if n == "default_cdf":
        continue
    v = table(p, n)
    (S if isinstance(v, int) else T)[n] = v
put("tables.json", T)
put("scalars.json", S)
E = {}
for t in p.tys:
    if t.get("k") == "adt" and t.get("ak") == "enum" and t["n"].startswith("av1enc::"):
        E[t["n"].split("::")[-1]] = {v["n"]: v["d"] for v in t["v"]}
put("codes.json", E)
