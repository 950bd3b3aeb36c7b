#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "static analysis: value-graph dataflow over the compiler's MIR, compared with the definition"
P = []      # properties
C = {}      # id -> (technique, level_note)
NA = {}     # id -> reason


def prop(id, title, statement, over, qtext, why, files, mech, note=None, tech=TECH, state=(), observe=(), na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
    if na:
        NA[id] = na
    else:
        C[id] = (tech, note)


exec(open(os.path.join(V, "tools", "properties.py")).read())


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 setup.py",
         "checks": [{"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                     "technique": t, "level": "other", "level_note": n} for i, (t, n) in sorted(C.items())],
         "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())],
         "notes": "Every check exports the type-checked MIR of /repo's working tree (nightly rustc driver in /verif/driver) and "
                  "decides its property on that; nothing of /repo is executed. No hooks in /repo are needed."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties,", len(C), "claimed,", len(NA), "not applicable")


main()
