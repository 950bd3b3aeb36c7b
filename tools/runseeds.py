#!/usr/bin/env python3
"""Run checks against seeded changes in scratch copies.  usage: runseeds.py [seed ...] [--all]  (--all: every check, not only the seed's own)"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
allp = "--all" in sys.argv
props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def one(s):
    d = os.path.join(V, "seeded", s)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="rs-", dir="/tmp")
    try:
        w = tmp + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w)
        if r.returncode:
            return "%-28s patch does not apply" % s
        env = dict(os.environ, AV1V_REPO=w)
        r = subprocess.run([sys.executable, "-m", "analysis.extract", tmp + "/out"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "%-28s export failed %s" % (s, r.stdout[-300:])
        env["VPROG"] = tmp + "/out"
        env["AV1V_EVIDENCE"] = tmp + "/ev"
        out = []
        for p in (props if allp else [meta["property"]]):
            r = subprocess.run([sys.executable, "check.py", p], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                v = [l for l in r.stdout.splitlines() if l.startswith("  ") and "undecided" not in l]
                out.append("%s:%s%s" % (p, "CAUGHT" if r.returncode == 1 else "ERROR %d" % r.returncode, (" " + v[0].strip()) if v else r.stdout[-300:]))
        return "%-28s %s %s" % (s, meta["property"], "; ".join(out) or "MISSED")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, args or sorted(os.listdir(V + "/seeded"))):
        print(r, flush=True)
