#!/usr/bin/env python3
"""Make and confirm one seeded change.  usage: mkseed.py SPEC.py ; SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (rust tests)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds a scratch copy of the sources in the current directory with demo.rs added as a test module, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
tmp="$(mktemp -d /tmp/av1demo.XXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -r src Cargo.toml "$tmp/" || exit 3
cp Cargo.lock "$tmp/" 2>/dev/null || cp /opt/vp/av1enc/Cargo.lock "$tmp/" || exit 3
cp "$here/demo.rs" "$tmp/src/zz_demo.rs" || exit 3
printf '\n#[cfg(test)] mod zz_demo;\n' >> "$tmp/src/main.rs"
cd "$tmp" || exit 3
cargo test --offline --bin av1enc --target-dir "$tmp/target" --no-run > build.log 2>&1 || { tail -20 build.log; exit 4; }
timeout 120 cargo test --offline --bin av1enc --target-dir "$tmp/target" zz_demo -- --test-threads 4
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    specs = ns["SPECS"] if "SPECS" in ns else [ns]
    only = sys.argv[2:]
    for s in specs:
        if only and s["id"] not in only:
            continue
        one(s)


def one(s):
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", w], "/")
        d = os.path.join(tmp, "d")
        os.makedirs(d)
        if "demo" in s:
            open(d + "/demo.rs", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(s.get("script", DEMO))
        os.chmod(d + "/demo.sh", 0o755)
        r0 = sh(["bash", d + "/demo.sh"], w)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times:", old[:60])
                return
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
        t = sh("timeout 240 cargo test --workspace --no-fail-fast --offline", w, env=env)
        passed = sum(1 for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith(" ok"))
        r1 = sh(["bash", d + "/demo.sh"], w)
        ok = r0.returncode == 0 and t.returncode == 0 and r1.returncode not in (0, 3, 4)
        print(s["id"], s["property"], "clean demo", r0.returncode, "tests", t.returncode, passed, "bug demo", r1.returncode, "->", "KEPT" if ok else "REJECTED")
        if not ok:
            print(r0.stdout[-500:] if r0.returncode else "", t.stdout[-500:] if t.returncode else "", r1.stdout[-500:])
            return
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dst = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
