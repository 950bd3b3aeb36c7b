"""Build the compiler driver and export /repo's type-checked, borrow-checked MIR.

Nothing of /repo is executed: the driver runs inside `cargo check` (nightly) and writes the
program as rustc sees it (resolved callees, types, evaluated constants) as JSON.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AV1V_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LOCK = "/opt/vp/av1enc/Cargo.lock"


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "driver-" + h)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "--edition", "2021", "-O", "-C", "prefer-dynamic", src, "-o", tmp],
                           env=_env(), cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ExtractError("driver does not build:\n" + r.stdout[-3000:])
        os.replace(tmp, out)
    return out


def export(repo=None, keep=None):
    """Returns (bin_json, lib_json) of the working tree."""
    repo = repo or REPO
    drv = build_driver()
    env = _env()
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
    tmp = tempfile.mkdtemp(prefix="av1v-")
    try:
        # A copy of the sources: cargo may not write (Cargo.lock) into /repo.
        work = os.path.join(tmp, "src")
        os.makedirs(work)
        for name in os.listdir(repo):
            if name in ("target", ".git"):
                continue
            p = os.path.join(repo, name)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(work, name), symlinks=True)
            else:
                shutil.copy2(p, os.path.join(work, name))
        if not os.path.exists(os.path.join(work, "Cargo.lock")) and os.path.exists(LOCK):
            shutil.copy2(LOCK, os.path.join(work, "Cargo.lock"))
        out = os.path.join(tmp, "out")
        os.makedirs(out)
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["AV1V_OUT"] = out
        r = subprocess.run(["cargo", "check", "--offline", "--bins", "--lib", "--target-dir", os.path.join(tmp, "tgt")],
                           cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ExtractError("the tree does not compile:\n" + r.stdout[-3000:])
        res = []
        for kind in ("bin", "lib"):
            p = os.path.join(out, "av1enc-%s.json" % kind)
            if not os.path.exists(p):
                raise ExtractError("no export for " + kind)
            with open(p) as f:
                res.append(json.load(f))
            if keep:
                shutil.copy2(p, keep)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    build_driver()
    if len(sys.argv) > 1:
        os.makedirs(sys.argv[1], exist_ok=True)
        export(keep=sys.argv[1])
