"""Compile /repo's current tree with the MIR driver and load the facts."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CHOPPER_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
DRIVER = os.path.join(VERIF, "driver", "target", "debug", "mirfacts")


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None):
    e = dict(os.environ)
    for k in ("RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def driver():
    sh(["cargo", "+nightly", "build", "--offline", "-q"], os.path.join(VERIF, "driver"))
    if not os.path.exists(DRIVER):
        raise BuildError("driver missing")


def source_hash(root):
    h = hashlib.sha256()
    fs = []
    for d, _, names in os.walk(os.path.join(root, "src")):
        for n in names:
            fs.append(os.path.join(d, n))
    for n in ("Cargo.toml", "Cargo.lock"):
        fs.append(os.path.join(root, n))
    for f in sorted(fs):
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def tool_hash():
    h = hashlib.sha256()
    for f in ("main.rs",):
        with open(os.path.join(VERIF, "driver", "src", f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def facts_path():
    """facts of the library crate of REPO as it is on disk now (always recompiled unless the very
    same sources were compiled by the very same driver before)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = hashlib.sha256((source_hash(REPO) + tool_hash() + REPO).encode()).hexdigest()[:24]
        fdir = os.path.join(CACHE, "facts-" + key)
        out = os.path.join(fdir, "chopper.json")
        if os.path.exists(out):
            return out
        driver()
        for n in os.listdir(CACHE):
            if n.startswith("facts-"):
                subprocess.run(["rm", "-rf", os.path.join(CACHE, n)])
        os.makedirs(fdir, exist_ok=True)
        tdir = os.path.join(CACHE, "target")
        fp = os.path.join(tdir, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("chopper-"):
                    subprocess.run(["rm", "-rf", os.path.join(fp, n)])
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")):   # git-ignored there; needed offline
            shutil.copy(os.path.join(VERIF, "checker", "chopper.Cargo.lock"), os.path.join(REPO, "Cargo.lock"))
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], VERIF).strip()
        sh(["cargo", "+nightly", "check", "--lib", "--offline", "-q"], REPO, {
            "VERIF_FACTS_DIR": fdir,
            "RUSTC_WORKSPACE_WRAPPER": DRIVER,
            "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
            "CARGO_TARGET_DIR": tdir,
        })
        if not os.path.exists(out):
            raise BuildError("driver produced no facts")
        return out


if __name__ == "__main__":
    print(facts_path())
