"""Builds symex, mirrors /repo, and compiles a harness binary to LLVM IR and to a native replay program."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
TOOLCHAIN = "1.85.1-x86_64-unknown-linux-gnu"
SKIP = {".git", "target", "Cargo.toml", "Cargo.lock", "factrs-typetag", ".github", ".gitmodules", ".gitignore"}

HARNESS_TOML = """[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
%s
[lib]
path = "src/lib.rs"
[dependencies]
factrs = { path = "../pkg"%s }
nalgebra = "0.33.2"
paste = "1.0.15"
ahash = "0.8.11"
faer = { version = "0.19.4", default-features = false, features = ["std"] }
[profile.release]
opt-level = 2
lto = "fat"
panic = "abort"
codegen-units = 1
debug = "line-tables-only"
overflow-checks = true
incremental = false
[profile.release.package."*"]
debug = "line-tables-only"
"""


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints=allow", CARGO_TERM_COLOR="never")
    e.pop("CARGO_TARGET_DIR", None)
    return e


def put(path, data):
    """writes only when the content differs, so that cargo sees exactly the real changes"""
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def sync(src, dst, skip=()):
    want = set()
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        if rel == ".":
            dirs[:] = [x for x in dirs if x not in skip]
            files = [x for x in files if x not in skip]
        dirs[:] = [x for x in dirs if x != "target" and x != ".git"]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            want.add(r)
            p = os.path.join(d, f)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            with open(p, "rb") as h:
                put(os.path.join(dst, r), h.read())
    for d, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.normpath(os.path.relpath(os.path.join(d, f), dst))
            if r not in want and r not in ("Cargo.toml", "Cargo.lock"):
                os.unlink(os.path.join(d, f))


def mirror():
    pkg = os.path.join(BUILD, "pkg")
    os.makedirs(pkg, exist_ok=True)
    sync(REPO, pkg, SKIP)
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    t = re.sub(r"(?m)^typetag\s*=.*\n", "", t)
    t = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", t)
    t = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", t)
    if "vf-hooks" not in t:
        t = re.sub(r"(?m)^\[features\]\n", "[features]\nvf-hooks = []\n", t, count=1)
    put(os.path.join(pkg, "Cargo.toml"), t)
    return pkg


def sh(cmd, cwd, log, timeout=850):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode


def build_symex():
    src = os.path.join(ROOT, "symex")
    tgt = os.path.join(BUILD, "symex")
    os.makedirs(tgt, exist_ok=True)
    exe = os.path.join(tgt, "release", "symex")
    h = hashlib.sha256()
    for p in sorted(glob.glob(src + "/src/*.rs")) + [src + "/Cargo.toml"]:
        h.update(open(p, "rb").read())
    stamp = os.path.join(tgt, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    rc = sh(["cargo", "build", "--release", "--offline", "--target-dir", tgt], src, os.path.join(BUILD, "symex.log"))
    if rc:
        raise BuildError("symex does not build: see .build/symex.log")
    open(stamp, "w").write(h.hexdigest())
    return exe


def harness_dir(features):
    name = "harness" + "".join("-" + f for f in features)
    d = os.path.join(BUILD, name)
    sync(os.path.join(ROOT, "harness"), d)
    feat = ""
    dflt = "default = [" + ", ".join(f'"{f}"' for f in features) + "]\n" + "\n".join(f"{f} = []" for f in features)
    if features:
        feat = ", features = [" + ", ".join(f'"{f}"' for f in features) + "]"
    toml = HARNESS_TOML % (dflt, feat)
    if "rerun" in features:
        toml = toml.replace("[dependencies]\n", '[dependencies]\nrerun = { version = "0.20", default-features = false, features = ["sdk"] }\n', 1)
    put(os.path.join(d, "Cargo.toml"), toml)
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    return d


def build_rt():
    src = os.path.join(ROOT, "harness", "rt.c")
    o = os.path.join(BUILD, "rt-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:12] + ".o")
    if not os.path.exists(o):
        rc = sh(["cc", "-O1", "-c", src, "-o", o], ROOT, os.path.join(BUILD, "rt.log"))
        if rc:
            raise BuildError("rt.c does not compile")
    return o


def build(binname, features=()):
    """returns (symex exe, path of the IR, native exe)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_symex()
        rt = build_rt()
        mirror()
        d = harness_dir(features)
        tgt = os.path.join(BUILD, "target" + "".join("-" + f for f in features))
        log = os.path.join(BUILD, f"build-{binname}{''.join('-' + f for f in features)}.log")
        if os.path.exists(log):
            os.unlink(log)
        cmd = [
            "cargo", "rustc", "--release", "--offline", "--bin", binname, "--target-dir", tgt, "--",
            "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", f"link-arg={rt}", "-C", "link-arg=-lm",
        ]
        rc = sh(cmd, d, log)
        if rc:
            raise BuildError(f"the harness does not compile against the current tree: see {log}\n" + open(log, errors="replace").read()[-3000:])
        lls = sorted(glob.glob(os.path.join(tgt, "release", "deps", f"{binname}-*.ll")), key=os.path.getmtime)
        if not lls:
            raise BuildError("no LLVM IR was produced")
        return exe, lls[-1], os.path.join(tgt, "release", binname)


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1], tuple(sys.argv[2:])), round(time.time() - t, 1))
