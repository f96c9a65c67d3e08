"""Validates planted bugs in a scratch copy: python3 tools/seedtest.py ID...  (tests pass, demo flips, the check catches it)"""
import json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscr"
REPO = SCR + "/repo"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.85.1-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=SCR + "/target", RUSTFLAGS="", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1")


def sh(c, cwd=None, env=None, timeout=1200):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def fresh():
    os.makedirs(SCR, exist_ok=True)
    if not os.path.isdir(REPO):
        sh(f"git clone -q /repo {REPO}")
    sh("git fetch -q && git reset -q --hard origin/HEAD && git clean -qfd", cwd=REPO)
    sh(f"git -C {REPO} reset -q --hard $(git -C /repo rev-parse HEAD)")
    pkg = SCR + "/pkg"
    s = open("/opt/vp/lib/mkpkg.py").read().replace('REPO, PKG = "/repo", "/opt/vp/pkg"', f'REPO, PKG = "{REPO}", "{pkg}"')
    open(SCR + "/mkpkg.py", "w").write(s)
    print(sh(f"python3 {SCR}/mkpkg.py")[1], end="")


def tests():
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    rc, o = sh("cargo test --no-fail-fast --offline -- --test-threads 8", cwd=SCR + "/pkg", env=ENV)
    open(SCR + "/test.log", "w").write(o)
    ok = len(re.findall(r"(?m)^test .* \.\.\. ok$", o))
    bad = re.findall(r"(?m)^test (.*) \.\.\. FAILED$", o)
    return ok, bad, o


def main():
    check = "--nocheck" not in sys.argv
    notest = "--notest" in sys.argv
    for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
        d = f"{ROOT}/seeded/{i}"
        m = json.load(open(d + "/meta.json"))
        fresh()
        line = [i]
        if not notest:
            rc, o = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
            line.append(f"demo-base={rc}")
            if rc:
                print(o[-1500:])
        rc, o = sh(f"git apply {d}/patch.diff", cwd=REPO)
        if rc:
            print(i, "patch does not apply", o)
            continue
        if not notest:
            ok, bad, o = tests()
            line.append(f"tests ok={ok} failed={bad}")
            if ok < 104:
                print(o[-1500:] if not bad else "")
            t = time.time()
            rc, o = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
            line.append(f"demo-bug={rc} ({time.time()-t:.0f}s)")
        if check:
            t = time.time()
            rc, o = sh(f"./check {m['property']} quick", cwd=ROOT, env=dict(os.environ, VF_REPO=REPO))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            line.append(f"check={rc} {'caught' if rc == 1 and v else 'MISSED'} ({time.time()-t:.0f}s)")
            if rc != 1:
                print(o[-1500:])
        print(" ".join(line), flush=True)


main()
