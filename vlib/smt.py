"""Runs SMT queries in solver processes and keeps the statistics."""
import subprocess
import time

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "claims": 0, "max_time": 0.0}
Z3 = "z3-new"
CVC5 = "cvc5"


def run(text, timeout=10, solver="z3", mem=4000):
    """returns (answer, output)"""
    t0 = time.time()
    if solver == "z3":
        cmd = [Z3, "-in", f"-T:{max(1, int(timeout))}", f"-memory:{mem}"]
    else:
        cmd = [CVC5, "--lang=smt2", f"--tlimit={int(timeout * 1000)}", "--produce-models", "-"]
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS["max_time"] = max(STATS["max_time"], dt)
    ans = "unknown"
    if "(error" not in out:
        for l in out.splitlines():
            l = l.strip()
            if l in ("sat", "unsat", "unknown"):
                ans = l
                break
    else:
        STATS.setdefault("errors", []).append(out[:300])
    STATS[ans] += 1
    return ans, out


def snapshot():
    return dict(STATS)


def rat(f):
    n, d = f.numerator, f.denominator
    s = str(abs(n)) + ".0" if d == 1 else f"(/ {abs(n)}.0 {d}.0)"
    return s if n >= 0 else f"(- {s})"
