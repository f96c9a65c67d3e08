"""Replays concrete values on the natively compiled program."""
import math
import os
import shutil
import subprocess
import tempfile


def write_input(path, values, choices):
    with open(path, "w") as f:
        for k, v in values.items():
            if isinstance(v, float):
                f.write(f"{k} f {v!r}\n")
            else:
                f.write(f"{k} i {v}\n")
        for k, v in choices:
            f.write(f"{k} i {v}\n")


def run(exe, entry, values, choices, trace=False, timeout=60):
    """returns (status, lines)"""
    d = tempfile.mkdtemp(prefix="vfreplay")
    try:
        write_input(os.path.join(d, "in"), values, choices)
        e = dict(os.environ, VF_INPUT=os.path.join(d, "in"), RUST_BACKTRACE="0")
        if trace:
            e["VF_TRACE"] = "1"
        try:
            p = subprocess.run([exe, entry], cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "timeout", [], ""
        st = "ok" if p.returncode == 0 else "assume" if p.returncode == 77 else "crash" if p.returncode < 0 or p.returncode == 134 else f"exit{p.returncode}"
        return st, p.stdout.splitlines(), p.stderr[-2000:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(exe, entry, kind, label, values, choices, ob_var=None):
    """does the obligation fail on the real program? returns (bool, description)"""
    if kind == "D":
        h = 1e-5
        out = {}
        for sg in (0, 1, -1):
            v = dict(values)
            v[ob_var] = sg * h
            st, lines, err = run(exe, entry, v, choices)
            if st == "crash":
                return True, f"the program crashes: {err.strip()[:300]}"
            if st != "ok":
                return False, st
            for l in lines:
                w = l.split(" ")
                if w[0] == "D" and w[1] == label:
                    out[sg] = (float(w[3]), float(w[4]), float(w[5]))
        if len(out) < 3:
            return False, "derivative obligation not reached natively"
        jac = out[0][0]
        num = (out[1][1] - out[-1][1]) / (2 * h)
        bad = not (abs(jac - num) <= 1e-4 * (1 + abs(jac) + abs(num)) + out[0][2])
        return bad, f"reported derivative {jac!r}, central difference {num!r}"
    st, lines, err = run(exe, entry, values, choices)
    if kind == "P":
        return st == "crash", f"{st}: {err.strip()[:300]}"
    if st == "crash":
        return True, f"the program crashes: {err.strip()[:300]}"
    if st != "ok":
        return False, st
    for l in lines:
        w = l.split(" ")
        if w[0] == "FAIL" and w[1] == label:
            return True, l
    return False, "obligation holds natively: " + (lines[-1] if lines else "")
