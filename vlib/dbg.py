import sys, time
from . import build, smt
from .explore import *
b, *es = sys.argv[1:]
feats = ()
if ":" in b:
    b, f = b.split(":"); feats = tuple(f.split(","))
exe, ll, nat = build.build(b, feats)
sx = None
if not es:
    es = subprocess.run([nat, "--list"], capture_output=True, text=True).stdout.split()
for e in es:
    t = time.time()
    sx = Symex(exe, ll)
    import os
    ex = Explorer(sx, e, log=print if os.environ.get('V') else None)
    ex.native = nat
    try:
        r = ex.explore()
        print(e, {k: v for k, v in r.items() if v and k not in ("vars", "obl_labels", "entry", "axioms", "certified", "pruned", "definedness", "marks", "complete", "trivial")}, "" if r["complete"] and r["marks"].get("reached") else "INCOMPLETE/VACUOUS", round(time.time() - t, 2))
    except Violation as v:
        d = v.d
        print("VIOLATION", e, d["kind"], d["label"], d["choices"], {k: v for k, v in list(d["values"].items())[:24]})
        o = d["ob"]
        print(round(time.time() - t, 2))
print(smt.STATS)
