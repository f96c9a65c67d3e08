"""Witnesses: the solver is asked for inputs that follow a path no sample follows (or violate an obligation on it).

Some inputs are pinned to the values of a nearby sample, the rest is left to the solver, in nonlinear real arithmetic.
A model becomes one more sample; it is checked in exact arithmetic before it is used, and the path's verdict never
depends on a witness being found."""
import re
import time
from fractions import Fraction

import numpy as np

from . import smt

ARITH = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
REL = {"rlt": "<", "rle": "<=", "req": "="}


class No(Exception):
    pass


def sexp(s):
    out, st = [], []
    for t in re.findall(r"\(|\)|[^\s()]+", s):
        if t == "(":
            st.append([])
        elif t == ")":
            x = st.pop()
            (st[-1] if st else out).append(x)
        else:
            (st[-1] if st else out).append(t)
    return out


def value(x):
    if isinstance(x, str):
        return Fraction(x.rstrip("?"))
    if x[0] == "-":
        return -value(x[1])
    if x[0] == "/":
        return value(x[1]) / value(x[2])
    raise No("value")


def short(f):
    """the nearest double, with few bits when that is exact enough"""
    return Fraction(float(f))


class Witness:
    def __init__(self, T, mpval):
        self.T = T
        self.mpval = mpval

    def text(self, wants, free, margin):
        """wants: list of (bool node, polarity, strict margin applies)"""
        T = self.T
        roots = [n for n, _, _ in wants]
        o = []
        import mpmath

        cone = T.cone(roots)
        fr = {}
        for n in cone:
            op, a = T.op[n], T.args[n]
            if op == "var":
                if n not in free:
                    raise No("variable")
                fr[n] = True
                o.append(f"(declare-const n{n} Real)")
                # moderate magnitudes: overflow and underflow are outside the claim
                o.append(f"(assert (and (<= n{n} 1000000.0) (>= n{n} (- 1000000.0))))")
                continue
            if T.sort[n] != "R":
                fr[n] = any(fr.get(k, False) for k in T.kids(n))
                continue
            f = any(fr.get(k, False) for k in T.kids(n))
            fr[n] = f
            if op == "const":
                if not isinstance(a[0], Fraction):
                    raise No("nan")
                o.append(f"(define-fun n{n} () Real {smt.rat(a[0])})")
            elif op in ARITH:
                if op == "div" and f:
                    o.append(f"(assert (not (= n{a[1]} 0.0)))")
                o.append(f"(define-fun n{n} () Real ({ARITH[op]} n{a[0]} n{a[1]}))")
            elif op == "neg":
                o.append(f"(define-fun n{n} () Real (- n{a[0]}))")
            elif op == "rite":
                o.append(f"(define-fun n{n} () Real (ite {self.form(a[0], True, 0)} n{a[1]} n{a[2]}))")
            elif not f:
                v = self.mpval([n])
                if v is None or not mpmath.isfinite(v[n]):
                    raise No("value")
                o.append(f"(define-fun n{n} () Real {smt.rat(Fraction(int(mpmath.nint(v[n] * mpmath.mpf(10) ** 40)), 10**40))})")
            elif op == "sqrt":
                o.append(f"(declare-const n{n} Real)")
                o.append(f"(assert (and (>= n{n} 0.0) (= (* n{n} n{n}) n{a[0]})))")
            else:
                raise No(op)
        for n, pol, m in wants:
            o.append(f"(assert {self.form(n, pol, margin if m else 0)})")
        return "\n".join(o)

    def form(self, n, pol, m):
        T = self.T
        op, a = T.op[n], T.args[n]
        if op == "bconst":
            return "true" if a[0] == pol else "false"
        if op == "not":
            return self.form(a[0], not pol, m)
        if op in ("and", "or"):
            k = op if pol else {"and": "or", "or": "and"}[op]
            return f"({k} {self.form(a[0], pol, m)} {self.form(a[1], pol, m)})"
        if op == "xor":
            x, y, nx, ny = (self.form(a[0], True, m), self.form(a[1], True, m), self.form(a[0], False, m), self.form(a[1], False, m))
            return f"(or (and {x} {ny}) (and {nx} {y}))" if pol else f"(or (and {x} {y}) (and {nx} {ny}))"
        if op in REL:
            x, y = f"n{a[0]}", f"n{a[1]}"
            if op == "req":
                return f"(= {x} {y})" if pol else (f"(or (< (+ {x} {m}) {y}) (> {x} (+ {y} {m})))" if m else f"(not (= {x} {y}))")
            if pol:
                return f"(<= (+ {x} {m}) {y})" if m else f"({REL[op]} {x} {y})"
            return f"(>= {x} (+ {y} {m}))" if m else f"(not ({REL[op]} {x} {y}))"
        raise No("boolean " + op)

    def solve(self, wants, free, timeout, margins=("0.01", "0.00001", 0)):
        for m in margins:
            t = self.text(wants, free, m)
            q = [f"n{v}" for v in free if f"(declare-const n{v} " in t]
            if not q:
                q = []
            ans, out = smt.run("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n" + t + "\n(check-sat)\n" + (f"(get-value ({' '.join(q)}))" if q else ""), timeout)
            if ans == "sat":
                r = {}
                i = out.index("sat")
                for pair in (sexp(out[i + 3:]) or [[]])[0]:
                    r[int(pair[0][1:])] = value(pair[1])
                return r
            if ans == "unknown":
                return None
        return None


def search(ex, p, facts, goal, budget):
    """a sample index on which all facts hold (and the goal (node, polarity), or pair of alternatives), or None"""
    T, pool = ex.T, ex.pool
    t0 = time.time()
    wants = [(f, True, True) for f in facts] + ([(goal, True, True)] if goal is not None else [])
    roots = [n for n, _, _ in wants]
    vs = [v for v in T.vars_of(roots) if T.op[v] == "var" and not T.args[v][0].startswith("tau")]
    if not vs or any(T.op[v] != "var" for v in T.vars_of(roots)):
        return None
    masks = [pool.ev(n).astype(bool) for n in roots]
    bad = np.sum([~m for m in masks], axis=0)
    mag = np.zeros(ex.psize)
    for v in vs:
        mag = np.maximum(mag, np.abs(np.log10(np.abs(pool.env[v]) + 1e-9)))
    order = np.lexsort((mag, bad))
    sph = {}
    for label, k in ex.spheres.items():
        g = [T.var(f"{label}_{i}") for i in range(k)]
        for v in g:
            sph[v] = g
    hard = set()
    for n in T.cone(roots):
        if T.op[n] in ("sin", "cos", "tan", "exp", "ln", "atan2", "acos", "asin", "atan", "tanh", "pow", "floor", "ceil"):
            hard |= {v for v in T.vars_of([n]) if T.op[v] == "var"}
    plans = []
    size = len(T.cone(roots))
    if not hard and size < 600:
        plans.append((int(order[0]), set(vs), 4))
    # samples that differ in what they violate
    bases, seen = [], set()
    for j in order[:200]:
        key = tuple(i for i, m in enumerate(masks) if not m[j])
        if key in seen and len(seen) > 1:
            continue
        seen.add(key)
        bases.append((int(j), key))
        if len(bases) >= 5:
            break
    rng = np.random.default_rng(7)
    for j, key in bases:
        cand = []
        for i in key:
            for v in T.vars_of([roots[i]]):
                if T.op[v] == "var" and v in vs and v not in hard and v not in cand:
                    cand.append(v)
        for v in cand[:5]:
            plans.append((j, {v}, 1.5))
        if len(cand) > 1:
            plans.append((j, set(cand[:12]), 2.5))
            for _ in range(3):
                plans.append((j, set(int(x) for x in rng.choice(cand, 2, replace=False)), 1.5))
    plans.sort(key=lambda x: x[2] != 4)
    for j, keep, secs in plans:
        if time.time() - t0 > budget:
            return None
        # spheres are kept as rational points: stereographic parameters stand for the coordinates
        m, back, free = {}, {}, set()
        whole = set()
        for v in keep:
            if v in sph:
                whole.add(tuple(sph[v]))
            else:
                free.add(v)
        for g in whole:
            ts = [T.var(f"st!{T.args[g[0]][0]}!{i}") for i in range(len(g) - 1)]
            free |= set(ts)
            s2 = T.zero
            for t in ts:
                s2 = T.add(s2, T.mul(t, t))
            den = T.add(T.const(Fraction(1)), s2)
            co = [T.div(T.mul(T.const(Fraction(2)), t), den) for t in ts] + [T.div(T.sub(T.const(Fraction(1)), s2), den)]
            r = j % len(g)
            co = co[r:] + co[:r]
            for v, c in zip(g, co):
                m[v] = c
                back[v] = c
        inside = {v for g in whole for v in g}
        pin = [v for v in vs if v not in free and v not in inside]
        pt = pool.point(j, pin)
        pv = {}
        for v in pin:
            q = pt[v]
            if v not in pool.exact and abs(q) < 1000:
                r = Fraction(round(q * 64), 64)
                q = r if abs(r - q) < Fraction(1, 50) and r != 0 and abs(q) > Fraction(1, 10) else q
            pv[v] = q
            m[v] = T.const(q)
        for v in T.vars_of(roots):
            if T.op[v] == "var" and T.args[v][0].startswith("tau"):
                m[v] = T.zero
        sub = T.subst(roots, m)
        if any(T.bval(n) is False for n in sub):
            continue
        left = [(n, pol, mg) for n, (_, pol, mg) in zip(sub, wants) if T.bval(n) is not True]
        W = Witness(T, lambda r: ex.mp_env(j, r))
        try:
            mod = W.solve(left, free, secs) if left else {}
        except (No, ValueError, IndexError):
            continue
        if mod is None:
            continue
        val = dict(pv)
        tv = {v: T.const(mod.get(v, Fraction(1, 3))) for v in free}
        for v in free:
            if T.args[v][0].startswith("st!"):
                continue
            val[v] = mod.get(v, pt.get(v, Fraction(1)))
        for v, c in back.items():
            x = T.subst([c], tv)[0]
            val[v] = T.cv(x)
            if val[v] is None:
                break
        if any(x is None or 0 < abs(x) < Fraction(1, 10**9) for x in val.values()):
            continue
        k = ex.inject(j, val)
        if all(bool(pool.ev(n)[k]) for n in roots) and ex.exact_holds(roots, k):
            ex.log(f"    witness: sample {k} from {j}, {len(free)} inputs by the solver, {time.time() - t0:.1f} s")
            return k
    return None


def poly_only(T, n, ok):
    for k in T.cone([n]):
        if T.sort[k] == "R" and T.op[k] not in ("var", "const", "add", "sub", "mul", "neg"):
            return False
        if T.sort[k] not in ("R", "B"):
            return False
        if T.op[k] == "var" and k not in ok:
            return False
    return True


def grid(ex, p, facts, want, budget):
    """more samples for a path that runs along an equality: small whole numbers, some chosen at random, the others by the solver"""
    T, pool = ex.T, ex.pool
    t0 = time.time()
    sph = {T.var(f"{label}_{i}") for label, k in ex.spheres.items() for i in range(k)}
    fs = []
    for f in facts:
        vs = {v for v in T.vars_of([f])}
        if vs & sph or any(T.op[v] != "var" for v in vs):
            continue
        if poly_only(T, f, vs):
            fs.append(f)
    eqs = [f for f in fs if T.op[f] == "req"]
    vs = sorted({v for f in eqs for v in T.vars_of([f])})
    if len(vs) < 2:
        return 0
    fs = [f for f in fs if set(T.vars_of([f])) & set(vs)]
    allv = sorted({v for f in fs for v in T.vars_of([f])})
    rng = np.random.default_rng(11)
    found = 0
    W = Witness(T, lambda r: None)
    for trial in range(4 * want):
        if time.time() - t0 > budget or found >= want:
            break
        free = set(int(x) for x in rng.choice(vs, min(len(vs), 3 + trial % 2), replace=False))
        m = {v: T.const(Fraction(int(rng.integers(1, 6)) * (1 if rng.random() < 0.8 else -1))) for v in allv if v not in free}
        sub = [n for n in T.subst(fs, m) if T.bval(n) is not True]
        if any(T.bval(n) is False for n in sub):
            continue
        try:
            t = W.text([(n, True, False) for n in sub], free, 0)
        except No:
            continue
        used = [v for v in free if f"(declare-const n{v} Real)" in t]
        for v in used:
            t = t.replace(f"(declare-const n{v} Real)", f"(declare-const i{v} Int)\n(assert (and (<= i{v} 12) (>= i{v} (- 12))))\n(define-fun n{v} () Real (to_real i{v}))")
        if not used:
            continue
        # not the trivial solutions where all are equal
        seed = int(rng.integers(1, 1000))
        ans, out = smt.run(f"(set-option :smt.random_seed {seed})\n" + t + f"\n(check-sat)\n(get-value ({' '.join('i%d' % v for v in used)}))", 2)
        if ans != "sat":
            continue
        try:
            mod = {int(a[0][1:]): value(a[1]) for a in sexp(out[out.index("sat") + 3:])[0]}
        except (No, ValueError, IndexError):
            continue
        val = {v: T.cv(c) for v, c in m.items()}
        val.update({v: mod.get(v, Fraction(1)) for v in free})
        base = int(rng.integers(0, ex.psize - 64))
        k = ex.inject(base, val)
        if all(bool(pool.ev(n)[k]) for n in facts):
            found += 1
    return found


def climb(ex, p, facts, o, secs=6):
    """inputs on the path that violate an equality most, by local search from the samples (proposals only: each is
    checked in exact arithmetic, by the solver with the inputs fixed, and on the real program)"""
    T, pool = ex.T, ex.pool
    t0 = time.time()
    roots = list(facts) + [o[2], o[3]] + ([o[4]] if o[0] == "L" else [])
    vs = [v for v in T.vars_of(roots) if T.op[v] == "var" and not T.args[v][0].startswith("tau")]
    if any(T.op[v] != "var" for v in T.vars_of(roots)):
        return None
    idx = np.flatnonzero(ex.mask)
    if not len(idx):
        return None
    rng = np.random.default_rng(5)
    n = 512
    pick = idx[rng.integers(0, len(idx), n)]
    sph = []
    for label, k in ex.spheres.items():
        g = [T.var(f"{label}_{i}") for i in range(k)]
        if any(v in vs for v in g):
            sph.append(g)
    insph = {v for g in sph for v in g}
    plain = [v for v in vs if v not in insph]
    groups = {}
    for v in plain:
        groups.setdefault(pool.group(T.args[v][0]), []).append(v)
    # genome: plain values, stereographic parameters of spheres (pole: the largest coordinate of the start)
    G = {v: pool.env[v][pick].copy() for v in plain}
    S = []
    for g in sph:
        q = np.array([pool.env[v][pick] for v in g])
        pole = np.argmax(np.abs(q), axis=0)
        sg = np.sign(q[pole, np.arange(n)])
        ts = np.zeros((len(g), n))
        den = 1 + np.abs(q[pole, np.arange(n)])
        for i in range(len(g)):
            ts[i] = np.where(pole == i, 0.0, q[i] / den)
        S.append([g, pole, sg, ts])

    def env(G, Ts):
        e = {v: np.zeros(n) for v in pool.env}
        e.update(G)
        for (g, pole, sg, _), ts in zip(S, Ts):
            s2 = (ts * ts).sum(axis=0)
            for i, v in enumerate(g):
                e[v] = np.where(pole == i, sg * (1 - s2) / (1 + s2), 2 * ts[i] / (1 + s2))
        return e

    def score(G, Ts):
        e = env(G, Ts)
        vals = T.evaluate(roots, e, {}, n)
        ok = np.ones(n, bool)
        for m in vals[: len(facts)]:
            ok &= m.astype(bool)
        a, b = vals[len(facts)], vals[len(facts) + 1]
        with np.errstate(all="ignore"):
            tol = vals[len(facts) + 2] if o[0] == "L" else 1e-6 * (1 + np.abs(a) + np.abs(b))
            r = np.abs(a - b) / tol
            big = np.zeros(n)
            for v in plain:
                big = np.maximum(big, np.abs(e[v]))
            r = np.where(ok & np.isfinite(r) & (big < 1e4), r, -1.0)
        return r

    Ts = [s[3] for s in S]
    best = score(G, Ts)
    gen = 0
    while time.time() - t0 < secs and gen < 60 and best.max() < 30:
        gen += 1
        step = 10.0 ** (-3 * rng.random(n))
        G2 = {}
        for g, vv in groups.items():
            mul = np.where(rng.random(n) < 0.5, np.exp(rng.normal(size=n) * 1.5), 1.0)
            for v in vv:
                G2[v] = G[v] * mul + np.where(rng.random(n) < 0.4, rng.normal(size=n) * step * (np.abs(G[v]) + 0.1), 0.0)
        T2 = []
        for (g, pole, sg, _), ts in zip(S, Ts):
            mul = np.where(rng.random(n) < 0.5, np.exp(rng.normal(size=n) * 1.5), 1.0)
            x = ts * mul + np.where(rng.random(ts.shape) < 0.4, rng.normal(size=ts.shape) * step * 0.3, 0.0)
            for i in range(len(g)):
                x[i] = np.where(pole == i, 0.0, x[i])
            T2.append(x)
        sc = score(G2, T2)
        up = sc > best
        for v in G:
            G[v] = np.where(up, G2[v], G[v])
        Ts = [np.where(up, y, x) for x, y in zip(Ts, T2)]
        best = np.where(up, sc, best)
    ex.log(f"    climb {o[1]}: violation {best.max():.3g} of the tolerance after {gen} rounds, {time.time() - t0:.1f} s")
    if best.max() <= 1:
        return None
    out = []
    for j in np.argsort(-best)[:6]:
        if best[j] <= 1:
            break
        val = {v: Fraction(float(G[v][j])) for v in plain}
        for (g, pole, sg, _), ts in zip(S, Ts):
            q = [Fraction(round(float(x) * 2**30), 2**30) for x in ts[:, j]]
            s2 = sum(x * x for x in q)
            for i, v in enumerate(g):
                val[v] = int(sg[j]) * (1 - s2) / (1 + s2) if pole[j] == i else 2 * q[i] / (1 + s2)
        out.append(ex.inject(int(pick[j]), val))
    return out
