"""Closeness on small-angle paths: Taylor enclosures of the transcendental atoms, then linear arithmetic over monomials.

The difference of the two values is taken in the prover's normal form.  Atoms whose argument the solver shows to be
small are replaced by  polynomial + remainder variable  (an enclosure), the result is normalised again (certified
identities), every monomial gets the product of its atoms' bounds, and z3 decides the resulting linear problem.
"""
from fractions import Fraction

import numpy as np

from . import smt
from .poly import GiveUp
from .prove import Prover

LADDER = [Fraction(1, 2000), Fraction(11, 10000), Fraction(1, 450), Fraction(1, 300), Fraction(1, 100), Fraction(1, 25), Fraction(1), Fraction(4)]
SMALL = Fraction(1, 20)


def nice_up(x):
    """a short rational a little above x"""
    if x <= 0:
        return Fraction(1, 10**12)
    e = 0
    f = Fraction(x) * Fraction(21, 20)
    import math

    e = math.floor(math.log10(float(f)))
    k = Fraction(10) ** (e - 2)
    return (int(f / k) + 1) * k


class Bounds:
    """|atom| <= B, shown by the solver from the path facts"""

    def __init__(self, pr):
        self.pr = pr
        self.b = {}

    def absbound(self, p):
        """bound of |p| for a polynomial of the plain ring, or None"""
        key = frozenset(p.items())
        if key in self.b:
            return self.b[key]
        pr = self.pr
        arr = np.abs(pr.peval(p))
        arr = arr[np.isfinite(arr) & pr.mask]
        res = None
        tries = []
        if len(arr):
            m = float(arr.max())
            if m < 10:
                tries = [nice_up(m)] + [t for t in LADDER if t > m]
        else:
            tries = LADDER
        s = pr.smt_poly(p)
        for t in tries:
            if t > 20:
                continue
            r = smt.rat(t)
            if pr.refute([f"(or (> {s} {r}) (< {s} (- {r})))"], pr.atoms_of(p), 8) == "unsat":
                res = t
                break
        self.b[key] = res
        return res


class Taylor:
    def __init__(self, pr, bounds=None):
        self.pr = pr
        self.bd = bounds or Bounds(pr)
        self.tp = Prover(pr.T, [], [], pr.env, pr.size, deadline=pr.R.deadline, max_terms=pr.R.max_terms)
        self.sub = {}
        self.lim = {}  # atom of the new ring -> bound or None
        self.used = set()

    def fresh(self, name, lim, kind="rem"):
        i = self.tp.new_atom(name, kind, np.zeros(self.pr.size))
        self.lim[i] = lim
        return i

    def poly(self, p):
        """translates a polynomial of the plain ring"""
        R = self.tp.R
        acc = R.rf_const_int(0)
        pr = self.pr
        for m, c in p.items():
            t = R.rf_const_int(c)
            for i, e in pr.R.exps(m):
                a = self.atom(i)
                for _ in range(e):
                    t = R.mul(t, a)
            acc = R.add(acc, t)
        return acc

    def rf(self, a):
        R = self.tp.R
        r = self.poly(a.num)
        if a.dc != 1:
            r = R.mul(r, R.rf_const(Fraction(1, a.dc)))
        for f, e in a.df.items():
            q = self.poly(self.pr.R.factors[f])
            for _ in range(e):
                r = R.div(r, q)
        return r

    def smallness(self, a):
        """bound of |a| for a rational function without composite denominators"""
        pr = self.pr
        b = self.bd.absbound(a.num)
        if b is None:
            return None
        b = b / abs(a.dc)
        for f, e in a.df.items():
            lo = self.below(pr.R.factors[f])
            if lo is None:
                return None
            b = b / lo**e
        return b

    def below(self, p):
        pr = self.pr
        arr = np.abs(pr.peval(p))
        arr = arr[np.isfinite(arr) & pr.mask]
        m = float(arr.min()) if len(arr) else 1e-3
        if m <= 0:
            return None
        t = 1 / nice_up(1 / (m * 0.9))
        s, r = pr.smt_poly(p), smt.rat(t)
        if pr.refute([f"(and (< {s} {r}) (> {s} (- {r})))"], pr.atoms_of(p), 8) == "unsat":
            return t
        return None

    def atom(self, i):
        if i in self.sub:
            return self.sub[i]
        pr, R = self.pr, self.tp.R
        kind = pr.R.kind[i]
        r = None
        if kind in ("sin", "cos"):
            base = pr.R.info[i]
            b = self.smallness(base)
            if b is not None and b <= SMALL:
                u = self.rf(base)
                u2 = R.mul(u, u)
                for c, s, bs, _ in pr.trig_units.values():
                    if c == i or s == i:
                        rs = R.rf_atom(self.fresh(f"rs{s}", Fraction(1, 120)))
                        rc = R.rf_atom(self.fresh(f"rc{c}", Fraction(1, 720)))
                        one = R.rf_const_int(1)
                        self.sub[s] = R.mul(u, R.add(R.sub(one, R.mul(u2, R.rf_const(Fraction(1, 6)))), R.mul(rs, R.mul(u2, u2))))
                        self.sub[c] = R.add(
                            R.add(R.sub(one, R.mul(u2, R.rf_const(Fraction(1, 2)))), R.mul(R.mul(u2, u2), R.rf_const(Fraction(1, 24)))),
                            R.mul(rc, R.mul(u2, R.mul(u2, u2))),
                        )
                        self.used.add("Taylor enclosure of sin/cos")
                        return self.sub[i]
        elif kind == "atan2":
            for at, y, x, c, s, _ in pr.atans:
                if at != i:
                    continue
                sg = pr.sign_rf(x, strict=True)
                b = self.smallness(s) if sg == 1 else None
                if b is not None and b <= SMALL:
                    q = self.rf(s)
                    q2 = R.mul(q, q)
                    k = R.rf_atom(self.fresh(f"ra{i}", Fraction(8, 100)))
                    r = R.mul(q, R.add(R.add(R.rf_const_int(1), R.mul(q2, R.rf_const(Fraction(1, 6)))), R.mul(k, R.mul(q2, q2))))
                    self.used.add("Taylor enclosure of atan2")
        elif i in pr.R.rules and kind in ("var", "sqrt"):
            # w*w = 1 - (something small)
            rule = pr.R.rules[i]
            if rule.get(0) == 1:
                rest = {m: -c for m, c in rule.items() if m}
                b = self.bd.absbound(rest)
                sg = 1 if kind == "sqrt" else pr.sign({pr.R.mono(i): 1}, strict=True)
                if b is not None and b <= SMALL and sg:
                    v = self.poly(rest)
                    k = R.rf_atom(self.fresh(f"rw{i}", Fraction(1, 7)))
                    # sqrt(1-v) = 1 - v/2 - k v^2 with 1/8 <= k <= 1/7
                    r = R.sub(R.sub(R.rf_const_int(1), R.mul(v, R.rf_const(Fraction(1, 2)))), R.mul(k, R.mul(v, v)))
                    if sg < 0:
                        r = R.neg(r)
                    self.used.add("Taylor enclosure of sqrt")
        if r is None:
            q = self.poly(pr.R.rules[i]) if i in pr.R.rules else None
            j = self.fresh(pr.R.names[i], self.bd.absbound({pr.R.mono(i): 1}), kind)
            self.tp.aval[j] = pr.aval[i]
            if q is not None:
                if not q.df and q.dc == 1 and all(k < j for k in self.tp.atoms_of(q.num)):
                    self.tp.R.add_rule(j, q.num)
            r = R.rf_atom(j)
        self.sub[i] = r
        return r

    def close(self, d, tol):
        """|d| <= tol for normal forms of the plain prover"""
        tp, R = self.tp, self.tp.R
        dd = self.rf(d)
        if not dd.num:
            return True
        tt = self.rf(tol)
        if tt.df:
            return False
        decl, asr = [], []
        mono = {}
        low = Fraction(1)
        for f, e in dd.df.items():
            p = R.factors[f]
            c0 = abs(p.get(0, 0))
            for m, c in p.items():
                if m:
                    b = self.mbound(m)
                    if b is None:
                        return False
                    c0 -= abs(c) * b
            if c0 <= 0:
                return False
            low *= Fraction(c0) ** e
        ts = {}

        def lin(p):
            out = []
            for m, c in p.items():
                out.append(f"(* {c}.0 {var(m)})" if c >= 0 else f"(* (- {-c}.0) {var(m)})")
            return "(+ 0.0 " + " ".join(out) + ")"

        def sq(i):
            if i not in ts:
                ts[i] = f"q{i}"
                decl.append(f"(declare-const q{i} Real)")
                asr.append(f"(>= q{i} 0.0)")
            return ts[i]

        def var(m):
            if m == 0:
                return "1.0"
            if m in mono:
                return mono[m]
            b = Fraction(1)
            un = []
            for i, e in R.exps(m):
                l = self.lim[i]
                if l is None:
                    un += [i] * e
                else:
                    b *= l**e
            if len(un) > 2:
                raise GiveUp("degree in unbounded inputs")
            if len(un) == 2 and un[0] == un[1] and b == 1 and all(self.lim[i] is None for i, _ in R.exps(m)):
                mono[m] = sq(un[0])
                return mono[m]
            n = f"m{len(mono)}"
            mono[m] = n
            decl.append(f"(declare-const {n} Real)")
            r = smt.rat(b)
            if len(un) == 0:
                up = r
            elif len(un) == 1:
                up = f"(* {r} (/ (+ 1.0 {sq(un[0])}) 2.0))"
            else:
                up = f"(* {r} (/ (+ {sq(un[0])} {sq(un[1])}) 2.0))"
            asr.append(f"(<= {n} {up})")
            asr.append(f"(>= {n} (- {up}))")
            return n

        P, Q = lin(dd.num), lin(tt.num)
        k = smt.rat(low * dd.dc / tt.dc)
        asr.append(f"(or (> {P} (* {k} {Q})) (< {P} (- (* {k} {Q}))))")
        asr.append(f"(>= {Q} 0.0)")
        text = "\n".join(decl + [f"(assert {a})" for a in asr] + ["(check-sat)"])
        ans, _ = smt.run(text, 20)
        if ans == "unsat":
            self.pr.axioms_used |= self.used | {"monomial bounds"}
            ok = tp.certify()
            self.pr.certified += tp.certified
            tp.R.claims.clear()
            return ok
        return False

    def mbound(self, m):
        b = Fraction(1)
        for i, e in self.tp.R.exps(m):
            if self.lim[i] is None:
                return None
            b *= self.lim[i] ** e
        return b
