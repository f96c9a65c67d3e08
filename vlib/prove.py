"""Decides obligations of one path: normal forms certified by z3, inequalities by z3/cvc5."""
import math
import time
from fractions import Fraction

import numpy as np

from . import smt
from .poly import FIELD, GiveUp, RF, Ring, W

PI_LO = Fraction(314159265358979323846, 10**20)
PI_HI = Fraction(314159265358979323847, 10**20)


class Refine(Exception):
    def __init__(self, key, den):
        self.key = key
        self.den = den


def squarefree(n):
    """n = s*s*r with r squarefree-ish (small primes)"""
    s, r, p = 1, n, 2
    while p * p <= r and p < 2000:
        while r % (p * p) == 0:
            r //= p * p
            s *= p
        p += 1 if p == 2 else 2
    q = math.isqrt(r)
    if q * q == r:
        return s * q, 1
    return s, r


class Prover:
    def __init__(self, T, facts, spheres, env, size, cuts=(), units=None, deadline=None, max_terms=6000):
        """facts: bool nodes true on the path; spheres: lists of var nodes; env: var node -> samples on the path"""
        self.T = T
        self.R = Ring(max_terms=max_terms)
        self.R.deadline = deadline
        self.facts = list(facts)
        self.env = env
        self.size = size
        self.mask = np.ones(size, bool)
        self.ncache = {}
        self.memo = {}
        self.units = units if units is not None else {}
        self.aval = []
        self.ax = {}  # atom -> list of smt axiom strings (functions of names)
        self.deps = {}  # atom -> set of atoms its axioms mention
        self.sqrt_atoms = {}
        self.trig_units = {}  # basekey -> (sin atom, cos atom)
        self.angle_bases = []  # (RF, array): composite angles
        self.atans = []  # (atom, y RF, x RF, cos RF, sin RF, array)
        self.fun_atoms = {}  # ('exp'|'ln'..) -> [(RF, atom)]
        self.var_atom = {}
        self.pi_atom = None
        self.abs_atoms = {}
        self.sign_cache = {}
        self.factrf = None
        self.busy = 0
        self.axioms_used = set()
        self.certified = 0
        for g in spheres:
            idx = [self.vatom(v) for v in g]
            rhs = {0: 1}
            for i in idx[:-1]:
                rhs[self.R.mono(i, 2)] = -1
            self.R.add_rule(idx[-1], rhs)
            self.ax[idx[-1]] = [self.rule_ax(idx[-1])]
            self.deps[idx[-1]] = set(idx)
            self.axioms_used.add("unit-norm inputs")
        self.cutmap = {}
        for c in cuts:
            try:
                a = self.rf(c)
            except GiveUp:
                continue
            if len(a.num) <= 1 and not a.df:
                continue
            k = a.key()
            if k in self.cutmap:
                continue
            at = self.new_atom(f"cut{c}", "cut", self.num(c))
            self.cutmap[k] = self.R.rf_atom(at)
            self.memo[c] = self.cutmap[k]
        # everything computed for the cuts is recomputed on top of them
        if self.cutmap:
            keep = {c: self.memo[c] for c in cuts if c in self.memo}
            self.memo = keep
            self.axioms_used.add("generalised intermediate values (cuts)")

    # ---------------- atoms
    def new_atom(self, name, kind, arr, info=None):
        if len(self.R.names) > 400:
            raise GiveUp("too many atoms")
        i = self.R.atom(name, kind, info)
        self.aval.append(arr)
        return i

    def vatom(self, v):
        if v not in self.var_atom:
            self.var_atom[v] = self.new_atom(self.T.args[v][0], "var", self.env.get(v, np.zeros(self.size)))
        return self.var_atom[v]

    def pi(self):
        if self.pi_atom is None:
            self.pi_atom = self.new_atom("pi", "pi", np.full(self.size, math.pi))
            n = self.nm(self.pi_atom)
            self.ax[self.pi_atom] = [f"(< {smt.rat(PI_LO)} {n})", f"(< {n} {smt.rat(PI_HI)})"]
        return self.pi_atom

    def nm(self, i):
        return f"a{i}"

    def num(self, n):
        return self.T.evaluate([n], self.env, self.ncache, self.size)[0]

    def peval(self, p):
        r = np.zeros(self.size)
        with np.errstate(all="ignore"):
            for m, c in p.items():
                t = np.full(self.size, float(c))
                for i, e in self.R.exps(m):
                    t = t * self.aval[i] ** e
                r = r + t
        return r

    def rfeval(self, a):
        with np.errstate(all="ignore"):
            r = self.peval(a.num) / a.dc
            for f, e in a.df.items():
                r = r / self.peval(self.R.factors[f]) ** e
        return r

    # ---------------- printing
    def smt_poly(self, p):
        if not p:
            return "0.0"
        out = []
        for m, c in p.items():
            fs = []
            if c != 1 or not m:
                fs.append(f"{c}.0" if c >= 0 else f"(- {-c}.0)")
            for i, e in self.R.exps(m):
                fs += [self.nm(i)] * e
            out.append(fs[0] if len(fs) == 1 else "(* " + " ".join(fs) + ")")
        return out[0] if len(out) == 1 else "(+ " + " ".join(out) + ")"

    def rule_ax(self, i):
        return f"(= (* {self.nm(i)} {self.nm(i)}) {self.smt_poly(self.R.rules[i])})"

    def atoms_of(self, p):
        r = set()
        for m in p:
            for i, _ in self.R.exps(m):
                r.add(i)
        return r

    # ---------------- normal forms
    def rf(self, n):
        got = self.memo.get(n)
        if got is not None:
            return got
        T = self.T
        st = [n]
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            ks = T.kids(x) if T.sort[x] == "R" and T.op[x] not in ("rfrombv", "rite") else ()
            todo = [k for k in ks if k not in self.memo]
            if todo:
                st.extend(todo)
                continue
            r = self.rf1(x, T.op[x], T.args[x])
            if self.cutmap:
                c = self.cutmap.get(r.key())
                if c is not None:
                    r = c
            self.memo[x] = r
            if self.R.deadline and time.time() > self.R.deadline:
                raise GiveUp("time")
            st.pop()
        return self.memo[n]

    def rf1(self, x, op, a):
        R, M = self.R, self.memo
        if op == "const":
            v = a[0]
            if isinstance(v, str):
                raise GiveUp("non-finite constant " + v)
            return R.rf_const(v)
        if op == "var":
            return R.rf_atom(self.vatom(x))
        if op == "pi":
            return R.rf_atom(self.pi())
        if op == "add":
            return R.add(M[a[0]], M[a[1]])
        if op == "sub":
            return R.sub(M[a[0]], M[a[1]])
        if op == "mul":
            return R.mul(M[a[0]], M[a[1]])
        if op == "neg":
            return R.neg(M[a[0]])
        if op == "div":
            return R.div(M[a[0]], M[a[1]])
        if op == "sqrt":
            return self.sqrt(M[a[0]])
        if op == "sin":
            return self.cossin(M[a[0]])[1]
        if op == "cos":
            return self.cossin(M[a[0]])[0]
        if op == "tan":
            c, s = self.cossin(M[a[0]])
            return R.div(s, c)
        if op == "atan2":
            return self.atan2(M[a[0]], M[a[1]], x)
        if op == "atan":
            return self.atan2(M[a[0]], R.rf_const_int(1), x)
        if op == "acos":
            y = self.sqrt(R.sub(R.rf_const_int(1), R.mul(M[a[0]], M[a[0]])))
            return self.atan2(y, M[a[0]], x)
        if op == "asin":
            y = self.sqrt(R.sub(R.rf_const_int(1), R.mul(M[a[0]], M[a[0]])))
            return self.atan2(M[a[0]], y, x)
        if op == "rfrombv":
            return self.opaque(("bv", x), x, "bvint")
        if op == "rite":
            v = self.known(a[0])
            if v is None:
                raise GiveUp("conditional value")
            return self.rf(a[1] if v else a[2])
        # other functions are opaque: equal arguments give equal values
        args = [M[k] for k in a]
        lst = self.fun_atoms.setdefault(op, [])
        for args2, r in lst:
            if all(R.is_zero(R.sub(p, q)) for p, q in zip(args, args2)):
                return r
        at = self.new_atom(f"{op}_{len(lst)}", op, self.num(x), args)
        r = R.rf_atom(at)
        lst.append((args, r))
        self.fun_axioms(op, at, args)
        return r

    def known(self, c):
        if c in self.facts:
            return True
        if self.T.not_(c) in self.facts:
            return False
        return None

    def opaque(self, key, x, kind):
        k = self.fun_atoms.setdefault(key, [])
        if not k:
            k.append(self.R.rf_atom(self.new_atom(f"{kind}{x}", kind, self.num(x))))
        return k[0]

    def fun_axioms(self, op, at, args):
        n = self.nm(at)
        (t, d, atoms) = self.rf_fraction(args[0])
        self.deps[at] = set(atoms)
        x = f"(/ {t} {d})" if d != "1.0" else t
        # t/d is the argument; d is known to be non-zero
        self.axioms_used.add(f"elementary bounds of {op}")
        if op == "exp":
            self.ax[at] = [
                f"(> {n} 0.0)",
                f"(>= {n} (+ 1.0 {x}))",
                f"(=> (< {x} 0.0) (< {n} 1.0))",
                f"(=> (= {x} 0.0) (= {n} 1.0))",
                f"(=> (< {x} 1.0) (<= (* {n} (- 1.0 {x})) 1.0))",
            ]
        elif op == "ln":
            self.ax[at] = [
                f"(=> (> {x} 0.0) (<= {n} (- {x} 1.0)))",
                f"(=> (> {x} 0.0) (>= (* {n} {x}) (- {x} 1.0)))",
                f"(=> (> {x} 1.0) (> {n} 0.0))",
                f"(=> (= {x} 1.0) (= {n} 0.0))",
            ]
        # monotone against the other atoms of the same kind
        if op in ("exp", "ln"):
            for args2, r2 in self.fun_atoms[op]:
                (m2,) = r2.num
                at2 = (m2.bit_length() - 1) // W
                if at2 == at:
                    continue
                (t2, d2, atoms2) = self.rf_fraction(args2[0])
                x2 = f"(/ {t2} {d2})" if d2 != "1.0" else t2
                if d == d2:
                    self.ax[at].append(f"(=> (> {d} 0.0) (= (< {t} {t2}) (< {n} {self.nm(at2)})))")
                    self.ax[at].append(f"(=> (> {d} 0.0) (= (= {t} {t2}) (= {n} {self.nm(at2)})))")
                else:
                    self.ax[at].append(f"(= (< {x} {x2}) (< {n} {self.nm(at2)}))")
                self.deps[at] |= set(atoms2) | {at2}

    def rf_fraction(self, a):
        """smt numerator, denominator and atoms"""
        at = self.atoms_of(a.num)
        ds = []
        if a.dc != 1:
            ds.append(f"{a.dc}.0")
        for f, e in a.df.items():
            at |= self.atoms_of(self.R.factors[f])
            ds += [self.smt_poly(self.R.factors[f])] * e
        d = "1.0" if not ds else ds[0] if len(ds) == 1 else "(* " + " ".join(ds) + ")"
        return self.smt_poly(a.num), d, at

    # ---------------- square roots
    def polysqrt(self, p):
        """q with q*q == p in the free ring, or None"""
        R = self.R
        lm = max(p)
        ex = list(R.exps(lm))
        if any(e % 2 for _, e in ex) or p[lm] < 0:
            return None
        c = math.isqrt(p[lm])
        if c * c != p[lm]:
            return None
        if len(p) == 1:
            return {lm >> 1: c} if all(e % 2 == 0 for _, e in ex) else None
        if len(p) > 300:
            return None
        h = sum((e // 2) << (W * i) for i, e in ex)
        q = {h: c}
        rem = dict(p)
        del rem[lm]
        g = R.guard
        while rem:
            m = max(rem)
            if ((m | g) - h) & g != g or rem[m] % (2 * c):
                return None
            t, k = m - h, rem[m] // (2 * c)
            if t >= h or t in q or len(q) > 40:
                return None
            # rem -= 2*q*k*t + k*k*t*t
            for mm, cc in list(q.items()):
                z = mm + t
                v = rem.get(z, 0) - 2 * cc * k
                if v:
                    rem[z] = v
                else:
                    rem.pop(z, None)
            z = 2 * t
            v = rem.get(z, 0) - k * k
            if v:
                rem[z] = v
            else:
                rem.pop(z, None)
            q[t] = k
        return q

    def absrf(self, p):
        """|p| for a polynomial p"""
        s = self.sign(p)
        if s is not None:
            return self.R.rf_poly(p) if s >= 0 else self.R.rf_poly({m: -c for m, c in p.items()})
        q = p if p[max(p)] > 0 else {m: -c for m, c in p.items()}
        key = frozenset(q.items())
        if key not in self.abs_atoms:
            sq = self.R.combine([(1, [q, q])])
            at = self.new_atom(f"abs{len(self.abs_atoms)}", "abs", np.abs(self.peval(q)))
            self.R.add_rule(at, sq)
            self.ax[at] = [f"(>= {self.nm(at)} 0.0)", self.rule_ax(at)]
            self.deps[at] = self.atoms_of(q)
            self.abs_atoms[key] = at
        return self.R.rf_atom(self.abs_atoms[key])

    def sqrt(self, a):
        R = self.R
        if not a.num:
            return a
        if a.num[max(a.num)] < 0 and len(a.num) == 1 and 0 in a.num:
            raise GiveUp("square root of a negative constant")
        c, fs = R.split_factors(a.num)
        out = R.rf_const_int(1)
        neg = c < 0
        c = abs(c)
        s, r = squarefree(c * a.dc)
        out = R.mul(out, R.rf_const(Fraction(s, a.dc)))
        inside = {0: -r if neg else r}
        ex = {f: e for f, e in fs.items()}
        for f, e in a.df.items():
            ex[f] = ex.get(f, 0) - e
        for f, e in ex.items():
            if e == 0:
                continue
            p = R.factors[f]
            if e > 0:
                k, odd = divmod(e, 2)
            else:
                k, odd = divmod(e, 2)  # e = 2k+odd, k negative
            if odd:
                q = self.polysqrt(p)
                if q is not None:
                    # p == q*q
                    if len(q) > 1:
                        R.claims.append([(1, [p]), (-1, [q, q])])
                    b = self.absrf(q)
                    out = R.mul(out, b)
                else:
                    inside = R.combine([(1, [inside, p])])
            if k:
                b = self.absrf(p)
                for _ in range(abs(k)):
                    out = R.mul(out, b) if k > 0 else R.div(out, b)
        if inside == {0: 1}:
            return out
        if neg or len(inside) > 1:
            # after reduction it may have become a square
            c2 = R.content(inside)
            s2, r2 = squarefree(c2)
            if s2 > 1:
                inside = {m: v // (s2 * s2) for m, v in inside.items()}
                out = R.mul(out, R.rf_const_int(s2))
            mc = R.mono_content(inside)
            mc2 = sum((e // 2 * 2) << (W * i) for i, e in R.exps(mc))
            if mc2:
                inside = {m - mc2: v for m, v in inside.items()}
                for i, e in R.exps(mc2):
                    b = self.absrf({R.mono(i): 1})
                    for _ in range(e // 2):
                        out = R.mul(out, b)
            q = self.polysqrt(inside)
            if q is not None:
                if len(q) > 1:
                    R.claims.append([(1, [inside]), (-1, [q, q])])
                return R.mul(out, self.absrf(q))
        key = frozenset(inside.items())
        if inside == {0: 1}:
            return out
        at = self.sqrt_atoms.get(key)
        if at is None:
            with np.errstate(all="ignore"):
                at = self.new_atom(f"sqrt{len(self.sqrt_atoms)}", "sqrt", np.sqrt(self.peval(inside)))
            self.sqrt_atoms[key] = at
            R.add_rule(at, inside)
            self.ax[at] = [f"(>= {self.nm(at)} 0.0)", self.rule_ax(at)]
            self.deps[at] = self.atoms_of(inside)
        return R.mul(out, R.rf_atom(at))

    # ---------------- trigonometry
    def cossin(self, a):
        R = self.R
        one, zero = R.rf_const_int(1), R.rf_const_int(0)
        if not a.num:
            return one, zero
        terms = []
        if not a.df:
            for m, c in a.num.items():
                terms.append((("m", m), Fraction(c, a.dc)))
        else:
            terms.append(self.composite(a))
        res = (one, zero)
        for key, q in terms:
            c, s = self.cossin1(key, q)
            if res == (one, zero):
                res = (c, s)
            else:
                res = (
                    R.sub(R.mul(res[0], c), R.mul(res[1], s)),
                    R.add(R.mul(res[0], s), R.mul(res[1], c)),
                )
                self.axioms_used.add("angle addition")
        return res

    def composite(self, a):
        arr = self.rfeval(a)
        mk = self.mask
        for i, (b, barr) in enumerate(self.angle_bases):
            with np.errstate(all="ignore"):
                ok = mk & np.isfinite(arr) & np.isfinite(barr) & (barr != 0)
                q = arr[ok] / barr[ok]
            if len(q) == 0:
                f = Fraction(1)
            else:
                f = Fraction(float(q[0])).limit_denominator(64)
                if f == 0 or not np.allclose(q, float(f), rtol=1e-6, atol=0):
                    continue
            for g in (f, -f):
                if self.R.is_zero(self.R.sub(a, self.R.mul(b, self.R.rf_const(g)))):
                    return (("c", i), g)
        self.angle_bases.append((a, arr))
        return (("c", len(self.angle_bases) - 1), Fraction(1))

    def cossin1(self, key, q):
        R = self.R
        one, zero = R.rf_const_int(1), R.rf_const_int(0)
        kind, m = key
        if kind == "m":
            ex = list(R.exps(m))
            if m == 0:
                pass  # rational angle: generic unit
            elif len(ex) == 1 and ex[0][1] == 1:
                at = ex[0][0]
                if at == self.pi_atom:
                    k = q * 2
                    if k.denominator == 1:
                        self.axioms_used.add("sin/cos at multiples of pi/2")
                        return [(one, zero), (zero, one), (R.neg(one), zero), (zero, R.neg(one))][int(k) % 4]
                if R.kind[at] == "atan2" and q.denominator == 1:
                    for b in self.atans:
                        if b[0] == at:
                            self.axioms_used.add("cos/sin of atan2")
                            return self.cpow(b[3], b[4], int(q))
        ukey = key if kind != "m" else ("m", tuple((R.names[i], e) for i, e in R.exps(m)))
        den = self.units.get(ukey, 2)
        k = q * den
        if k.denominator != 1:
            if den * k.denominator > 64:
                raise GiveUp("angle fractions")
            raise Refine(ukey, den * k.denominator)
        c, s = self.unit(key, den)
        return self.cpow(c, s, int(k))

    def cpow(self, c, s, k):
        R = self.R
        if k < 0:
            s = R.neg(s)
            k = -k
        if k > 64:
            raise GiveUp("angle multiple too large")
        if k > 1:
            self.axioms_used.add("angle addition")
        rc, rs = R.rf_const_int(1), R.rf_const_int(0)
        for _ in range(k):
            rc, rs = R.sub(R.mul(rc, c), R.mul(rs, s)), R.add(R.mul(rc, s), R.mul(rs, c))
        return rc, rs

    def unit(self, key, den):
        R = self.R
        k = (key, den)
        if k not in self.trig_units:
            if key[0] == "m":
                base = RF({key[1]: 1}, den, {})
            else:
                base = R.mul(self.angle_bases[key[1]][0], R.rf_const(Fraction(1, den)))
            arr = self.rfeval(base)
            s = self.new_atom(f"sin{len(self.trig_units)}", "sin", np.sin(arr), base)
            c = self.new_atom(f"cos{len(self.trig_units)}", "cos", np.cos(arr), base)
            R.add_rule(c, {0: 1, R.mono(s, 2): -1})
            self.trig_units[k] = (c, s, base, arr)
            t, d, atoms = self.rf_fraction(base)
            ns, nc = self.nm(s), self.nm(c)
            p = self.nm(self.pi())
            u = f"(/ {t} {d})" if d != "1.0" else t
            ax = [
                self.rule_ax(c),
                f"(=> (and (< 0.0 {u}) (< {u} {p})) (> {ns} 0.0))",
                f"(=> (and (< (- {p}) {u}) (< {u} 0.0)) (< {ns} 0.0))",
                f"(=> (and (< (* 2.0 {u}) {p}) (< (- {p}) (* 2.0 {u}))) (> {nc} 0.0))",
                f"(=> (and (> (* 2.0 {u}) {p}) (< (* 2.0 {u}) (* 3.0 {p}))) (< {nc} 0.0))",
                f"(=> (>= {u} 0.0) (<= {ns} {u}))",
                f"(=> (<= {u} 0.0) (>= {ns} {u}))",
                f"(=> (= {u} 0.0) (= {nc} 1.0))",
                f"(=> (> {u} 0.0) (>= (* 6.0 {ns}) (- (* 6.0 {u}) (* {u} {u} {u}))))",
                f"(=> (< {u} 0.0) (<= (* 6.0 {ns}) (- (* 6.0 {u}) (* {u} {u} {u}))))",
                f"(>= (* 2.0 {nc}) (- 2.0 (* {u} {u})))",
                f"(<= (* 24.0 {nc}) (+ 24.0 (- (* 12.0 {u} {u})) (* {u} {u} {u} {u})))",
                f"(=> (and (<= 0.0 {u}) (<= (* 2.0 {u}) {p})) (>= (* {p} {ns}) (* 2.0 {u})))",
            ]
            self.ax[c] = ax
            self.ax[s] = []
            self.deps[c] = atoms | {s, self.pi()}
            self.deps[s] = {c}
            self.axioms_used.add("sin/cos: Pythagoras, sign and Taylor bounds")
        c, s = self.trig_units[k][:2]
        return R.rf_atom(c), R.rf_atom(s)

    def atan2(self, y, x, node):
        R = self.R
        self.busy += 1
        try:
            return self.atan2_(y, x, node)
        finally:
            self.busy -= 1

    def atan2_(self, y, x, node):
        R = self.R
        if not y.num:
            s = self.sign_rf(x)
            if s is not None and s > 0:
                return R.rf_const_int(0)
            if s is not None and s < 0:
                return R.rf_atom(self.pi())
        with np.errstate(all="ignore"):
            val = np.arctan2(self.rfeval(y), self.rfeval(x))
        # candidates: multiples of known angles, existing atan2 values
        cands = []
        ok = np.isfinite(val) & self.mask

        def match(arr):
            if not ok.any():
                return True
            with np.errstate(all="ignore"):
                return bool(np.allclose(arr[ok], val[ok], rtol=1e-6, atol=1e-9))

        for at, y2, x2, c2, s2, arr in self.atans:
            for sg in (1, -1):
                if match(sg * arr):
                    r = R.rf_atom(at)
                    cands.append((r if sg == 1 else R.neg(r), c2, s2 if sg == 1 else R.neg(s2), True))
        for (key, den), (c, s, base, arr) in list(self.trig_units.items()):
            for k in (1, -1, 2, -2, 4, -4, 3, -3):
                for sh in (0, 1, -1):  # multiples of pi
                    if not ok.any() or match(k * arr + sh * math.pi):
                        if not ok.any() and (sh or abs(k) > 2):
                            continue
                        cc, ss = self.cpow(R.rf_atom(c), R.rf_atom(s), k)
                        if sh:
                            cc, ss = R.neg(cc), R.neg(ss)
                        ang = R.mul(base, R.rf_const_int(k))
                        if sh:
                            ang = R.add(ang, R.mul(R.rf_atom(self.pi()), R.rf_const_int(sh)))
                        cands.append((ang, cc, ss, False))
        for ang, cc, ss, ranged in cands:
            if not R.is_zero(R.sub(R.mul(y, cc), R.mul(x, ss))):
                continue
            dot = R.add(R.mul(x, cc), R.mul(y, ss))
            sg = self.sign_rf(dot, strict=True)
            if sg is None or sg <= 0:
                continue
            if not ranged:
                p = R.rf_atom(self.pi())
                if self.sign_rf(R.sub(p, ang)) is None or self.sign_rf(R.add(p, ang), strict=True) is None:
                    continue
                if self.sign_rf(R.sub(p, ang)) < 0 or self.sign_rf(R.add(p, ang), strict=True) <= 0:
                    continue
            self.axioms_used.add("atan2 of a polar point")
            return ang
        r = self.sqrt(R.add(R.mul(x, x), R.mul(y, y)))
        at = self.new_atom(f"atan{len(self.atans)}", "atan2", val, (y, x))
        c, s = R.div(x, r), R.div(y, r)
        self.atans.append((at, y, x, c, s, val))
        ty, dy, ay = self.rf_fraction(y)
        tx, dx, ax_ = self.rf_fraction(x)
        n, p = self.nm(at), self.nm(self.pi())
        Y, X = f"(* {ty} {dy})", f"(* {tx} {dx})"
        tc, dc_, ac = self.rf_fraction(c)
        tsn, dsn, as_ = self.rf_fraction(s)
        S = f"(/ {tsn} {dsn})" if dsn != "1.0" else tsn
        C = f"(/ {tc} {dc_})" if dc_ != "1.0" else tc
        self.ax[at] = [
            f"(<= {n} {p})",
            f"(> {n} (- {p}))",
            f"(=> (> {Y} 0.0) (> {n} 0.0))",
            f"(=> (> {Y} 0.0) (< {n} {p}))",
            f"(=> (< {Y} 0.0) (< {n} 0.0))",
            f"(=> (and (= {Y} 0.0) (>= {X} 0.0)) (= {n} 0.0))",
            f"(=> (and (= {Y} 0.0) (< {X} 0.0)) (= {n} {p}))",
            f"(=> (> {X} 0.0) (< (* 2.0 {n}) {p}))",
            f"(=> (> {X} 0.0) (< (- {p}) (* 2.0 {n})))",
            f"(=> (and (> {Y} 0.0) (<= {X} 0.0)) (>= (* 2.0 {n}) {p}))",
            f"(=> (> {Y} 0.0) (>= {n} {S}))",
            f"(=> (< {Y} 0.0) (<= {n} {S}))",
            f"(=> (and (> {Y} 0.0) (> {X} 0.0)) (<= (* {n} {C}) {S}))",
            f"(=> (and (> {Y} 0.0) (> {X} 0.0)) (<= (* 2.0 {n}) (* {p} {S})))",
        ]
        self.deps[at] = ay | ax_ | ac | as_ | {self.pi()}
        self.axioms_used.add("range of atan2")
        return R.rf_atom(at)

    # ---------------- signs
    def quick_sign(self, p):
        """+1 if p >= 0 by inspection, -1 if p <= 0"""
        R = self.R
        sg = None
        for m, c in p.items():
            for i, e in R.exps(m):
                if e % 2 and R.kind[i] not in ("sqrt", "abs", "exp", "pi"):
                    return None
            s = 1 if c > 0 else -1
            if sg is None:
                sg = s
            elif sg != s:
                return None
        return sg

    def sign(self, p, strict=False):
        """+1: p >= 0 (or > 0 if strict), -1: p <= 0, None: not decided"""
        if not p:
            return 0
        if len(p) == 1 and 0 in p:
            return 1 if p[0] > 0 else -1
        if not strict:
            q = self.quick_sign(p)
            if q is not None:
                return q
        key = (frozenset(p.items()), strict)
        if key in self.sign_cache:
            return self.sign_cache[key]
        res = None
        arr = self.peval(p)
        arr = arr[np.isfinite(arr) & self.mask]
        pos, neg = bool((arr > 1e-12).any()), bool((arr < -1e-12).any())
        if not (pos and neg):
            s = self.smt_poly(p)
            for sg in ((1, -1) if pos or not neg else (-1, 1)):
                if (sg == 1 and neg) or (sg == -1 and pos):
                    continue
                rel = {(1, False): "(< {} 0.0)", (1, True): "(<= {} 0.0)", (-1, False): "(> {} 0.0)", (-1, True): "(>= {} 0.0)"}[(sg, strict)]
                if self.refute([rel.format(s)], self.atoms_of(p), 6) == "unsat":
                    res = sg
                    break
        self.sign_cache[key] = res
        return res

    def sign_rf(self, a, strict=False):
        if not a.num:
            return 0
        s = self.sign(a.num, strict)
        if s is None:
            return None
        for f, e in a.df.items():
            if e % 2:
                t = self.sign(self.R.factors[f])
                if t is None:
                    return None
                s *= t
        return s

    # ---------------- inequality queries
    def closure(self, atoms):
        seen = set()
        st = list(atoms)
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            st.extend(self.deps.get(i, ()))
        return seen

    def fact_formulas(self):
        """normal forms of the path facts as smt strings with their atoms"""
        if self.factrf is None:
            self.factrf = []
            self.nfact = 0
        if True:
            while self.nfact < len(self.facts):
                f = self.facts[self.nfact]
                self.nfact += 1
                try:
                    s, at = self.bool_smt(f)
                    self.factrf.append((s, at))
                except (GiveUp, NotImplementedError):
                    pass
        return self.factrf

    def refute(self, goals, atoms, timeout, extra=()):
        """unsat if path facts, axioms and goals are contradictory"""
        facts = list(self.fact_formulas() if self.factrf is not None or self.busy < 3 else [])
        use = self.closure(atoms)
        sel = []
        if facts:
            changed = True
            left = list(facts)
            while changed:
                changed = False
                for it in list(left):
                    s, at = it
                    c = self.closure(at)
                    if (c - {self.pi_atom}) & use or not at:
                        sel.append(s)
                        left.remove(it)
                        if not c <= use:
                            use |= c
                            changed = True
        text = self.query(use, sel + list(goals) + list(extra))
        ans, out = smt.run(text, timeout)
        return ans

    def query(self, use, asserts, cmd="(check-sat)"):
        o = []
        for i in sorted(use):
            o.append(f"(declare-const {self.nm(i)} Real)")
        # denominators that occur are non-zero
        for f, p in enumerate(self.R.factors):
            at = self.atoms_of(p)
            if at <= use and len(p) < 60:
                o.append(f"(assert (not (= {self.smt_poly(p)} 0.0)))")
        for i in sorted(use):
            for a in self.ax.get(i, ()):
                o.append(f"(assert {a})")
        for a in asserts:
            o.append(f"(assert {a})")
        o.append(cmd)
        return "\n".join(o)

    def bool_smt(self, n):
        """smt string of a boolean node over reals, in normal form"""
        T = self.T
        op, a = T.op[n], T.args[n]
        if op == "bconst":
            return ("true" if a[0] else "false"), set()
        if op == "not":
            s, at = self.bool_smt(a[0])
            return f"(not {s})", at
        if op in ("and", "xor", "or"):
            s, at = self.bool_smt(a[0])
            s2, at2 = self.bool_smt(a[1])
            return f"({op} {s} {s2})", at | at2
        if op in ("rlt", "rle", "req"):
            d = self.R.sub(self.rf(a[0]), self.rf(a[1]))
            rel = {"rlt": "<", "rle": "<=", "req": "="}[op]
            p = d.num
            s = self.smt_poly(p)
            at = self.atoms_of(p)
            if op != "req":
                odd = []
                for f, e in d.df.items():
                    if e % 2:
                        fp = self.R.factors[f]
                        sg = self.quick_sign(fp)
                        if sg == 1:
                            continue
                        odd.append(self.smt_poly(fp))
                        at |= self.atoms_of(fp)
                if odd:
                    s = f"(* {s} {' '.join(odd)})"
            return f"({rel} {s} 0.0)", at
        raise GiveUp("boolean " + op)

    def prove_bool(self, n, timeout=20):
        s, at = self.bool_smt(n)
        if s == "true":
            return "unsat"
        r = self.refute([f"(not {s})"], at, timeout)
        return r

    # ---------------- certification
    def certify(self, start=0):
        """z3 discharges every recorded polynomial identity; returns True if all are unsat"""
        cl = self.R.claims[start:]
        if not cl:
            return True
        seen = set()
        batch, cost = [], 0
        ok = True

        def flush():
            nonlocal batch, cost, ok
            if not batch:
                return
            at = set()
            for c in batch:
                for _, ps in c:
                    for p in ps:
                        at |= self.atoms_of(p)
            o = [f"(declare-const {self.nm(i)} Real)" for i in sorted(at)]
            ds = []
            for c in batch:
                ts = []
                for k, ps in c:
                    fs = [] if k == 1 else [f"{k}.0" if k >= 0 else f"(- {-k}.0)"]
                    fs += [self.smt_poly(p) for p in ps]
                    ts.append(fs[0] if len(fs) == 1 else "(* " + " ".join(fs) + ")")
                s = ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"
                ds.append(f"(not (= {s} 0.0))")
            o.append("(assert (or " + " ".join(ds) + " false))")
            o.append(
                "(check-sat-using (then (using-params simplify :som true :som_blowup 1000000000 :hoist_mul false) smt))"
            )
            ans, out = smt.run("\n".join(o), 120)
            if ans != "unsat":
                ok = False
            smt.STATS["claims"] += len(batch)
            self.certified += len(batch)
            batch, cost = [], 0

        for c in cl:
            key = tuple((k, tuple(id(p) for p in ps)) for k, ps in c)
            if key in seen:
                continue
            seen.add(key)
            w = 0
            for _, ps in c:
                k = 1
                for p in ps:
                    k *= max(1, len(p))
                w += k
            batch.append(c)
            cost += w
            if cost > 60000:
                flush()
        flush()
        return ok
