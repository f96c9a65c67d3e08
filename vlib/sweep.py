"""Sweeping: inner terms that agree on samples are merged bottom-up once a local ring identity, certified by z3,
shows them equal.  The samples only propose the candidates; every merge is decided by the solver."""
import time
from fractions import Fraction

import numpy as np

from . import smt
from .poly import GiveUp, Ring

ARITH = ("add", "sub", "mul", "neg", "div")


class Lemma:
    """local normal forms over atoms that stand for arbitrary reals"""

    def __init__(self, S, stop, max_terms, deadline):
        self.S, self.T = S, S.T
        self.R = Ring(max_terms=max_terms)
        self.R.deadline = deadline
        self.stop = stop  # nodes that are atoms
        self.memo = {}
        self.at = {}
        self.nodes = []
        self.axioms = set()

    def atom(self, n):
        got = self.at.get(n)
        if got is not None:
            return got
        R, T = self.R, self.T
        if len(R.names) > 120:
            raise GiveUp("too many atoms")
        i = R.atom(f"n{n}", "atom")
        self.nodes.append(n)
        r = self.at[n] = R.rf_atom(i)
        if T.op[n] == "var" and n in self.S.lastof:
            g = self.S.lastof[n]
            rhs = {0: 1}
            for v in g[:-1]:
                j = self.index(self.atom(v))
                rhs[R.mono(j, 2)] = -1
            R.add_rule(i, rhs)
            self.axioms.add("unit-norm inputs")
        elif T.op[n] == "sin":
            c = T.fun("cos", T.args[n][0])
            if T.op[c] == "cos":
                j = self.index(self.atom(c))
                R.add_rule(i, {0: 1, R.mono(j, 2): -1})
                self.axioms.add("sin^2+cos^2=1")
        elif T.op[n] == "sqrt":
            a = self.nf(T.args[n][0])
            if not a.df and a.dc == 1 and len(a.num) <= 20:
                # the rule must not mention the atom itself: acyclic because the argument is older
                R.add_rule(i, dict(a.num))
                self.axioms.add("sqrt(x)^2=x")
        return r

    def index(self, rf):
        (m,) = rf.num
        return next(self.R.exps(m))[0]

    def nf(self, n):
        got = self.memo.get(n)
        if got is not None:
            return got
        T, R = self.T, self.R
        op = T.op[n]
        if op == "const":
            v = T.args[n][0]
            if isinstance(v, str):
                raise GiveUp("non-finite")
            r = R.rf_const(v)
        elif op not in ARITH or n in self.stop:
            r = self.atom(n)
        else:
            a = [self.nf(k) for k in T.args[n]]
            r = R.add(*a) if op == "add" else R.sub(*a) if op == "sub" else R.mul(*a) if op == "mul" else R.neg(a[0]) if op == "neg" else R.div(*a)
        self.memo[n] = r
        return r

    def claims(self):
        """z3 text of the identities used"""
        R = self.R
        out, at, cost = [], set(), 0

        def poly(p):
            if not p:
                return "0.0"
            ts = []
            for m, c in p.items():
                fs = [] if c == 1 and m else [f"{c}.0" if c >= 0 else f"(- {-c}.0)"]
                for i, e in R.exps(m):
                    at.add(self.nodes[i])
                    fs += [f"n{self.nodes[i]}"] * e
                ts.append(fs[0] if len(fs) == 1 else "(* " + " ".join(fs) + ")")
            return ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"

        for c in R.claims:
            ts = []
            for k, ps in c:
                fs = [] if k == 1 else [f"{k}.0" if k >= 0 else f"(- {-k}.0)"]
                fs += [poly(p) for p in ps]
                w = 1
                for p in ps:
                    w *= max(1, len(p))
                cost += w
                ts.append(fs[0] if len(fs) == 1 else "(* " + " ".join(fs) + ")")
            s = ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"
            out.append(f"(not (= {s} 0.0))")
        return out, at, cost


class Sweep:
    def __init__(self, T, pool, cache, size, mask, spheres, seconds, log):
        self.T = T
        self.env, self.cache, self.size = pool, cache, size
        # samples only propose merges, so any well-scaled ones do
        mag = np.zeros(size)
        for v in pool.values():
            a = np.abs(v)
            mag = np.maximum(mag, np.where(a > 0, np.abs(np.log10(a + 1e-30)), 0.0))
        self.idx = np.argsort(mag, kind="stable")[:24]
        self.deadline = time.time() + seconds
        self.lastof = {g[-1]: g for g in spheres}
        self.log = log
        self.pending = []
        self.patoms = set()
        self.pcost = 0
        self.ok = True
        self.merges = self.tries = 0
        self.axioms = set()

    def val(self, n):
        return self.T.evaluate([n], self.env, self.cache, self.size)[0][self.idx]

    def reach(self, n, cap):
        seen, layer = {n}, [n]
        while layer and len(seen) < cap:
            nxt = []
            for x in layer:
                if self.T.op[x] in ARITH or self.T.op[x] == "sqrt":
                    for k in self.T.args[x]:
                        if k not in seen:
                            seen.add(k)
                            nxt.append(k)
            layer = nxt
        return seen, set(layer)

    def equal(self, a, b, rounds):
        """a == b by a local identity over a cut of inner terms; the cut moves down while it fails"""
        self.tries += 1
        T = self.T
        sa, fa = self.reach(a, 600)
        sb, fb = self.reach(b, 600)
        edge = fa | fb
        stop = ((sa & sb) - {a, b}) | edge
        end = min(self.deadline, time.time() + 0.15 * rounds)
        for _ in range(rounds):
            if time.time() > end:
                return False
            L = Lemma(self, stop, 400, end)
            try:
                d = L.R.sub(L.nf(a), L.nf(b))
                ok = L.R.is_zero(d)
            except (GiveUp, RecursionError):
                return False
            if ok:
                out, at, cost = L.claims()
                self.pending += out
                self.patoms |= at
                self.pcost += cost
                self.axioms |= L.axioms
                if self.pcost > 40000:
                    self.flush()
                return True
            ats = [n for n in L.nodes if T.op[n] in ARITH and n not in edge]
            if not ats:
                return False
            allat = set(L.nodes)
            dep = [n for n in ats if self.contains(n, allat)]
            stop = stop - set(dep or ats)
        return False

    def contains(self, n, others):
        """n is built from one of the others"""
        seen, st = {n}, list(self.T.args[n])
        while st:
            x = st.pop()
            if x in seen:
                continue
            if x in others:
                return True
            seen.add(x)
            if len(seen) > 300:
                return True
            if self.T.op[x] in ARITH or self.T.op[x] == "sqrt":
                st.extend(self.T.args[x])
        return False

    def flush(self):
        if not self.pending:
            return
        o = [f"(declare-const n{i} Real)" for i in sorted(self.patoms)]
        o.append("(assert (or " + " ".join(self.pending) + " false))")
        o.append("(check-sat-using (then (using-params simplify :som true :som_blowup 1000000000 :hoist_mul false) smt))")
        ans, _ = smt.run("\n".join(o), 120)
        if ans != "unsat":
            self.ok = False
        smt.STATS["claims"] += len(self.pending)
        self.pending, self.patoms, self.pcost = [], set(), 0

    def run(self, roots):
        """returns the roots over merged terms, or None if a certificate failed"""
        T = self.T
        if not len(self.idx):
            return roots
        rep = {}
        classes = {}
        plans = 8
        bad = {}
        for n in T.cone(roots):
            if T.sort[n] != "R" or T.op[n] in ("const", "var", "pi", "rfrombv"):
                rep[n] = n
                continue
            if T.op[n] == "rite":
                rep[n] = n
                continue
            m = T.fun(T.op[n], *[rep[k] for k in T.args[n]])
            if T.op[m] in ("const", "var", "pi") or time.time() > self.deadline:
                rep[n] = m
                continue
            if m in rep and rep[m] != m:
                rep[n] = rep[m]
                continue
            v = self.val(m)
            if not np.all(np.isfinite(v)):
                rep[n] = m
                continue
            rep[n] = self.merge(m, v, classes, plans, bad)
            rep.setdefault(m, rep[n])
        out = [rep[r] for r in roots]
        self.flush()
        return out if self.ok else None

    def merge(self, m, v, classes, plans, bad):
        T = self.T
        big = np.max(np.abs(v))
        if big < 1e-11:
            if bad.get("zero", 0) < 40 and self.equal(m, T.zero, plans):
                self.merges += 1
                return T.zero
            bad["zero"] = bad.get("zero", 0) + 1
            return m
        if np.max(v) - np.min(v) < 1e-12 * big and len(v) > 3:
            f = Fraction(float(v[0])).limit_denominator(64)
            if abs(float(f) - v[0]) < 1e-12 * big and bad.get(f, 0) < 40:
                c = T.const(f)
                if self.equal(m, c, plans):
                    self.merges += 1
                    return c
                bad[f] = bad.get(f, 0) + 1
        s = 1.0 if v[0] > 0 else -1.0
        key = tuple(f"{x:.6e}" for x in (v[:3] * s))
        c = classes.setdefault(key, [])
        for r, vr, sr in c[:3]:
            if r == m:
                return m
            if np.all(np.abs(vr * sr - v * s) <= 1e-8 * (np.abs(v) + 1e-3 * big)):
                t = r if s == sr else T.neg(r)
                if t == m:
                    return m
                if bad.get(key, 0) < 6:
                    if self.equal(m, t, plans):
                        self.merges += 1
                        return t
                    bad[key] = bad.get(key, 0) + 1
        c.append((m, v, s))
        return m
