"""Path exploration of one harness entry through symex, and the decision of its obligations."""
import json
import math
import os
import re
import struct
import subprocess
import time
from fractions import Fraction

import numpy as np

from . import native, smt, rawsmt, sweep, taylor, witness
from .poly import GiveUp
from .prove import Prover, Refine
from .samples import Pool
from .terms import Terms, f64


class Symex:
    def __init__(self, exe, ll):
        self.p = subprocess.Popen([exe, ll], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1 << 20)
        assert self.line() == "READY"

    def line(self):
        l = self.p.stdout.readline()
        if not l:
            raise RuntimeError("symex died")
        return l.rstrip("\n")

    def send(self, s):
        self.p.stdin.write(s + "\n")
        self.p.stdin.flush()

    def funcs(self):
        self.send("FUNCS")
        out = []
        while True:
            l = self.line()
            if l == "F.":
                return out
            if l.startswith("F "):
                out.append(l[2:])

    def close(self):
        try:
            self.send("QUIT")
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Path:
    def __init__(self):
        self.answers = []  # decisions taken, in order
        self.facts = []
        self.obl = []
        self.divs = []
        self.doms = []
        self.cuts = []
        self.marks = []
        self.outs = []
        self.choices = []
        self.status = None
        self.steps = 0
        self.solver_forced = 0
        self.unsampled = False


class Violation(Exception):
    def __init__(self, **kw):
        self.d = kw


class Explorer:
    def __init__(self, symex, entry, seed=1, pool=1024, max_paths=200, limit=200_000_000, budget=120.0, opts=None, log=None):
        self.sx = symex
        self.entry = entry
        self.seed = seed
        self.T = Terms()
        self.map = {}
        self.psize = pool
        self.pool = Pool(self.T, pool, seed)
        self.max_paths = max_paths
        self.limit = limit
        self.opts = opts or {}
        self.budget = budget
        self.t0 = time.time()
        self.log = log or (lambda s: None)
        self.spheres = {}
        self.units = {}
        self.bvvars = {}
        self.native = None
        self.known = []
        self.twins = {}
        self.slot = 0
        self.wbudget = 60.0 * self.opts.get("scale", 1)
        self.res = dict(
            entry=entry, paths=0, infeasible=0, obligations=0, proved=0, trivial=0, reduced=[], undecided=[], panics=[],
            errors=[], marks={}, steps=0, assumptions=set(), axioms=set(), certified=0, pruned=0, complete=True, vars=set(),
            obl_labels=set(), definedness=0, definedness_proved=0, unconfirmed=[], known_hits=[], validated=0, mismatched=0,
        )

    # ---------------- node intake
    def node(self, l):
        w = l.split(" ")
        i = int(w[1])
        k = w[2]
        T, M = self.T, self.map
        if k == "rvar":
            r = T.var(w[3])
            self.pool.add_var(r)
            self.res["vars"].add(w[3])
        elif k == "rconst":
            r = T.fconst(f64(w[3]))
        elif k == "r":
            r = T.fun(w[3], *[M[int(x)] for x in w[4:]])
        elif k == "rite":
            r = T.mk("rite", tuple(M[int(x)] for x in w[3:6]), "R")
        elif k == "rfrombv":
            r = T.mk("rfrombv", (int(w[3]), M[int(w[4])]), "R")
        elif k == "bconst":
            r = T.bconst(w[3] == "1")
        elif k == "rcmp":
            r = T.cmp(w[3], M[int(w[4])], M[int(w[5])])
        elif k == "not":
            r = T.not_(M[int(w[3])])
        elif k == "and":
            r = T.and_(M[int(w[3])], M[int(w[4])])
        elif k == "or":
            r = T.or_(M[int(w[3])], M[int(w[4])])
        elif k == "xor":
            r = T.xor_(M[int(w[3])], M[int(w[4])])
        elif k == "bvvar":
            r = T.mk("bvvar", (w[3],), int(w[4]))
            self.res["vars"].add(w[3])
            self.bvvars[w[3]] = r
        elif k == "bvconst":
            r = T.mk("bvconst", (int(w[4]),), int(w[3]))
        elif k == "bv":
            r = T.mk("bv", (w[3],) + tuple(M[int(x)] for x in w[5:]), int(w[4]))
        elif k == "bvcmp":
            r = T.mk("bvcmp", (w[3], M[int(w[4])], M[int(w[5])]), "B")
        elif k == "zext" or k == "sext":
            r = T.mk(k, (int(w[3]), M[int(w[4])]), int(w[3]))
        elif k == "extract":
            r = T.mk("extract", (int(w[3]), int(w[4]), M[int(w[5])]), int(w[3]) - int(w[4]) + 1)
        elif k == "concat":
            h, lo = M[int(w[3])], M[int(w[4])]
            r = T.mk("concat", (h, lo), T.sort[h] + T.sort[lo])
        elif k == "bvite":
            c, a, b = (M[int(x)] for x in w[3:6])
            r = T.mk("bvite", (c, a, b), T.sort[a])
        else:
            raise RuntimeError("node " + l)
        M[i] = r

    # ---------------- one path
    def tau0(self, n):
        taus = {v: self.T.zero for v in self.T.vars_of([n]) if self.T.op[v] == "var" and self.T.args[v][0].startswith("tau")}
        if not taus:
            return n
        return self.T.subst([n], taus)[0]

    def has_bv(self, n):
        return any(self.T.op[x] in ("bvvar", "bvcmp", "rfrombv") for x in self.T.cone([n]))

    def new_prover(self, p, facts, mask, cuts=(), deadline=None, max_terms=6000):
        T = self.T
        sph = []
        for label, k in self.spheres.items():
            sph.append([T.var(f"{label}_{i}") for i in range(k)])
        pr = Prover(T, facts, sph, self.pool.env, self.psize, cuts, self.units, deadline, max_terms)
        pr.mask = mask
        pr.ncache = self.pool.cache
        return pr

    def run(self, prefix):
        T = self.T
        p = Path()
        self.cur = p
        self.mask = np.ones(self.psize, bool)
        self.prov = None
        self.bvsol = None
        self.sx.send(f"RUN {self.entry} {self.opts.get('hashseed', 1)} {self.limit}")
        M = self.map
        while True:
            l = self.sx.line()
            c = l[0]
            if c == "N":
                self.node(l)
                continue
            w = l.split(" ")
            if c == "B":
                a = self.branch(p, M[int(w[1])], prefix, l)
                self.sx.send(a)
            elif c == "A":
                n = self.tau0(M[int(w[1])])
                v = T.bval(n)
                if v is None:
                    self.assume(p, n)
                    self.sx.send("1")
                else:
                    self.sx.send("1" if v else "0")
            elif c == "C":
                k = len(p.answers)
                n = int(w[1])
                a = prefix[k] if k < len(prefix) else 0
                if k >= len(prefix):
                    for alt in range(n - 1, 0, -1):
                        self.work.append(p.answers + [alt])
                p.answers.append(a)
                p.choices.append((w[2], a))
                self.sx.send(str(a))
            elif c == "E":
                p.obl.append(("E", w[3], M[int(w[1])], M[int(w[2])]))
            elif c == "L":
                p.obl.append(("L", w[4], M[int(w[1])], M[int(w[2])], M[int(w[3])]))
            elif c == "T":
                p.obl.append(("T", w[2], M[int(w[1])]))
            elif c == "D":
                p.obl.append(("D", w[4], M[int(w[1])], M[int(w[2])], T.var(w[3]), M[int(w[5])]))
            elif c == "O":
                p.outs.append((w[2], M[int(w[1])]))
            elif c == "M":
                p.marks.append(w[1])
            elif c == "K":
                p.cuts.append(M[int(w[1])])
            elif c == "U":
                self.spheres[w[2]] = int(w[1])
                self.pool.declare_sphere(w[2], int(w[1]))
            elif c == "R":
                v, lo, hi = (M[int(x)] for x in w[1:4])
                num = lambda x: float(T.args[x][0]) if T.cv(x) is not None else float(T.evaluate([x], {}, {}, 1)[0][0])
                bounds = (num(lo), num(hi))
                if self.pool.ranges.get(v) != bounds:
                    self.pool.ranges[v] = bounds
                    self.pool.env.pop(v, None)
                    self.pool.cache.clear()
                    self.pool.add_var(v)
                for f in (T.cmp("lt", lo, v), T.cmp("lt", v, hi)):
                    if f not in p.facts:
                        p.facts.append(f)
            elif c == "Z":
                p.divs.append((M[int(w[1])], len(p.facts)))
            elif c == "Q":
                p.doms.append((w[1], M[int(w[2])], len(p.facts)))
            elif c == "X":
                p.steps = int(w[1]) if w[1].isdigit() else 0
                p.status = " ".join(w[2:]) if w[1].isdigit() else " ".join(w[1:])
                break
            else:
                raise RuntimeError("symex said " + l)
        return p

    def nmask(self, n):
        """samples on which n holds, or None if not numeric"""
        if self.has_bv(n):
            return None
        v = self.pool.ev(n)
        return v.astype(bool)

    def add_fact(self, p, n):
        p.facts.append(n)
        if self.has_bv(n):
            self.bv().add(rawsmt.z3expr(self.T, n, self.bvcache))
            return
        m = self.nmask(n)
        self.mask &= m
        if self.prov:
            self.prov.facts.append(n)
            self.prov.mask = self.mask

    def inject(self, base, val):
        """writes a solver's point over one of the reserved samples"""
        T, P = self.T, self.pool
        k = self.psize - 1 - self.slot % 64
        self.slot += 1
        for v, arr in P.env.items():
            q = val.get(v)
            if q is None:
                q = P.exact[v][base] if v in P.exact else None
                x = float(arr[base])
            else:
                x = float(q)
            if v in P.exact:
                P.exact[v][k] = q
            arr[k] = x
        ns = [n for n in P.cache if T.op[n] not in ("var", "bvvar")]
        env1 = {v: arr[k : k + 1].copy() for v, arr in P.env.items()}
        c1 = {}
        T.evaluate(ns, env1, c1, 1)
        for n in ns:
            P.cache[n][k] = c1[n][0]
        return k

    def exact_holds(self, roots, j):
        val = self.mp_env(j, roots)
        return val is not None and all(bool(val[n]) for n in roots)

    def witness(self, p, goal=None, secs=10):
        """a sample on the path, from the solver"""
        if self.wbudget <= 0 or any(self.has_bv(f) for f in p.facts):
            return None
        t = time.time()
        rf = [self.tau0(f) for f in p.facts]
        try:
            k = witness.search(self, p, rf, goal, min(secs, self.wbudget))
        except (GiveUp, RecursionError, OverflowError) as e:
            self.log(f"    witness: {e!r}")
            k = None
        self.wbudget -= time.time() - t
        self.res["witnesses"] = self.res.get("witnesses", 0) + (k is not None)
        self.res["no_witness"] = self.res.get("no_witness", 0) + (k is None)
        self.refresh(p)
        return k

    def refresh(self, p):
        self.mask = np.ones(self.psize, bool)
        for f in p.facts:
            if not self.has_bv(f):
                self.mask &= self.nmask(f)
        if self.prov:
            self.prov.mask = self.mask

    def bv(self):
        if self.bvsol is None:
            import z3

            self.bvsol = z3.Solver()
            self.bvcache = {}
            for f in self.cur.facts:
                if self.has_bv(f):
                    self.bvsol.add(rawsmt.z3expr(self.T, f, self.bvcache))
        return self.bvsol

    def assume(self, p, n):
        self.add_fact(p, n)

    def feasible(self, p, n):
        """solver verdict on facts and n: 'unsat', 'sat', 'unknown'"""
        if self.has_bv(n):
            import z3

            s = self.bv()
            s.push()
            s.add(rawsmt.z3expr(self.T, n, self.bvcache))
            s.set("timeout", 20000)
            t = time.time()
            r = str(s.check())
            smt.STATS["queries"] += 1
            smt.STATS["time"] += time.time() - t
            smt.STATS[r if r in ("sat", "unsat") else "unknown"] += 1
            s.pop()
            return r
        for _ in range(6):
            try:
                if self.prov is None:
                    self.prov = self.new_prover(p, [f for f in p.facts if not self.has_bv(f)], self.mask)
                self.prov.R.deadline = time.time() + self.opts.get("branch_s", 8)
                s, at = self.prov.bool_smt(n)
                if s == "false":
                    return "unsat"
                return self.prov.refute([s], at, self.opts.get("branch_s", 8))
            except Refine as e:
                self.units[e.key] = e.den
                self.prov = None
            except GiveUp as e:
                return "unknown"
        return "unknown"

    def branch(self, p, n, prefix, l):
        T = self.T
        k = len(p.answers)
        n = self.tau0(n)
        v = T.bval(n)
        if v is not None:
            a = 1 if v else 0
            p.answers.append(a)
            return str(a)
        if n in p.facts or T.not_(n) in p.facts:
            a = 1 if n in p.facts else 0
            p.answers.append(a)
            return str(a)
        if k < len(prefix):
            a = prefix[k]
            p.answers.append(a)
            self.add_fact(p, n if a else T.not_(n))
            if k == len(prefix) - 1 and not self.mask.any():
                self.witness(p, secs=5)
            return str(a)
        a = self.twin(p, n)
        if a is not None:
            self.res["pruned"] += 1
            p.answers.append(a)
            return str(a)
        bv = self.has_bv(n)
        if bv:
            ft, ff = self.feasible(p, n), self.feasible(p, T.not_(n))
            opts = [x for x, r in ((1, ft), (0, ff)) if r != "unsat"]
            if not opts:
                p.answers.append(1)
                return "x"
        else:
            m = self.nmask(n)
            t, f = int((self.mask & m).sum()), int((self.mask & ~m).sum())
            opts = []
            for x, cnt in ((1, t), (0, f)):
                if cnt:
                    opts.append(x)
            if len(opts) < 2:
                for x, cnt in ((1, t), (0, f)):
                    if cnt:
                        continue
                    r = self.feasible(p, n if x else T.not_(n))
                    if r == "unsat":
                        self.res["pruned"] += 1
                        if not opts and x == 0 and f == 0 and t == 0:
                            pass
                    else:
                        opts.append(x)
                if not opts:
                    p.answers.append(1)
                    return "x"
            elif t < f:
                opts = [0, 1]
        a = opts[0]
        for b in opts[1:]:
            self.work.append(p.answers + [b])
        p.answers.append(a)
        self.add_fact(p, n if a else T.not_(n))
        if not bv and not self.mask.any():
            self.witness(p, secs=5)
        return str(a)

    def twin(self, p, n):
        """the answer, if an earlier fact compares terms that a certified sweep shows equal to those of n"""
        T = self.T
        neg = T.op[n] == "not"
        c = T.args[n][0] if neg else n
        if T.op[c] not in ("rlt", "rle", "req") or self.has_bv(c) or not self.opts.get("twin", True):
            return None
        va = [self.pool.ev(x) for x in T.args[c]]
        for f in reversed(p.facts):
            fneg = T.op[f] == "not"
            d = T.args[f][0] if fneg else f
            if T.op[d] != T.op[c] or self.has_bv(d):
                continue
            ok = True
            for x, v, y in zip(T.args[c], va, T.args[d]):
                if x == y:
                    continue
                w = self.pool.ev(y)
                fin = np.isfinite(v) & np.isfinite(w)
                if fin.sum() < 16 or not np.all(np.abs(v[fin] - w[fin]) <= 1e-6 * (np.abs(v[fin]) + np.abs(w[fin])) + 1e-12):
                    ok = False
                    break
            if not ok:
                continue
            if (c, d) not in self.twins:
                roots = list(T.args[c]) + list(T.args[d])
                sph = [[T.var(f"{label}_{i}") for i in range(k)] for label, k in self.spheres.items()]
                sw = sweep.Sweep(T, self.pool.env, self.pool.cache, self.psize, self.mask, sph, self.opts.get("sweep_s", 30) * self.opts.get("scale", 1), self.log)
                out = sw.run(roots)
                h = len(roots) // 2
                self.twins[c, d] = out is not None and out[:h] == out[h:]
                if self.twins[c, d]:
                    self.res["axioms"] |= sw.axioms
            if self.twins[c, d]:
                return int(fneg == neg)
        return None

    # ---------------- the entry
    def explore(self):
        self.work = [[]]
        res = self.res
        while self.work:
            if res["paths"] >= self.max_paths or time.time() - self.t0 > self.budget:
                res["complete"] = False
                res["undecided"].append(dict(what="path bound", left=len(self.work)))
                break
            prefix = self.work.pop()
            p = self.run(prefix)
            res["steps"] += p.steps
            self.finish(p)
        return res

    def finish(self, p):
        res = self.res
        st = p.status.split(" ")[0]
        if st == "assumefail":
            res["infeasible"] += 1
            return
        # a path no sample reaches: is it feasible at all?
        alive = int(self.mask.sum())
        if alive == 0 and self.path_infeasible(p):
            res["infeasible"] += 1
            return
        if alive == 0 and any(not self.has_bv(f) for f in p.facts):
            self.witness(p)
            alive = int(self.mask.sum())
        if 0 < alive < 8 and self.wbudget > 0 and any(self.T.op[f] == "req" for f in p.facts):
            t = time.time()
            got = witness.grid(self, p, [self.tau0(f) for f in p.facts if not self.has_bv(f)], 8, min(10, self.wbudget))
            self.wbudget -= time.time() - t
            self.refresh(p)
            alive = int(self.mask.sum())
            self.log(f"    {got} more witnesses along the equalities of the path, {alive} alive, {time.time() - t:.1f} s")
        res["paths"] += 1
        for m in p.marks:
            res["marks"][m] = res["marks"].get(m, 0) + 1
        self.log(f"  path {res['paths']} status={p.status[:200]} facts={len(p.facts)} obl={len(p.obl)} alive={alive} decisions={len(p.answers)}")
        if st in ("panic", "abort"):
            self.panic(p, alive)
            return
        if st != "ok":
            res["errors"].append(p.status)
            return
        self.decide(p)

    def path_infeasible(self, p):
        bvf = [f for f in p.facts if self.has_bv(f)]
        rf = [f for f in p.facts if not self.has_bv(f)]
        if rf:
            for _ in range(4):
                try:
                    pr = self.new_prover(p, rf, self.mask, deadline=time.time() + 20)
                    at = set()
                    for s, a in pr.fact_formulas():
                        at |= a
                    return pr.refute([], at, 15) == "unsat"
                except Refine as e:
                    self.units[e.key] = e.den
                except GiveUp:
                    return False
        return False

    def panic(self, p, alive):
        if alive == 0 and not any(self.has_bv(f) for f in p.facts):
            self.res["undecided"].append(dict(what="panic on a path without a witness", status=p.status, where=p.choices))
            return
        js = None
        if alive and any(not self.has_bv(f) for f in p.facts):
            js = [int(j) for j in np.flatnonzero(self.mask)[:40] if self.exact_facts(int(j))][:6]
            if not js:
                # the samples are here by rounding only
                if self.path_infeasible(p):
                    self.res["paths"] -= 1
                    self.res["infeasible"] += 1
                    return
                self.res["undecided"].append(dict(what="panic on a path without an exact witness", status=p.status, where=p.choices))
                return
        self.candidate(p, ("P", p.status), js)

    def is_known(self, label):
        for k in self.known:
            if label.startswith(k["label"]):
                return True
        return False

    def candidate(self, p, ob, js):
        """counterexample candidates (sample numbers): replayed on the real program before anything is reported"""
        label = str(ob[1])
        if self.is_known(label):
            self.res["known_hits"].append(label)
            return
        tried = []
        for j in js if js is not None else [None]:
            vals = self.model(p, ob, j)
            ok, msg = (True, "not replayed")
            if self.native:
                var = self.T.args[ob[4]][0] if ob[0] == "D" else None
                ok, msg = native.confirm(self.native, self.entry, ob[0], label, vals, p.choices, var)
            tried.append(msg)
            if ok:
                raise Violation(entry=self.entry, kind=ob[0], label=label, choices=p.choices, values=vals, native=msg, confirmed=True,
                                solver=self.pinned(p, ob, j), path=p, ob=ob, sample=j)
        self.res["unconfirmed"].append(dict(entry=self.entry, label=label, kind=ob[0], tried=tried[:3]))
        self.log(f"    unconfirmed candidate {ob[0]} {label}: {tried[:3]}")

    def pinned(self, p, ob, j):
        """the solver's verdict on the violated obligation with the inputs fixed to the counterexample"""
        if ob[0] not in ("E", "L", "T") or j is None or (ob[0] == "T" and self.has_bv(ob[2])):
            return "model from the solver" if j is None else None
        T = self.T
        try:
            roots = [x for x in ob[2:] if isinstance(x, int)]
            rf = [f for f in p.facts if not self.has_bv(f)]
            val = self.mp_env(j, roots + rf)
            if val is None:
                return None
            import mpmath
            pt = self.pool.point(j, [v for v in T.vars_of(roots + rf) if T.op[v] == "var"])
            o = []
            for n in T.cone(roots + rf):
                op, a = T.op[n], T.args[n]
                if T.sort[n] == "R":
                    if op == "var":
                        o.append(f"(define-fun n{n} () Real {smt.rat(pt[n])})")
                    elif op == "const":
                        o.append(f"(define-fun n{n} () Real {smt.rat(a[0])})")
                    elif op in ("add", "sub", "mul", "div"):
                        o.append(f"(define-fun n{n} () Real ({ {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[op]} n{a[0]} n{a[1]}))")
                    elif op == "neg":
                        o.append(f"(define-fun n{n} () Real (- n{a[0]}))")
                    else:
                        # enclosure of a transcendental value; a 40-digit rational stands for it
                        q = Fraction(int(mpmath.nint(val[n] * mpmath.mpf(10) ** 40)), 10**40)
                        o.append(f"(define-fun n{n} () Real {smt.rat(q)})")
                elif op in ("rlt", "rle", "req"):
                    o.append(f"(define-fun n{n} () Bool ({ {'rlt': '<', 'rle': '<=', 'req': '='}[op]} n{a[0]} n{a[1]}))")
                elif op == "bconst":
                    o.append(f"(define-fun n{n} () Bool {'true' if a[0] else 'false'})")
                elif op in ("not", "and", "xor"):
                    o.append(f"(define-fun n{n} () Bool ({op} {' '.join('n%d' % k for k in a)}))")
                else:
                    return None
            for f in rf:
                o.append(f"(assert n{f})")
            if ob[0] == "T":
                o.append(f"(assert (not n{ob[2]}))")
            else:
                tol = f"n{ob[4]}" if ob[0] == "L" else "0.00000001"
                o.append(f"(assert (or (> (- n{ob[2]} n{ob[3]}) {tol}) (< (- n{ob[2]} n{ob[3]}) (- {tol}))))")
            o.append("(check-sat)")
            return smt.run("\n".join(o), 20)[0]
        except Exception as e:
            return "not run: " + str(e)[:80]

    def model(self, p, ob, j):
        vals = {}
        if j is None:
            idx = np.flatnonzero(self.mask)
            j = int(idx[0]) if len(idx) else 0
        for v, arr in self.pool.env.items():
            vals[self.T.args[v][0]] = float(arr[j])
        bvf = [f for f in p.facts if self.has_bv(f)]
        if self.bvvars:
            import z3

            s = z3.Solver()
            cache = {}
            for f in bvf:
                s.add(rawsmt.z3expr(self.T, f, cache))
            if ob[0] == "T" and self.has_bv(ob[2]):
                s.add(z3.Not(rawsmt.z3expr(self.T, ob[2], cache)))
            if s.check() == z3.sat:
                m = s.model()
                for name, n in self.bvvars.items():
                    vals[name] = int(m.eval(rawsmt.z3expr(self.T, n, cache), model_completion=True).as_long())
        return vals

    # ---------------- obligations of a finished path
    def decide(self, p):
        T, res = self.T, self.res
        mask = self.mask
        todo = []
        # derivative obligations become equalities
        ders = {}
        for ob in p.obl:
            res["obligations"] += 1
            res["obl_labels"].add(ob[1])
            if ob[0] == "D":
                ders.setdefault(ob[4], []).append(ob)
        dval = {}
        alltau = {v: T.zero for v in self.pool.env if T.args[v][0].startswith("tau")}
        for v, obs in ders.items():
            ds = T.diff([o[3] for o in obs], v)
            ds = T.subst(ds, alltau)
            js = T.subst([o[2] for o in obs], alltau)
            for o, d, jn in zip(obs, ds, js):
                dval[o] = (jn, d)
        for ob in p.obl:
            if ob[0] == "D":
                a, b = dval[ob]
                if ob[5] == T.zero:
                    todo.append(("E", ob[1], a, b, ob))
                else:
                    todo.append(("L", ob[1], a, b, ob[5], ob))
            elif ob[0] == "E":
                a, b = T.subst([ob[2], ob[3]], alltau) if alltau else (ob[2], ob[3])
                todo.append(("E", ob[1], a, b, ob))
            elif ob[0] == "L":
                todo.append(("L", ob[1], ob[2], ob[3], ob[4], ob))
            else:
                todo.append(("T", ob[1], ob[2], ob))
        # numeric candidates first
        if mask.any():
            bad = []
            keep = []
            for o in todo:
                js, score = self.numeric_fail(o, mask)
                if js:
                    bad.append((score, o, js))
                else:
                    keep.append(o)
            bad.sort(key=lambda x: -x[0])
            for _, o, js in bad:
                self.candidate(p, o[-1], js)
            todo = keep
            self.validate(p, todo)
        # proofs
        pend = []
        folded = []
        for o in todo:
            if o[0] == "E" and o[2] == o[3]:
                folded.append((o[2], o[3]))
            elif o[0] == "T" and T.bval(o[2]) is True:
                folded.append(None)
            elif o[0] == "T" and T.bval(o[2]) is False:
                self.candidate(p, o[-1], None)
            else:
                pend.append(o)
        if folded and rawsmt.folded(folded) == "unsat":
            # both sides are the same term: one query for all of them, over the abstracted terms
            res["trivial"] += len(folded)
            res["proved"] += len(folded)
        if pend:
            self.prove_all(p, pend)
        self.definedness(p)

    def validate(self, p, todo):
        """runs the native program on a sample of this path and compares all checked quantities"""
        if not self.native or self.res["validated"] + self.res["mismatched"] >= self.opts.get("validate", 40):
            return
        T = self.T
        idx = np.flatnonzero(self.mask)
        mag = np.zeros(self.psize)
        for v, arr in self.pool.env.items():
            mag = np.maximum(mag, np.abs(np.log10(np.abs(arr) + 1e-9)))
        j = int(idx[np.argmin(mag[idx])])
        vals = self.model(p, ("E", ""), j)
        st, lines, err = native.run(self.native, self.entry, vals, p.choices, trace=True)
        nat = [l.split(" ") for l in lines if l.startswith("V ") or l.startswith("D ")]
        sym = [o for o in p.obl if o[0] in ("E", "L", "D") or o[0] == "T"]
        ok = st == "ok" and len(nat) == len(sym)
        if ok:
            for w, o in zip(nat, sym):
                if w[0] == "D":
                    if o[1] != w[1] or o[0] != "D":
                        ok = False
                        break
                    x = float(w[3])
                    y = float(self.pool.ev(self.tau0(o[2]))[j])
                elif o[0] in ("E", "L"):
                    if o[1] != w[1]:
                        ok = False
                        break
                    x, y = float(w[2]), float(self.pool.ev(o[2])[j])
                else:
                    continue
                if not (abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))) and not (x != x and y != y):
                    ok = False
                    self.log(f"    trace mismatch {o[1]}: native {x!r} symbolic {y!r}")
                    break
        else:
            self.log(f"    trace mismatch: {st} {len(nat)} {len(sym)} {err[:200]}")
        self.res["validated" if ok else "mismatched"] += 1

    def numeric_fail(self, o, mask):
        T = self.T
        if o[0] in ("E", "L"):
            a, b = self.pool.ev(o[2]), self.pool.ev(o[3])
            with np.errstate(all="ignore"):
                d = np.abs(a - b)
                if o[0] == "E":
                    tol = 1e-6 * (1 + np.abs(a) + np.abs(b))
                else:
                    tol = self.pool.ev(o[4]) * (1 + 1e-6) + 1e-12 * (1 + np.abs(a) + np.abs(b))
                bad = mask & ~(d <= tol)
                if not bad.any():
                    return [], 0
                fin = bad & np.isfinite(d)
                if fin.any():
                    # prefer moderate magnitudes: rounding noise is relative to intermediate size
                    mag = np.zeros(self.psize)
                    for v, arr in self.pool.env.items():
                        mag = np.maximum(mag, np.abs(arr))
                    order = np.where(fin, np.minimum(d / tol, 1e6), 0) / (1 + mag) ** 2
                    js = [int(j) for j in np.argsort(-order)[:12] if fin[j] and self.exact_differs(o, int(j))]
                    return js[:6], (float(order[js[0]]) if js else 0)
                return [int(j) for j in np.flatnonzero(bad)[:6]], 1.0
        if self.has_bv(o[2]):
            return [], 0
        m = self.nmask(o[2])
        bad = mask & ~m
        js = [int(j) for j in np.flatnonzero(bad)[:12] if self.exact_truth(o[2], int(j)) is False]
        return js[:6], 1.0

    # exact(ish) evaluation of one sample with 60 digits
    def mp_env(self, j, roots):
        import mpmath

        mpmath.mp.dps = 60
        T = self.T
        val = {}
        pt = self.pool.point(j, [v for v in T.vars_of(roots) if T.op[v] == "var"])
        mp = mpmath
        for n in T.cone(roots):
            op, a = T.op[n], T.args[n]
            try:
                if op == "const":
                    v = a[0]
                    val[n] = mp.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mp.mpf(v)
                elif op == "pi":
                    val[n] = +mp.pi
                elif op == "var":
                    val[n] = mp.mpf(pt[n].numerator) / pt[n].denominator
                elif op == "bconst":
                    val[n] = a[0]
                elif op == "add":
                    val[n] = val[a[0]] + val[a[1]]
                elif op == "sub":
                    val[n] = val[a[0]] - val[a[1]]
                elif op == "mul":
                    val[n] = val[a[0]] * val[a[1]]
                elif op == "div":
                    val[n] = val[a[0]] / val[a[1]] if val[a[1]] != 0 else mp.nan
                elif op == "neg":
                    val[n] = -val[a[0]]
                elif op == "sqrt":
                    val[n] = mp.sqrt(val[a[0]]) if val[a[0]] >= 0 else mp.nan
                elif op == "ln":
                    val[n] = mp.log(val[a[0]]) if val[a[0]] > 0 else mp.nan
                elif op in ("acos", "asin"):
                    val[n] = getattr(mp, op)(val[a[0]]) if abs(val[a[0]]) <= 1 else mp.nan
                elif op in ("sin", "cos", "tan", "exp", "atan", "tanh", "floor", "ceil"):
                    val[n] = getattr(mp, op)(val[a[0]])
                elif op == "atan2":
                    val[n] = mp.atan2(val[a[0]], val[a[1]])
                elif op == "pow":
                    val[n] = mp.power(val[a[0]], val[a[1]])
                elif op == "rlt":
                    val[n] = val[a[0]] < val[a[1]]
                elif op == "rle":
                    val[n] = val[a[0]] <= val[a[1]]
                elif op == "req":
                    val[n] = val[a[0]] == val[a[1]]
                elif op == "not":
                    val[n] = not val[a[0]]
                elif op == "and":
                    val[n] = val[a[0]] and val[a[1]]
                elif op == "xor":
                    val[n] = bool(val[a[0]]) != bool(val[a[1]])
                elif op == "rite":
                    val[n] = val[a[1]] if val[a[0]] else val[a[2]]
                else:
                    return None
            except (ValueError, ZeroDivisionError):
                val[n] = mp.nan
        return val

    def exact_facts(self, j):
        rf = [f for f in self.cur.facts if not self.has_bv(f)]
        if not rf:
            return True
        val = self.mp_env(j, rf)
        if val is None or not all(val[f] for f in rf):
            return False
        # a point within rounding distance of a branch boundary says nothing
        T = self.T
        for n in T.cone(rf):
            if T.op[n] in ("rlt", "rle", "req"):
                a, b = val[T.args[n][0]], val[T.args[n][1]]
                d = abs(a - b)
                if 0 < d < 1e-22 + 1e-13 * max(abs(a), abs(b)):
                    return False
        return True

    def exact_differs(self, o, j):
        if not self.exact_facts(j):
            return False
        roots = [o[2], o[3]] + ([o[4]] if o[0] == "L" else [])
        val = self.mp_env(j, roots)
        if val is None:
            return True
        a, b = val[o[2]], val[o[3]]
        import mpmath

        if mpmath.isnan(a) or mpmath.isnan(b):
            return True
        if o[0] == "L":
            return abs(a - b) > val[o[4]]
        return abs(a - b) > 1e-7 * (1 + abs(a) + abs(b))

    def exact_truth(self, n, j):
        if not self.exact_facts(j):
            return None
        val = self.mp_env(j, [n])
        return None if val is None else bool(val[n])

    def prove_all(self, p, pend):
        T, res = self.T, self.res
        rfacts = [f for f in p.facts if not self.has_bv(f)]
        real = [o for o in pend if not (o[0] == "T" and self.has_bv(o[2]))]
        for o in pend:
            if o in real:
                continue
            r = rawsmt.prove(T, p.facts, o[2], self.opts.get("bv_s", 60))
            if r == "unsat":
                res["proved"] += 1
            elif r == "sat":
                self.candidate(p, o[-1], None)
            else:
                res["undecided"].append(dict(what="solver gave no answer", label=o[1]))
        left = self.sweep(p, real)
        plans = [(p.cuts, 25, 6000), ((), 40, 20000)] if p.cuts else [((), 40, 8000)]
        for cuts, secs, mt in plans:
            left = self.attempt(p, rfacts, left, cuts, secs * self.opts.get("scale", 1), mt)
            if not left:
                return
        for o in left:
            self.counterexample(p, o)
            self.reduced(p, rfacts, o)

    def counterexample(self, p, o):
        """asks the solver for inputs that violate an obligation it could not prove"""
        T = self.T
        if o[0] != "T" and self.mask.any() and self.wbudget > 0 and not any(self.has_bv(f) for f in p.facts):
            t = time.time()
            got = witness.climb(self, p, [self.tau0(f) for f in p.facts], o)
            self.wbudget -= time.time() - t
            if got:
                self.refresh(p)
                js, _ = self.numeric_fail(o, self.mask)
                if js:
                    self.candidate(p, o[-1], js)
        if o[0] == "T":
            goal = T.not_(o[2])
        else:
            tol = o[4] if o[0] == "L" else T.const(Fraction(1, 1000))
            d = T.sub(o[2], o[3])
            goal = T.or_(T.cmp("lt", tol, d), T.cmp("lt", d, T.neg(tol)))
        k = self.witness(p, self.tau0(goal))
        if k is not None:
            js, _ = self.numeric_fail(o, self.mask)
            if js:
                self.candidate(p, o[-1], js)

    def sweep(self, p, obs):
        """merges inner terms of large equalities; returns the obligations left, over the merged terms"""
        T, res = self.T, self.res
        eqs = [o for o in obs if o[0] in "EL"]
        if not eqs or not self.opts.get("sweep", True):
            return obs
        roots = [x for o in eqs for x in o[2:-1]]
        cone = len(T.cone(roots))
        if cone < self.opts.get("sweep_min", 300) or cone > 60000:
            return obs
        t0 = time.time()
        sph = [[T.var(f"{label}_{i}") for i in range(k)] for label, k in self.spheres.items()]
        sw = sweep.Sweep(T, self.pool.env, self.pool.cache, self.psize, self.mask, sph, self.opts.get("sweep_s", 30) * self.opts.get("scale", 1), self.log)
        nr = len(roots)
        out = sw.run(roots + list(p.cuts))
        if out is not None:
            p.cuts = list(dict.fromkeys(x for x in out[nr:] if T.cval(x) is None)) if hasattr(T, "cval") else list(dict.fromkeys(out[nr:]))
            out = out[:nr]
        if out is None:
            self.log("    sweep: a certificate failed")
            return obs
        m = dict(zip(roots, out))
        left = []
        done = 0
        for o in obs:
            if o[0] in "EL":
                o = (o[0], o[1]) + tuple(m[x] for x in o[2:-1]) + (o[-1],)
                if o[2] == o[3]:
                    done += 1
                    continue
            left.append(o)
        res["proved"] += done
        res["axioms"] |= sw.axioms
        res["merges"] = res.get("merges", 0) + sw.merges
        self.log(f"    sweep: {cone} -> {len(T.cone(out))} terms, {sw.merges} merged of {sw.tries}, {done} obligations closed, {len(left)} left, {time.time() - t0:.1f} s")
        return left

    def attempt(self, p, facts, obs, cuts, secs, max_terms, note=None):
        """tries to prove the obligations with one prover; returns those left"""
        res = self.res
        for _ in range(8):
            try:
                pr = self.new_prover(p, list(facts), self.mask, cuts, time.time() + secs, max_terms)
                done, left = [], []
                bounds = None
                for o in obs:
                    ok = False
                    try:
                        pr.R.deadline = time.time() + secs
                        if o[0] == "E":
                            d = pr.R.sub(pr.rf(o[2]), pr.rf(o[3]))
                            ok = pr.R.is_zero(d)
                            if not ok:
                                ok = pr.refute([f"(not (= {pr.smt_poly(d.num)} 0.0))"], pr.atoms_of(d.num), min(10, secs)) == "unsat" if len(d.num) < 200 else False
                        elif o[0] == "L":
                            dn = pr.R.sub(pr.rf(o[2]), pr.rf(o[3]))
                            ok = pr.R.is_zero(dn)
                            if not ok:
                                if bounds is None:
                                    bounds = taylor.Taylor(pr)
                                bounds.tp.R.deadline = pr.R.deadline
                                ok = bounds.close(dn, pr.rf(o[4]))
                            d = self.T.sub(o[2], o[3])
                            g = self.T.and_(self.T.cmp("le", d, o[4]), self.T.cmp("le", self.T.neg(d), o[4]))
                            if not ok and self.opts.get("nra", True):
                                ok = pr.prove_bool(g, min(8, secs)) == "unsat"
                        else:
                            ok = pr.prove_bool(o[2], min(20, secs)) == "unsat"
                    except (GiveUp, NotImplementedError, RecursionError) as e:
                        self.log(f"    {o[1]}: {e}")
                        ok = False
                    (done if ok else left).append(o)
                if done and not pr.certify():
                    self.log("    certification failed")
                    res["errors"].append("certification of the algebra failed")
                    return obs
                res["proved"] += len(done)
                res["certified"] += pr.certified
                res["axioms"] |= pr.axioms_used
                if note:
                    for o in done:
                        res["reduced"].append(dict(label=o[1], pinned=note))
                return left
            except Refine as e:
                self.units[e.key] = e.den
        return obs

    def reduced(self, p, facts, o):
        """falls back to smaller bounds: pins groups of variables to concrete rational values"""
        T, res = self.T, self.res
        roots = [x for x in o[2:-1] if isinstance(x, int)]
        vs = [v for v in T.vars_of(roots + list(facts)) if T.op[v] == "var"]
        groups = {}
        for v in vs:
            groups.setdefault(self.pool.group(T.args[v][0]), []).append(v)
        idx = np.flatnonzero(self.mask)
        if not len(idx):
            res["undecided"].append(dict(what="not proved, no witness on the path", label=o[1]))
            return
        mag = np.zeros(self.psize)
        for v in vs:
            mag = np.maximum(mag, np.abs(np.log10(np.abs(self.pool.env[v]) + 1e-12)))
        idx = idx[np.argsort(mag[idx])]
        order = sorted(groups, key=lambda g: -len(groups[g]))
        save_s = dict(self.spheres)
        for keep in order:
            j = int(idx[0])
            pin = [v for g in order if g != keep for v in groups[g]]
            if not pin:
                continue
            pt = self.pool.point(j, pin)
            m = {v: T.const(pt[v].limit_denominator(64) if v not in self.pool.exact else pt[v]) for v in pin}
            nf = [f for f in T.subst(list(facts), m) if T.bval(f) is not True]
            nr = T.subst(roots, m)
            no = (o[0], o[1]) + tuple(nr) + (o[-1],)
            if T.false in nf:
                continue
            try:
                left = self.attempt(p, nf, [no], (), 30, 8000, note=f"all but {keep}")
            finally:
                self.spheres = save_s
            if not left:
                return
        res["undecided"].append(dict(what="not proved", label=o[1]))

    def definedness(self, p):
        """divisors and square-root arguments on the path"""
        T, res = self.T, self.res
        ds = {}
        alltau = {v: T.zero for v in self.pool.env if T.args[v][0].startswith("tau")}
        for n, k in p.divs:
            n = T.subst([n], alltau)[0] if alltau else n
            if T.cv(n) is None:
                ds[n] = "div"
        res["definedness"] += len(ds)
