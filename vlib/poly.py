"""Normal forms: rational functions over atoms, modulo oriented square rules (s*s -> t).

Every algebraic step that is not a plain copy is recorded as a polynomial identity ("claim")
    sum_j  coef_j * prod_k P_jk  ==  0        in the free polynomial ring over the atoms,
where products with (s*s - t) stand for the use of a rule.  prove.py has z3 discharge every claim.
"""
from math import gcd

W = 10  # bits per exponent, the top one is a guard
FIELD = (1 << W) - 1


class GiveUp(Exception):
    pass


class Ring:
    def __init__(self, max_terms=6000, certify=True):
        self.names = []  # atom index -> printable name
        self.kind = []
        self.info = []
        self.rules = {}  # atom -> rhs poly
        self.redmask = 0
        self.guard = 0
        self.claims = []
        self.certify = certify
        self.max_terms = max_terms
        self.factors = []  # fid -> poly
        self.fid = {}
        self.fatom = {}  # fid -> atom if the factor is one atom
        self.ops = 0
        self.deadline = None

    # ---------------- atoms
    def atom(self, name, kind, info=None):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.info.append(info)
        self.guard |= 1 << (W * i + W - 1)
        return i

    def mono(self, i, e=1):
        return e << (W * i)

    def add_rule(self, i, rhs):
        self.rules[i] = rhs
        self.redmask |= ((FIELD ^ (1 << (W - 1))) & ~1) << (W * i)

    def exps(self, m):
        i = 0
        while m:
            e = m & FIELD
            if e:
                yield i, e
            m >>= W
            i += 1

    # ---------------- polynomials: dict mono -> int
    def padd(self, a, b, ca=1, cb=1):
        if ca == 1:
            r = dict(a)
        else:
            r = {m: ca * c for m, c in a.items()}
        for m, c in b.items():
            v = r.get(m, 0) + cb * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pscale(self, a, k):
        return {m: c * k for m, c in a.items()} if k != 1 else a

    def free_mul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        self.ops += len(a) * len(b)
        if len(a) * len(b) > 4_000_000:
            raise GiveUp("product too large")
        if len(a) == 1:
            ((m, c),) = a.items()
            if m == 0 and c == 1:
                return dict(b)
            return {k + m: v * c for k, v in b.items()}
        r = {}
        get = r.get
        bi = list(b.items())
        for m, c in a.items():
            for k, v in bi:
                x = m + k
                r[x] = get(x, 0) + c * v
        return {k: v for k, v in r.items() if v}

    def reduce(self, P, cof=None):
        """reduces P by the rules in place; cofactors are added to cof"""
        red = self.redmask
        if not red:
            return P
        import time
        while True:
            bad = [m for m in P if m & red]
            if not bad:
                return P
            if self.deadline and time.time() > self.deadline:
                raise GiveUp("time")
            for m in bad:
                c = P.pop(m, 0)
                if not c:
                    continue
                # highest reducible atom
                top = ((m & red).bit_length() - 1) // W
                rest = m - (2 << (W * top))
                if cof is not None:
                    d = cof.setdefault(top, {})
                    v = d.get(rest, 0) + c
                    if v:
                        d[rest] = v
                    else:
                        d.pop(rest, None)
                for k, v in self.rules[top].items():
                    x = rest + k
                    w = P.get(x, 0) + c * v
                    if w:
                        P[x] = w
                    else:
                        P.pop(x, None)
                self.ops += len(self.rules[top])
            if len(P) > 4 * self.max_terms:
                raise GiveUp("polynomial too large")

    def combine(self, parts):
        """parts: list of (coef, [polys]); returns the reduced sum of products and records the claim"""
        acc = {}
        triv = True
        for k, ps in parts:
            if len(ps) == 1:
                p = ps[0]
            else:
                p = ps[0]
                for q in ps[1:]:
                    if len(p) > 1 and len(q) > 1:
                        triv = False
                    p = self.free_mul(p, q)
            if acc:
                for m, c in p.items():
                    v = acc.get(m, 0) + k * c
                    if v:
                        acc[m] = v
                    else:
                        acc.pop(m, None)
            else:
                acc = {m: k * c for m, c in p.items()}
        cof = {} if self.certify else None
        self.reduce(acc, cof)
        if len(acc) > self.max_terms:
            raise GiveUp("polynomial too large")
        if self.certify and (not triv or cof or len(parts) > 1):
            cl = list(parts) + [(-1, [acc])]
            for s, c in cof.items():
                if c:
                    cl.append((-1, [c, self.padd({2 << (W * s): 1}, self.rules[s], 1, -1)]))
            self.claims.append(cl)
        return acc

    # ---------------- factors of denominators
    def factor_id(self, p):
        """p primitive with positive leading coefficient"""
        key = frozenset(p.items())
        f = self.fid.get(key)
        if f is None:
            f = len(self.factors)
            self.fid[key] = f
            self.factors.append(p)
            if len(p) == 1:
                ((m, c),) = p.items()
                if c == 1:
                    ex = list(self.exps(m))
                    if len(ex) == 1 and ex[0][1] == 1:
                        self.fatom[f] = ex[0][0]
        return f

    def content(self, p):
        g = 0
        for c in p.values():
            g = gcd(g, c)
            if g == 1:
                break
        return g

    def mono_content(self, p):
        """largest monomial dividing p"""
        it = iter(p)
        m0 = next(it)
        ex = dict(self.exps(m0))
        for m in it:
            if not ex:
                return 0
            for i in list(ex):
                e = (m >> (W * i)) & FIELD
                if e == 0:
                    del ex[i]
                elif e < ex[i]:
                    ex[i] = e
        return sum(e << (W * i) for i, e in ex.items())

    def exact_div(self, n, f):
        """n / f in the free ring, or None"""
        lm = max(f)
        lc = f[lm]
        g = self.guard
        if len(f) == 1:
            r = {}
            for m, c in n.items():
                if ((m | g) - lm) & g != g or c % lc:
                    return None
                r[m - lm] = c // lc
            return r
        # cheap tests: extreme monomials must divide
        mx = max(n)
        if ((mx | g) - lm) & g != g or n[mx] % lc:
            return None
        mn, fm = min(n), min(f)
        if ((mn | g) - fm) & g != g or n[mn] % f[fm]:
            return None
        import heapq
        n = dict(n)
        heap = [-m for m in n]
        heapq.heapify(heap)
        q = {}
        fi = [(m, c) for m, c in f.items() if m != lm]
        steps = 0
        while heap:
            m = -heapq.heappop(heap)
            c = n.pop(m, 0)
            if not c:
                continue
            if ((m | g) - lm) & g != g or c % lc:
                return None
            qm, qc = m - lm, c // lc
            q[qm] = qc
            steps += len(fi)
            if steps > 400_000:
                return None
            for k, v in fi:
                x = qm + k
                o = n.get(x)
                if o is None:
                    n[x] = -qc * v
                    heapq.heappush(heap, -x)
                else:
                    n[x] = o - qc * v
        self.ops += steps
        return q

    def split_factors(self, p):
        """p -> (int const with sign, {fid: e}) with p == const * prod factors (claims recorded)"""
        c = self.content(p)
        if p[max(p)] < 0:
            c = -c
        fs = {}
        mc = self.mono_content(p)
        q = p
        if c != 1 or mc:
            q = {m - mc: v // c for m, v in p.items()}
        for i, e in self.exps(mc):
            fs[self.factor_id({self.mono(i): 1})] = e
        # known factors
        if len(q) > 1:
            for f in range(len(self.factors)):
                if f in self.fatom:
                    continue
                fp = self.factors[f]
                while len(q) >= len(fp) and len(q) > 1:
                    d = self.exact_div(q, fp)
                    if d is None:
                        break
                    fs[f] = fs.get(f, 0) + 1
                    if self.certify and len(d) > 1:
                        self.claims.append([(1, [q]), (-1, [fp, d])])
                    q = d
        if len(q) == 1:
            ((m, v),) = q.items()
            assert m == 0 and abs(v) == 1 or True
            c *= v
            for i, e in self.exps(m):
                f = self.factor_id({self.mono(i): 1})
                fs[f] = fs.get(f, 0) + e
        else:
            if q[max(q)] < 0:
                q = {m: -v for m, v in q.items()}
                c = -c
            f = self.factor_id(q)
            fs[f] = fs.get(f, 0) + 1
        return c, fs

    # ---------------- rational functions
    def rf_poly(self, p):
        return RF(p, 1, {})

    def rf_const(self, f):
        if f == 0:
            return RF({}, 1, {})
        return RF({0: f.numerator}, f.denominator, {})

    def rf_atom(self, i):
        return RF({self.mono(i): 1}, 1, {})

    def norm(self, num, dc, df):
        """cancels common content, atoms and known factors"""
        if not num:
            return RF({}, 1, {})
        g = gcd(self.content(num), dc)
        if g > 1:
            num = {m: c // g for m, c in num.items()}
            dc //= g
        if df:
            df = dict(df)
            # squares of rule atoms in the denominator become their right-hand side
            for f in list(df):
                a = self.fatom.get(f)
                if a is not None and a in self.rules and df.get(f, 0) >= 2:
                    k = df[f] // 2
                    df[f] -= 2 * k
                    if not df[f]:
                        del df[f]
                    c, fs = self.split_factors(self.rules[a])
                    # a^2k == (c * prod fs)^k
                    ck = c**k
                    if ck < 0:
                        num = {m: -v for m, v in num.items()}
                        ck = -ck
                    dc *= ck
                    for h, e in fs.items():
                        df[h] = df.get(h, 0) + e * k
                    return self.norm(num, dc, df)
            for f in list(df):
                fp = self.factors[f]
                while df.get(f):
                    if len(fp) > len(num) or len(num) > 4000:
                        break
                    q = self.exact_div(num, fp)
                    if q is None:
                        break
                    if self.certify and len(fp) > 1:
                        self.claims.append([(1, [num]), (-1, [fp, q])])
                    num = q
                    df[f] -= 1
                    if not df[f]:
                        del df[f]
        return RF(num, dc, df)

    def fprod(self, fs):
        return [self.factors[f] for f, e in fs.items() for _ in range(e)]

    def add(self, a, b, sign=1):
        if not a.num:
            return b if sign == 1 else self.neg(b)
        if not b.num:
            return a
        if a.df == b.df:
            F = a.df
            ga = gb = {}
        else:
            F = dict(a.df)
            for f, e in b.df.items():
                if F.get(f, 0) < e:
                    F[f] = e
            ga = {f: e - a.df.get(f, 0) for f, e in F.items() if e > a.df.get(f, 0)}
            gb = {f: e - b.df.get(f, 0) for f, e in F.items() if e > b.df.get(f, 0)}
        g = gcd(a.dc, b.dc)
        dc = a.dc // g * b.dc
        if not ga and not gb:
            n = self.padd(a.num, b.num, dc // a.dc, sign * (dc // b.dc))
            if len(n) > self.max_terms:
                raise GiveUp("polynomial too large")
            if self.certify:
                self.claims.append([(dc // a.dc, [a.num]), (sign * (dc // b.dc), [b.num]), (-1, [n])])
        else:
            n = self.combine(
                [
                    (dc // a.dc, [a.num] + self.fprod(ga)),
                    (sign * (dc // b.dc), [b.num] + self.fprod(gb)),
                ]
            )
        return self.norm(n, dc, F)

    def sub(self, a, b):
        return self.add(a, b, -1)

    def neg(self, a):
        return RF({m: -c for m, c in a.num.items()}, a.dc, a.df)

    def mul(self, a, b):
        if not a.num or not b.num:
            return RF({}, 1, {})
        an, bn = a.num, b.num
        adf, bdf = a.df, b.df
        # cancel across before multiplying
        if bdf:
            t = self.norm(an, 1, bdf)
            if t.df != bdf and t.dc == 1:
                an, bdf = t.num, t.df
        if adf:
            t = self.norm(bn, 1, adf)
            if t.df != adf and t.dc == 1:
                bn, adf = t.num, t.df
        df = dict(adf)
        for f, e in bdf.items():
            df[f] = df.get(f, 0) + e
        n = self.combine([(1, [an, bn])])
        return self.norm(n, a.dc * b.dc, df)

    def inv(self, a):
        if not a.num:
            raise GiveUp("division by zero")
        c, fs = self.split_factors(a.num)
        num = {0: a.dc if c > 0 else -a.dc}
        ps = self.fprod(a.df)
        if ps:
            num = self.combine([(1, [num] + ps)])
        return self.norm(num, abs(c), fs)

    def div(self, a, b):
        if not a.num:
            return a
        return self.mul(a, self.inv(b))

    def powi(self, a, k):
        r = self.rf_const_int(1)
        for _ in range(k):
            r = self.mul(r, a)
        return r

    def rf_const_int(self, k):
        return RF({0: k} if k else {}, 1, {})

    def is_zero(self, a):
        return not a.num

    def show_poly(self, p):
        out = []
        for m, c in sorted(p.items(), reverse=True)[:40]:
            s = str(c)
            for i, e in self.exps(m):
                s += "*" + self.names[i] + (f"^{e}" if e > 1 else "")
            out.append(s)
        return " + ".join(out) + (" ..." if len(p) > 40 else "")

    def show(self, a):
        d = "*".join([str(a.dc)] + ["(" + self.show_poly(self.factors[f]) + f")^{e}" for f, e in a.df.items()])
        return f"[{self.show_poly(a.num)}] / {d}"


class RF:
    __slots__ = ("num", "dc", "df")

    def __init__(self, num, dc, df):
        self.num = num
        self.dc = dc
        self.df = df

    def key(self):
        return (frozenset(self.num.items()), self.dc, frozenset(self.df.items()))
