"""Term table of the driver: hash-consed reals, booleans and bit-vectors, numeric evaluation, differentiation."""
import math
import struct
from fractions import Fraction

import numpy as np

PI = "pi"


def simplest_between(lo, hi):
    """simplest fraction in [lo, hi], 0 < lo <= hi (Stern-Brocot)"""
    fl = lo.numerator // lo.denominator
    if fl == lo or fl + 1 <= hi:
        return Fraction(fl) if fl == lo else Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def rationalize(x):
    """The simplest rational that rounds to the double x, if it is markedly simpler than x itself."""
    if x == 0:
        return Fraction(0)
    f = Fraction(x)
    if f.denominator <= 1 << 20:
        return f
    s = 1 if x > 0 else -1
    a = abs(x)
    up = math.nextafter(a, math.inf)
    dn = math.nextafter(a, 0.0)
    fa = abs(f)
    hi = (fa + Fraction(up)) / 2
    lo = (fa + Fraction(dn)) / 2
    q = simplest_between(lo, hi)
    if q.numerator * q.denominator < 1 << 44:
        return s * q
    return f


class Terms:
    def __init__(self):
        self.op = []
        self.args = []
        self.sort = []  # 'R','B', or int width
        self.memo = {}
        self.zero = self.const(Fraction(0))
        self.one = self.const(Fraction(1))
        self.true = self.mk("bconst", (True,), "B")
        self.false = self.mk("bconst", (False,), "B")

    def mk(self, op, args, sort):
        k = (op, args, sort)
        i = self.memo.get(k)
        if i is None:
            i = len(self.op)
            self.memo[k] = i
            self.op.append(op)
            self.args.append(args)
            self.sort.append(sort)
        return i

    # ---- reals
    def const(self, f):
        if not isinstance(f, (Fraction, str)):
            f = Fraction(f)
        return self.mk("const", (f,), "R")

    def fconst(self, x):
        if math.isnan(x):
            return self.mk("const", ("nan",), "R")
        if math.isinf(x):
            return self.mk("const", ("inf" if x > 0 else "-inf",), "R")
        # multiples of pi
        if x != 0:
            q = x / math.pi
            f = Fraction(q).limit_denominator(64)
            if f != 0 and float(f) * math.pi == x or (f != 0 and abs(float(f) * math.pi - x) <= abs(x) * 2.3e-16):
                if Fraction(x).denominator > 1 << 20:
                    return self.mul(self.const(f), self.pi())
        return self.const(rationalize(x))

    def pi(self):
        return self.mk("pi", (), "R")

    def var(self, name):
        return self.mk("var", (name,), "R")

    def cv(self, n):
        if self.op[n] == "const":
            v = self.args[n][0]
            return v if isinstance(v, Fraction) else None
        return None

    def add(self, a, b):
        x, y = self.cv(a), self.cv(b)
        if x is not None and y is not None:
            return self.const(x + y)
        if x == 0:
            return b
        if y == 0:
            return a
        if self.op[a] == "neg" and self.args[a][0] == b or self.op[b] == "neg" and self.args[b][0] == a:
            return self.zero
        if a > b:
            a, b = b, a
        return self.mk("add", (a, b), "R")

    def sub(self, a, b):
        if a == b:
            return self.zero
        x, y = self.cv(a), self.cv(b)
        if x is not None and y is not None:
            return self.const(x - y)
        if y == 0:
            return a
        if x == 0:
            return self.neg(b)
        return self.mk("sub", (a, b), "R")

    def neg(self, a):
        x = self.cv(a)
        if x is not None:
            return self.const(-x)
        if self.op[a] == "neg":
            return self.args[a][0]
        return self.mk("neg", (a,), "R")

    def mul(self, a, b):
        x, y = self.cv(a), self.cv(b)
        if x is not None and y is not None:
            return self.const(x * y)
        if x == 0 or y == 0:
            return self.zero
        if x == 1:
            return b
        if y == 1:
            return a
        if x == -1:
            return self.neg(b)
        if y == -1:
            return self.neg(a)
        if a > b:
            a, b = b, a
        return self.mk("mul", (a, b), "R")

    def div(self, a, b):
        x, y = self.cv(a), self.cv(b)
        if y == 1:
            return a
        if x is not None and y is not None and y != 0:
            return self.const(x / y)
        if x == 0 and y is None:
            return self.zero
        if y is not None and y != 0:
            return self.mul(a, self.const(1 / y))
        return self.mk("div", (a, b), "R")

    def fun(self, f, *a):
        if f == "add":
            return self.add(*a)
        if f == "sub":
            return self.sub(*a)
        if f == "mul":
            return self.mul(*a)
        if f == "div":
            return self.div(*a)
        if f == "neg":
            return self.neg(*a)
        if len(a) == 1:
            x = self.cv(a[0])
            if x is not None:
                if x == 0:
                    if f in ("sin", "sqrt", "tan", "atan", "asin"):
                        return self.zero
                    if f in ("cos", "exp"):
                        return self.one
                if f == "sqrt" and x >= 0:
                    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                    if n * n == x.numerator and d * d == x.denominator:
                        return self.const(Fraction(n, d))
                if f == "ln" and x == 1:
                    return self.zero
        return self.mk(f, tuple(a), "R")

    # ---- booleans
    def bconst(self, b):
        return self.true if b else self.false

    def bval(self, n):
        return self.args[n][0] if self.op[n] == "bconst" else None

    def cmp(self, f, a, b):
        x, y = self.cv(a), self.cv(b)
        if x is not None and y is not None:
            return self.bconst(x < y if f == "lt" else x <= y if f == "le" else x == y)
        if a == b:
            return self.bconst(f != "lt")
        return self.mk("r" + f, (a, b), "B")

    def not_(self, a):
        v = self.bval(a)
        if v is not None:
            return self.bconst(not v)
        if self.op[a] == "not":
            return self.args[a][0]
        return self.mk("not", (a,), "B")

    def and_(self, a, b):
        x, y = self.bval(a), self.bval(b)
        if x is False or y is False:
            return self.false
        if x is True:
            return b
        if y is True or a == b:
            return a
        return self.mk("and", (a, b), "B")

    def or_(self, a, b):
        return self.not_(self.and_(self.not_(a), self.not_(b)))

    def xor_(self, a, b):
        x, y = self.bval(a), self.bval(b)
        if x is not None:
            return self.not_(b) if x else b
        if y is not None:
            return self.not_(a) if y else a
        return self.mk("xor", (a, b), "B")

    # ---- traversal
    def cone(self, roots):
        seen = set()
        st = [r for r in roots]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if self.op[n] in ("const", "var", "pi", "bconst", "bvvar", "bvconst"):
                continue
            st.extend(self.kids(n))
        return sorted(seen)

    def kids(self, n):
        op = self.op[n]
        a = self.args[n]
        if op in ("const", "var", "pi", "bconst", "bvvar", "bvconst"):
            return ()
        if op in ("zext", "sext", "rfrombv"):
            return (a[1],)
        if op == "extract":
            return (a[2],)
        if op == "bv":
            return a[1:]
        if op == "bvcmp":
            return a[1:]
        return a

    def vars_of(self, roots):
        return [n for n in self.cone(roots) if self.op[n] in ("var", "bvvar")]

    # ---- substitution of reals
    def subst(self, roots, m, cache=None):
        cache = {} if cache is None else cache
        for n in self.cone(roots):
            if n in cache:
                continue
            if n in m:
                cache[n] = m[n]
                continue
            op, a = self.op[n], self.args[n]
            if op in ("const", "var", "pi", "bconst", "bvvar", "bvconst"):
                cache[n] = n
                continue
            ks = self.kids(n)
            nk = tuple(cache[k] for k in ks)
            if nk == ks:
                cache[n] = n
                continue
            if self.sort[n] == "R" and op not in ("rite", "rfrombv"):
                cache[n] = self.fun(op, *nk)
            elif op in ("rlt", "rle", "req"):
                cache[n] = self.cmp(op[1:], *nk)
            elif op == "not":
                cache[n] = self.not_(*nk)
            elif op == "and":
                cache[n] = self.and_(*nk)
            elif op == "xor":
                cache[n] = self.xor_(*nk)
            elif op == "rite":
                v = self.bval(nk[0])
                cache[n] = self.mk("rite", nk, "R") if v is None else (nk[1] if v else nk[2])
            else:
                cache[n] = n  # bit-vector terms do not contain reals
        return [cache[r] for r in roots]

    # ---- differentiation
    def diff(self, roots, var):
        d = {}
        for n in self.cone(roots):
            if self.sort[n] != "R":
                continue
            op, a = self.op[n], self.args[n]
            if n == var:
                d[n] = self.one
            elif op in ("const", "var", "pi", "rfrombv"):
                d[n] = self.zero
            elif op == "add":
                d[n] = self.add(d[a[0]], d[a[1]])
            elif op == "sub":
                d[n] = self.sub(d[a[0]], d[a[1]])
            elif op == "neg":
                d[n] = self.neg(d[a[0]])
            elif op == "mul":
                d[n] = self.add(self.mul(d[a[0]], a[1]), self.mul(a[0], d[a[1]]))
            elif op == "div":
                x, y = a
                dx, dy = d[x], d[y]
                if dy == self.zero:
                    d[n] = self.div(dx, y) if dx != self.zero else self.zero
                else:
                    d[n] = self.div(self.sub(self.mul(dx, y), self.mul(x, dy)), self.mul(y, y))
            else:
                ds = [d[k] for k in a]
                if all(z == self.zero for z in ds):
                    d[n] = self.zero
                    continue
                if op == "sqrt":
                    d[n] = self.div(ds[0], self.mul(self.const(2), n))
                elif op == "sin":
                    d[n] = self.mul(ds[0], self.fun("cos", a[0]))
                elif op == "cos":
                    d[n] = self.neg(self.mul(ds[0], self.fun("sin", a[0])))
                elif op == "tan":
                    d[n] = self.mul(ds[0], self.add(self.one, self.mul(n, n)))
                elif op == "exp":
                    d[n] = self.mul(ds[0], n)
                elif op == "ln":
                    d[n] = self.div(ds[0], a[0])
                elif op == "atan2":
                    y, x = a
                    d[n] = self.div(
                        self.sub(self.mul(x, ds[0]), self.mul(y, ds[1])),
                        self.add(self.mul(x, x), self.mul(y, y)),
                    )
                elif op == "atan":
                    d[n] = self.div(ds[0], self.add(self.one, self.mul(a[0], a[0])))
                elif op == "acos":
                    d[n] = self.neg(self.div(ds[0], self.fun("sqrt", self.sub(self.one, self.mul(a[0], a[0])))))
                elif op == "asin":
                    d[n] = self.div(ds[0], self.fun("sqrt", self.sub(self.one, self.mul(a[0], a[0]))))
                else:
                    raise NotImplementedError("derivative of " + op)
        return [d[r] for r in roots]

    # ---- numeric evaluation on a batch of samples: env maps var node -> array
    def evaluate(self, roots, env, cache, size):
        with np.errstate(all="ignore"):
            for n in self.cone_uncached(roots, cache):
                op, a = self.op[n], self.args[n]
                if op == "const":
                    v = a[0]
                    cache[n] = np.full(size, float(v))
                elif op == "pi":
                    cache[n] = np.full(size, math.pi)
                elif op in ("var", "bvvar"):
                    cache[n] = env[n]
                elif op == "bconst":
                    cache[n] = np.full(size, a[0])
                else:
                    cache[n] = self.ev1(n, op, a, cache)
        return [cache[r] for r in roots]

    def cone_uncached(self, roots, cache):
        seen = set()
        st = [r for r in roots if r not in cache]
        while st:
            n = st.pop()
            if n in seen or n in cache:
                continue
            seen.add(n)
            st.extend(k for k in self.kids(n) if k not in cache)
        return sorted(seen)

    def ev1(self, n, op, a, c):
        if op == "add":
            return c[a[0]] + c[a[1]]
        if op == "sub":
            return c[a[0]] - c[a[1]]
        if op == "mul":
            return c[a[0]] * c[a[1]]
        if op == "div":
            return c[a[0]] / c[a[1]]
        if op == "neg":
            return -c[a[0]]
        if op == "sqrt":
            return np.sqrt(c[a[0]])
        if op == "sin":
            return np.sin(c[a[0]])
        if op == "cos":
            return np.cos(c[a[0]])
        if op == "tan":
            return np.tan(c[a[0]])
        if op == "exp":
            return np.exp(c[a[0]])
        if op == "ln":
            return np.log(c[a[0]])
        if op == "atan2":
            return np.arctan2(c[a[0]], c[a[1]])
        if op == "atan":
            return np.arctan(c[a[0]])
        if op == "acos":
            return np.arccos(c[a[0]])
        if op == "asin":
            return np.arcsin(c[a[0]])
        if op == "pow":
            return np.power(c[a[0]], c[a[1]])
        if op in ("floor", "ceil", "trunc", "tanh", "sinh", "cosh", "cbrt"):
            return getattr(np, op)(c[a[0]])
        if op == "round":
            x = c[a[0]]
            return np.trunc(x + np.copysign(0.5, x))
        if op == "rite":
            return np.where(c[a[0]], c[a[1]], c[a[2]])
        if op == "rlt":
            return c[a[0]] < c[a[1]]
        if op == "rle":
            return c[a[0]] <= c[a[1]]
        if op == "req":
            return c[a[0]] == c[a[1]]
        if op == "not":
            return ~c[a[0]]
        if op == "and":
            return c[a[0]] & c[a[1]]
        if op == "xor":
            return c[a[0]] ^ c[a[1]]
        raise NotImplementedError("evaluate " + op)


def f64(bits_hex):
    return struct.unpack(">d", bytes.fromhex(bits_hex))[0]
