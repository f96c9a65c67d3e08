"""Sample pool that guides exploration and proposes counterexample candidates (never decides)."""
from fractions import Fraction

import numpy as np


class Pool:
    def __init__(self, T, size=1024, seed=1):
        self.T = T
        self.size = size
        self.rng = np.random.default_rng(seed)
        self.env = {}
        self.ranges = {}
        self.sphere_of = {}  # var name -> (label, n)
        self.exact = {}  # var node -> list of Fractions (spheres)
        self.scale = {}
        self.cache = {}

    def group(self, name):
        return name.rsplit("_", 1)[0] if "_" in name else name

    def add_var(self, v):
        if v in self.env:
            return
        name = self.T.args[v][0]
        n = self.size
        if name.startswith("tau"):
            self.env[v] = np.zeros(n)
            return
        if name in self.sphere_of:
            self.add_sphere(*self.sphere_of[name])
            return
        rng = self.rng
        u = rng.random(n)
        if v in self.ranges:
            lo, hi = self.ranges[v]
            x = lo + (hi - lo) * u
            # some samples close to the ends and to zero, on a log scale
            k = rng.random(n)
            w = (hi - lo) * 10.0 ** (-8 * rng.random(n))
            x = np.where(k < 0.12, lo + w, np.where(k < 0.24, hi - w, x))
            if lo < 0 < hi:
                x = np.where((k > 0.24) & (k < 0.36), np.where(u < 0.5, lo, hi) * 10.0 ** (-8 * rng.random(n)), x)
            # whole vectors close to zero
            g = self.group(name)
            if g != name and lo < 0 < hi:
                if g not in self.scale:
                    m = rng.random(n)
                    self.scale[g] = np.where(m < 0.75, 1.0, 10.0 ** (-5 * rng.random(n)))
                x = x * self.scale[g]
            x = np.clip(x, np.nextafter(lo, np.inf), np.nextafter(hi, -np.inf))
            # few digits keep the rationals small
            self.env[v] = x
            return
        g = self.group(name)
        if g not in self.scale:
            m = rng.random(n)
            sc = np.where(m < 0.55, 1.0, 10.0 ** (rng.random(n) * 11 - 9))
            self.scale[g] = np.where(m > 0.97, 0.0, sc)
        x = rng.normal(size=n) * 1.3
        z = rng.random(n)
        x = np.where(z < 0.06, 0.0, x)
        x = np.where((z > 0.94), np.round(x), x)
        x = x * self.scale[g]
        # keep values short: 24-bit mantissas give manageable rationals and exact products
        x = x.astype(np.float32).astype(np.float64)
        self.env[v] = x

    def add_sphere(self, label, k):
        n = self.size
        rng = self.rng
        vs = [self.T.var(f"{label}_{i}") for i in range(k)]
        if vs[0] in self.env:
            return
        # stereographic projection of short rationals: exactly unit rational points
        den = 64
        sc = np.where(rng.random(n) < 0.7, 1.2, 10.0 ** (-5 * rng.random(n)))
        t = rng.normal(size=(k - 1, n)) * sc
        zero = rng.random((k - 1, n)) < 0.05
        t[zero] = 0
        den = np.where(sc < 0.1, 2.0**24, 64.0)
        ti = np.round(t * den).astype(np.int64)
        di = den.astype(np.int64)
        flip = rng.random(n) < 0.5
        perm = rng.integers(0, k, n)
        ex = [[None] * n for _ in range(k)]
        for j in range(n):
            ts = [Fraction(int(a), int(di[j])) for a in ti[:, j]]
            s2 = sum(a * a for a in ts)
            q = [2 * a / (1 + s2) for a in ts] + [(1 - s2) / (1 + s2)]
            if rng.random() < 0.3:
                p = int(perm[j])
                q = q[p:] + q[:p]
            if flip[j]:
                q = [-a for a in q]
            for i in range(k):
                ex[i][j] = q[i]
        for i, v in enumerate(vs):
            self.exact[v] = ex[i]
            self.env[v] = np.array([float(a) for a in ex[i]])

    def declare_sphere(self, label, k):
        for i in range(k):
            self.sphere_of[f"{label}_{i}"] = (label, k)

    def point(self, j, vars_):
        """exact rational values of sample j"""
        return {v: (self.exact[v][j] if v in self.exact else Fraction(float(self.env[v][j]))) for v in vars_}

    def ev(self, n):
        return self.T.evaluate([n], self.env, self.cache, self.size)[0]
