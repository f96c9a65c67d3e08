"""Direct z3 encoding of terms (bit-vectors and booleans, reals without transcendental functions)."""
import time
from fractions import Fraction

import z3

from . import smt


def z3expr(T, root, cache):
    for n in T.cone([root]):
        if n in cache:
            continue
        op, a = T.op[n], T.args[n]
        c = cache
        if op == "const":
            cache[n] = z3.RealVal(str(a[0])) if isinstance(a[0], Fraction) else z3.FreshReal("nan")
        elif op == "pi":
            cache[n] = z3.Real("pi")
        elif op == "var":
            cache[n] = z3.Real(a[0])
        elif op == "bconst":
            cache[n] = z3.BoolVal(a[0])
        elif op == "bvvar":
            cache[n] = z3.BitVec(a[0], T.sort[n])
        elif op == "bvconst":
            cache[n] = z3.BitVecVal(a[0], T.sort[n])
        elif op == "add":
            cache[n] = c[a[0]] + c[a[1]]
        elif op == "sub":
            cache[n] = c[a[0]] - c[a[1]]
        elif op == "mul":
            cache[n] = c[a[0]] * c[a[1]]
        elif op == "div":
            cache[n] = c[a[0]] / c[a[1]]
        elif op == "neg":
            cache[n] = -c[a[0]]
        elif op == "rlt":
            cache[n] = c[a[0]] < c[a[1]]
        elif op == "rle":
            cache[n] = c[a[0]] <= c[a[1]]
        elif op == "req":
            cache[n] = c[a[0]] == c[a[1]]
        elif op == "not":
            cache[n] = z3.Not(c[a[0]])
        elif op == "and":
            cache[n] = z3.And(c[a[0]], c[a[1]])
        elif op == "xor":
            cache[n] = z3.Xor(c[a[0]], c[a[1]])
        elif op == "bvcmp":
            x, y = c[a[1]], c[a[2]]
            cache[n] = {
                "eq": lambda: x == y,
                "ult": lambda: z3.ULT(x, y),
                "ule": lambda: z3.ULE(x, y),
                "slt": lambda: x < y,
                "sle": lambda: x <= y,
            }[a[0]]()
        elif op == "bv":
            x = c[a[1]]
            y = c[a[2]] if len(a) > 2 else None
            f = a[0]
            cache[n] = {
                "add": lambda: x + y,
                "sub": lambda: x - y,
                "mul": lambda: x * y,
                "and": lambda: x & y,
                "or": lambda: x | y,
                "xor": lambda: x ^ y,
                "shl": lambda: x << y,
                "lshr": lambda: z3.LShR(x, y),
                "ashr": lambda: x >> y,
                "udiv": lambda: z3.UDiv(x, y),
                "urem": lambda: z3.URem(x, y),
                "sdiv": lambda: x / y,
                "srem": lambda: z3.SRem(x, y),
            }[f]()
        elif op == "zext":
            cache[n] = z3.ZeroExt(a[0] - T.sort[a[1]], c[a[1]])
        elif op == "sext":
            cache[n] = z3.SignExt(a[0] - T.sort[a[1]], c[a[1]])
        elif op == "extract":
            cache[n] = z3.Extract(a[0], a[1], c[a[2]])
        elif op == "concat":
            cache[n] = z3.Concat(c[a[0]], c[a[1]])
        elif op == "bvite" or op == "rite":
            cache[n] = z3.If(c[a[0]], c[a[1]], c[a[2]])
        elif op == "rfrombv":
            cache[n] = z3.ToReal(z3.BV2Int(c[a[1]], a[0] == 1))
        elif T.sort[n] == "R":
            f = z3.Function(op, *([z3.RealSort()] * (len(a) + 1)))
            cache[n] = f(*[c[k] for k in a])
        else:
            raise NotImplementedError(op)
    return cache[root]


def prove(T, facts, goal, timeout):
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    c = {}
    for f in facts:
        s.add(z3expr(T, f, c))
    s.add(z3.Not(z3expr(T, goal, c)))
    t = time.time()
    r = str(s.check())
    dt = time.time() - t
    smt.STATS["queries"] += 1
    smt.STATS["time"] += dt
    smt.STATS["max_time"] = max(smt.STATS["max_time"], dt)
    smt.STATS[r if r in ("sat", "unsat") else "unknown"] += 1
    return r


def folded(pairs):
    """obligations whose sides were folded to the same term (or to true) during execution"""
    s = z3.Solver()
    s.add(z3.Or([z3.Real(f"n{x[0]}") != z3.Real(f"n{x[1]}") for x in set(p for p in pairs if p)] + [z3.BoolVal(False)]))
    t = time.time()
    r = str(s.check())
    dt = time.time() - t
    smt.STATS["queries"] += 1
    smt.STATS["time"] += dt
    smt.STATS[r if r in ("sat", "unsat") else "unknown"] += 1
    return r
