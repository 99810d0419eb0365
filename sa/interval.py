"""Interval domain over value-graph nodes (exact rational bounds).

Within a narrow box of inputs it decides integers (floor, ceil, truncation) and
comparisons the program takes its array sizes from, so that results of
data-dependent length can be analysed one cell at a time.  A bound that
touches an integer (or zero) is decided only if the node is identically equal to it."""
from __future__ import annotations

import math
import random
from fractions import Fraction

import mpmath

from . import terms as tm

NUM = (int, Fraction)


class Box:
    def __init__(self, ranges):
        """ranges: variable -> (lo, hi) exact"""
        self.r = {k: (Fraction(a), Fraction(b)) for k, (a, b) in ranges.items()}
        self.memo = {}
        self.queries = 0

    # -- exact enclosure or None
    def iv(self, t):
        for n in tm.reach(t):
            if n.id not in self.memo:
                self.memo[n.id] = self._ev(n)
        return self.memo[t.id]

    def _a(self, n):
        r = [self.memo[a.id] for a in n.args if isinstance(a, tm.T)]
        return None if any(x is None or isinstance(x, bool) for x in r) else r

    def _ev(self, n):
        op = n.op
        if op == "c":
            return (n.args[0], n.args[0])
        if op == "b":
            return n.args[0]
        if op == "v":
            return self.r.get(n.args[0])
        if op in ("and", "or", "not", "lt", "le", "eq"):
            return self._bool(n)
        if op == "ite":
            c = self.memo[n.args[0].id]
            x, y = self.memo[n.args[1].id], self.memo[n.args[2].id]
            if isinstance(c, bool):
                return x if c else y
            if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                return None
            return (min(x[0], y[0]), max(x[1], y[1]))
        a = self._a(n)
        if a is None:
            return None
        if op == "add":
            return (a[0][0] + a[1][0], a[0][1] + a[1][1])
        if op == "sub":
            return (a[0][0] - a[1][1], a[0][1] - a[1][0])
        if op == "neg":
            return (-a[0][1], -a[0][0])
        if op == "mul":
            p = [x * y for x in a[0] for y in a[1]]
            return (min(p), max(p))
        if op == "div":
            if a[1][0] <= 0 <= a[1][1]:
                return None
            p = [x / y for x in a[0] for y in a[1]]
            return (min(p), max(p))
        if op == "abs":
            lo, hi = a[0]
            return (lo, hi) if lo >= 0 else (-hi, -lo) if hi <= 0 else (Fraction(0), max(-lo, hi))
        if op == "max":
            return (max(a[0][0], a[1][0]), max(a[0][1], a[1][1]))
        if op == "min":
            return (min(a[0][0], a[1][0]), min(a[0][1], a[1][1]))
        if op == "fn":
            f = n.args[0]
            if f in ("floor", "ceil", "rint", "trunc") and len(a) == 1:
                return self._round(f, n.args[1], a[0])
            if f == "sign":
                lo, hi = a[0]
                s = [(x > 0) - (x < 0) for x in (lo, hi)]
                return (Fraction(s[0]), Fraction(s[1]))
        return None

    def _round(self, f, arg, iv):
        g = {"floor": math.floor, "ceil": math.ceil, "rint": round, "trunc": math.trunc}[f]
        lo, hi = g(iv[0]), g(iv[1])
        if lo != hi:
            for k in range(math.floor(iv[0]), math.ceil(iv[1]) + 1):
                if iv[0] <= k <= iv[1] and self.identically(arg, tm.const(k)):
                    lo = hi = k
                    break
        return (Fraction(lo), Fraction(hi))

    def _bool(self, n):
        op = n.op
        v = [self.memo[a.id] for a in n.args]
        if op == "not":
            return (not v[0]) if isinstance(v[0], bool) else None
        if op == "and":
            if False in v:
                return False
            return True if all(x is True for x in v) else None
        if op == "or":
            if True in v:
                return True
            return False if all(x is False for x in v) else None
        if any(x is None or isinstance(x, bool) for x in v):
            return None
        (al, ah), (bl, bh) = v
        if op == "lt":
            if ah < bl:
                return True
            if al >= bh or self.identically(*n.args):
                return False
        elif op == "le":
            if ah <= bl or self.identically(*n.args):
                return True
            if al > bh:
                return False
        elif op == "eq":
            if ah < bl or bh < al:
                return False
            if self.identically(*n.args):
                return True
        return None

    def identically(self, a, b):
        """the two nodes are the same function on the box"""
        if a is b:
            return True
        names = tm.free_vars(a, b)
        if tm.opaques(a, b) or not names <= set(self.r):
            return False
        rng = random.Random(7)
        for _ in range(3):
            v = tm.Val(None)
            env = v.env = {}
            for n in sorted(names):
                lo, hi = self.r[n]
                q = lo + (hi - lo) * Fraction(rng.randrange(1, 2**30), 2**30)
                env[n] = v.mp.mpf(q.numerator) / q.denominator
            x, y = v(a), v(b)
            if not abs(x - y) <= mpmath.mpf("1e-30") * (1 + abs(x)):
                return False
        return True

    def simplify(self, t):
        """t with every rounding and comparison that is decided on the box replaced by its value"""
        new = {}
        for n in tm.reach(t):
            r = self.iv(n)
            if isinstance(r, bool):
                new[n.id] = tm.const(r)
            elif n.op == "fn" and n.args[0] in ("floor", "ceil", "rint", "trunc") and r is not None and r[0] == r[1]:
                new[n.id] = tm.const(r[0])
            elif n.args and any(isinstance(a, tm.T) for a in n.args):
                new[n.id] = tm.rebuild(n.op, [new[a.id] if isinstance(a, tm.T) else a for a in n.args])
            else:
                new[n.id] = n
        return new[t.id]

    # -- queries of the interpreter
    def constant(self, t):
        self.queries += 1
        r = self.iv(t)
        if r is None or isinstance(r, bool) or r[0] != r[1]:
            return None
        return int(r[0]) if r[0].denominator == 1 else r[0]

    def truth(self, t):
        self.queries += 1
        r = self.iv(t)
        return r if isinstance(r, bool) else None
