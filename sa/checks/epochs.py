"""K13: expected transit times, one cell of inputs at a time.

The length of the result depends on the data.  The inputs are partitioned into
cells (boxes) inside which the number of transits before and inside the
interval is constant; the interval domain decides the integers and comparisons the
program sizes its arrays from for *every* input of the cell, and the
resulting value graph must be the linear ephemeris."""
from __future__ import annotations

from fractions import Fraction

import mpmath

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, Undecided
from ..interval import Box
from ..values import Arr, Qty, scalar

F = Fraction


def cells(tier):
    """name -> (planets [(period, t0, first epoch, number of transits)], min, max)

    period and t0 are boxes (lo, hi); the limits are boxes too, or a tuple
    ('epoch', planet, n): exactly at the n-th transit of that planet"""
    w = F(1, 1000)

    def b(x, ww=w):
        return (F(x), F(x) + ww)

    out = {}
    out["one transit"] = ([(b(3), b(1), 1, 1)], b(2), b(5))
    out["several transits"] = ([(b(3), b(1), 1, 6)], b(2), b(20))
    out["none"] = ([(b(3), b(1), 0, 0)], b(F(3, 2)), b(3))
    out["empty interval"] = ([(b(3), b(1), 0, 0)], b(12), b(2))
    out["before the reference time"] = ([(b(3), b(100), -10, 4)], b(69), b(80))
    out["around the reference time"] = ([(b(3), b(1), -3, 6)], b(-9), b(9))
    out["reference before zero"] = ([(b(F(1, 2)), b(F(-5, 4)), 3, 4)], b(F(1, 8)), b(2))
    out["starts at the reference time"] = ([(b(3), b(1), 0, 3)], ("epoch", 0, 0), b(8))
    out["starts at a transit"] = ([(b(3), b(1), 2, 3)], ("epoch", 0, 2), b(15))
    out["ends at a transit"] = ([(b(3), b(1), 1, 4)], b(2), ("epoch", 0, 4))
    out["starts and ends at a transit"] = ([(b(3), b(1), -2, 5)], ("epoch", 0, -2), ("epoch", 0, 2))
    out["a single instant"] = ([(b(3), b(1), 3, 1)], ("epoch", 0, 3), ("epoch", 0, 3))
    out["two planets"] = ([(b(3), b(1), 1, 6), (b(7), b(-2), 1, 3)], b(2), b(20))
    out["three planets, one without transits"] = ([(b(2), b(F(1, 2)), 1, 4), (b(50), b(-20), 0, 0), (b(F(7, 2)), b(F(61, 2)), -8, 2)], b(2), b(9))
    out["second planet at the limits"] = ([(b(3), b(1), 1, 2), (b(2), b(3), 0, 4)], ("epoch", 1, 0), ("epoch", 1, 3))
    if tier == "thorough":
        for k in range(-7, 8):
            for n in range(0, 6):
                p, t0 = F(11, 4), F(5, 3)
                lo, hi = t0 + p * (k - F(1, 3)), t0 + p * (k + n - 1 + F(1, 3))
                out[f"epochs {k}..{k + n - 1}"] = ([(b(p), b(t0), k, n)], b(lo), b(hi))
    return out


def K13(run: Run):
    ctx = Ctx()
    f = ctx.get("jaxoplanet.orbits.ttv:compute_expected_transit_times")
    np_ = ctx.it.models.np
    queries = [0]

    def one(planets, lo, hi, form):
        n = len(planets)
        ranges = {}
        for i, (p, t0, _, _) in enumerate(planets):
            ranges[f"p{i}"], ranges[f"t0{i}"] = p, t0

        def limit(x, name):
            if x[0] == "epoch":
                return tm.var(f"t0{x[1]}") + tm.var(f"p{x[1]}") * tm.const(x[2])
            ranges[name] = x
            return tm.var(name)

        tl, th = limit(lo, "tmin"), limit(hi, "tmax")
        tl, th = scalar(tl, "f", "py"), scalar(th, "f", "py")
        ps, ts = [f"p{i}" for i in range(n)], [f"t0{i}" for i in range(n)]
        if form == "scalar":
            per, t0 = ctx.V(ps[0], kind="py"), ctx.V(ts[0], kind="py")
        elif form == "numpy":
            per, t0 = ctx.vec(*ps, kind="np"), ctx.vec(*ts, kind="np")
        else:
            per, t0 = ctx.vec(*ps), ctx.vec(*ts)
        box = np_.box = Box(ranges)
        try:
            r = ctx.call(f, tl, th, per, t0)
            queries[0] += np_.box.queries
        finally:
            np_.box = None
        if isinstance(r, Arr) and r.ndim == 2:
            r = tuple(Arr(r.d[i], r.dt, r.kind, r.tr) for i in range(r.shape[0]))
        if not isinstance(r, (tuple, list)):
            raise Undecided(f"result of unknown structure {type(r).__name__}")
        if len(r) != n:
            raise Refuted(f"{len(r)} arrays of transit times for {n} planets")
        st = "proved"
        dom = Dom(ranges={a: tuple(mpmath.mpf(x.numerator) / x.denominator for x in b) for a, b in ranges.items()})
        for i, (x, (p, t0, k, m)) in enumerate(zip(r, planets)):
            if not isinstance(x, (Arr, Qty)):
                raise Undecided(f"transit times of unknown length ({type(x).__name__})")
            sh = ctx.shape(x)
            if sh != (m,):
                raise Refuted(f"planet {i}: shape {sh} where exactly {m} transit(s) lie in the interval for every input of the cell",
                              site=ctx.flat(x)[0].site if ctx.flat(x) else None)
            want = [tm.var(f"t0{i}") + tm.var(f"p{i}") * tm.const(k + j) for j in range(m)]
            if m:
                s = run.equal(ctx, [box.simplify(t) for t in ctx.flat(x)], want, dom, f"transit times of planet {i}")
                st = s if s != "proved" else st
        return st

    for name, (planets, lo, hi) in cells(run.tier).items():
        forms = ["array"]
        if run.tier == "thorough" or name in ("several transits", "two planets", "before the reference time"):
            forms += ["numpy"] + (["scalar"] if len(planets) == 1 else [])
        for form in forms:
            run.ob(f"expected transit times[{name}|{form}]", lambda a=planets, b=lo, c=hi, d=form: one(a, b, c, d),
                   "exactly the transits of the linear ephemeris inside the interval, in order, for every input of the cell")
    run.coverage["cells"] = len(cells(run.tier))
    run.coverage["interval_queries"] = queries[0]
    run.absorb(ctx)
