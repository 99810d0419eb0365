"""Limb-darkened light curves and the transforms acting on light curve functions."""
from __future__ import annotations

import itertools

import mpmath
import numpy as np

from .. import terms as tm
from ..harness import PROBES, Ctx, Dom, Refuted, Run, Undecided, expect_raise, raises
from ..values import Arr, Obj, PyRaise, Qty, scalar
from . import disc
from .orbit_model import C, KEP, PI, Orb, V, _pick, _time
from .system import BASE, MIXES, T_, build, folded, merged, mk, phys, tdom

mpf = mpmath.mpf
LD = "jaxoplanet.core.limb_dark"


def u01(rng):
    return mpf(rng.random())


# geometric strata of (b, r): name -> (sampler of b given rng, r given b)
def _strata():
    def rnd(lo, hi):
        return lambda env, rng: mpf(lo) + mpf(hi - lo) * u01(rng)

    s = {
        "inside": (rnd(0.02, 0.6), lambda e, g: (1 - e["b"]) * (mpf("0.1") + mpf("0.75") * u01(g))),
        "ingress": (rnd(0.8, 1.1), lambda e, g: abs(1 - e["b"]) + mpf("0.02") + mpf("0.3") * u01(g)),
        "overlap-center": (rnd(0.2, 0.6), lambda e, g: (1 - e["b"]) + mpf("0.05") + (2 * e["b"] - mpf("0.1")) * u01(g)),
        "overlap-large": (rnd(1.2, 3.0), lambda e, g: e["b"] - 1 + mpf("0.1") + mpf("1.8") * u01(g)),
        "none": (rnd(1.05, 3.0), lambda e, g: (e["b"] - 1) * (mpf("0.05") + mpf("0.9") * u01(g))),
        "full": (rnd(0.0, 1.5), lambda e, g: 1 + e["b"] + mpf("0.02") + u01(g)),
        "b=0": ([mpf(0)], rnd(0.05, 0.95)),
        "b=r-inside": (rnd(0.1, 0.48), lambda e, g: e["b"]),
        "b=r-edge": (rnd(0.52, 0.95), lambda e, g: e["b"]),
        "b=1": ([mpf(1)], rnd(0.1, 1.5)),
        "r=1": (rnd(0.2, 1.8), lambda e, g: mpf(1)),
        "r=0": (rnd(0.0, 0.9), lambda e, g: mpf(0)),
        "b=0,r=0": ([mpf(0)], [mpf(0)]),
        "b=0,r=1": ([mpf(0)], [mpf(1)]),
        "b=1,r=0": ([mpf(1)], [mpf(0)]),
        "b=0,r>1": ([mpf(0)], rnd(1.05, 2.0)),
        "b=1-r": ([mpf(1) / 4, mpf(1) / 2, mpf(3) / 4], lambda e, g: 1 - e["b"]),
        "b=1+r": ([mpf(5) / 4, mpf(3) / 2, mpf(9) / 8], lambda e, g: e["b"] - 1),
        "b=r-1": ([mpf(1) / 4, mpf(1) / 2, mpf(5) / 4], lambda e, g: 1 + e["b"]),
    }
    gap = lambda g: mpf("0.002") + mpf("0.002") * u01(g)  # noqa: E731
    s.update({
        # neighbourhoods of the boundaries, and the far ends of the domain
        "near b=0": (rnd(0.005, 0.009), rnd(0.3, 0.8)),
        "near b=0,r=1": (rnd(0.005, 0.009), lambda e, g: 1 - e["b"] / 2),
        "near b=r": (rnd(0.2, 0.45), lambda e, g: e["b"] + gap(g)),
        "before first contact": (rnd(1.2, 1.9), lambda e, g: e["b"] - 1 - gap(g)),
        "after first contact": (rnd(1.2, 1.9), lambda e, g: e["b"] - 1 + gap(g)),
        "before second contact": (rnd(0.2, 0.8), lambda e, g: 1 - e["b"] + gap(g)),
        "after second contact": (rnd(0.2, 0.8), lambda e, g: 1 - e["b"] - gap(g)),
        "before totality": (rnd(0.3, 1.5), lambda e, g: 1 + e["b"] - gap(g)),
        "after totality": (rnd(0.3, 1.5), lambda e, g: 1 + e["b"] + gap(g)),
        "small r": (rnd(0.2, 0.8), rnd(0.008, 0.0098)),
        "large r": (rnd(9.0, 12.0), lambda e, g: e["b"] - mpf("0.7") + mpf("1.4") * u01(g)),
        "far": (rnd(30, 300), rnd(0.1, 1.5)),
    })
    return s


STRATA = _strata()
NEAR = tuple(k for k in STRATA if k.startswith(("near ", "before ", "after ", "small ", "large ", "far")))
DEGENERATE = ("b=1-r", "b=1+r", "b=r-1", "b=0,r=1", "b=1,r=0", "b=0,r=0")


def flux_oracle(nu):
    def f(env):
        u = [float(env[f"u{i}"]) for i in range(nu)]
        b, r = float(abs(env["b"])), float(abs(env["r"]))
        I = disc.limbdark(u)
        return [disc.integrate(I, b, r) / disc.integrate(I, 0.0, 0.0) - 1]

    return f


def br_dom(stratum, nu, **extra):
    b, r = STRATA[stratum]
    # limb darkening coefficients of a bright disc
    rg = {"b": b, "r": r}
    rg.update({f"u{i}": (-0.25, 0.45) for i in range(nu)})
    rg.update(extra)
    return Dom(ranges=rg)


def L01(run: Run):
    ctx = Ctx()
    lc = ctx.get(f"{LD}:light_curve")
    degs = (0, 1, 2, 3, 5, 7) if run.tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12)
    orders = ((10, 3e-6),) if run.tier == "quick" else ((10, 3e-6), (20, 3e-7), (50, 3e-8))

    def flux(nu, order, b=None, r=None, **kw):
        u = ctx.vec(*[f"u{i}" for i in range(nu)]) if nu else ctx.it.models.np.A([])
        if order:
            kw["order"] = order
        return ctx.call(lc, u, ctx.V("b") if b is None else b, ctx.V("r") if r is None else r, **kw)

    for nu in degs:
        for order, tol in orders:
            got = None

            for s in STRATA:
                def go(s=s, nu=nu, order=order, tol=tol):
                    g = flux(nu, order)
                    return run.approx(ctx, g, flux_oracle(nu), br_dom(s, nu), f"relative flux, stratum {s}", tol=tol, need=1,
                                      probes=(3 if run.tier == "quick" else 10))

                run.ob(f"flux[udeg={nu}|order={order}|{s}]", go, "line integral = disc integral of the intensity")

        def exact(nu=nu):
            """strata where no quadrature error can hide: exact to 1e-12"""
            for order in (1, 4):
                g = flux(nu, order)
                run.approx(ctx, g, lambda e: [0.0], br_dom("none", nu), "no occultation", tol=1e-12)
                run.approx(ctx, g, lambda e: [-1.0], br_dom("full", nu), "total occultation", tol=1e-12)
                if order == 4:
                    run.approx(ctx, g, flux_oracle(nu), br_dom("b=0", nu), "central transit", tol=1e-9)
            return "congruent"

        run.ob(f"limits[udeg={nu}]", exact, "out of transit 0, total eclipse -1, central transit exact at any order")

        def even(nu=nu):
            neg = lambda n: ctx.call(ctx.it.models.np.funcs["negative"], ctx.V(n)) if False else T_(-V(n))  # noqa: E731
            g = ctx.flat(flux(nu, 10))
            for s in ("inside", "ingress", "overlap-large"):
                d = br_dom(s, nu)
                run.equal(ctx, flux(nu, 10, b=neg("b")), g, d, "even in b")
                run.equal(ctx, flux(nu, 10, r=neg("r")), g, d, "even in r")
            return "congruent"

        run.ob(f"even[udeg={nu}]", even, "depends on |b| and |r| only")

    def bcast():
        u = ctx.vec("u0", "u1")
        d = Dom(ranges={"b": (0.1, 1.2), "r": (0.1, 0.3), "b[*": (0.1, 1.2), "r[*": (0.1, 0.3), "u*": (0, 0.4)})
        one = lambda b, r: ctx.flat(ctx.call(lc, u, T_(b), T_(r)))[0]  # noqa: E731
        g = ctx.call(lc, u, ctx.arr("b", (3,)), ctx.V("r"))
        if ctx.shape(g) != (3,):
            raise Refuted(f"shape {ctx.shape(g)} for b of shape (3,)")
        run.equal(ctx, g, [one(V(f"b[{i}]"), V("r")) for i in range(3)], d, "elementwise in b")
        g = ctx.call(lc, u, ctx.arr("b", (2, 2)), ctx.arr("r", (2,)))
        if ctx.shape(g) != (2, 2):
            raise Refuted(f"shape {ctx.shape(g)} for b (2, 2) and r (2,)")
        return run.equal(ctx, g, [one(V(f"b[{i},{j}]"), V(f"r[{j}]")) for i in range(2) for j in range(2)], d, "elementwise in b and r")

    run.ob("broadcast", bcast, "NumPy broadcasting over b and r")

    def default_order():
        g = ctx.flat(flux(2, None))
        return run.equal(ctx, flux(2, 10), g, br_dom("ingress", 2), "default order is 10")

    run.ob("default-order", default_order, "documented default quadrature order")
    run.absorb(ctx)


# ------------------------------------------------------------------ L02 - L06
def LCt(u, b, r, order=10):
    b, r = tm.abs_(b), tm.abs_(r)
    return tm.ite(tm.le(tm.ONE + r, b), tm.ZERO, tm.fn(f"LC{order}", b, r, *u))


def hyp(x, y):
    return tm.sqrt(x * x + y * y)


def close_dom(d, **kw):
    """compact orbits: transits and eclipses at a good fraction of all times"""
    d.ranges.update({"Rc": (1.0, 1.6), "Rc2": (1.0, 1.6), "Mc": (0.5, 1.0), "b": (0.1, 0.6), "b0": (0.1, 0.6), "b1": (0.1, 0.6), "b2": (0.1, 0.6),
                     "u*": (0.1, 0.4)})
    d.ranges.pop("u:G", None)
    d.ranges["u:G"] = (0.9, 1.3)
    d.ranges["u:R_sun"] = (0.2, 0.3)
    d.ranges["u:s"] = lambda env, rng: (mpf(9) / 10 + mpf(rng.random()) / 5) / 86400
    d.ranges.update({k: (-9, 9) for k in ("t", "t[*")})
    d.ranges.update(kw)
    return d


USPECS = {
    "none": lambda ctx: ((), []),
    "scalars": lambda ctx: ((ctx.V("u0"), ctx.V("u1")), [V("u0"), V("u1")]),
    "array": lambda ctx: ((ctx.vec("u0", "u1", "u2"),), [V("u0"), V("u1"), V("u2")]),
    "mixed": lambda ctx: ((ctx.V("u0"), ctx.vec("u1", "u2")), [V("u0"), V("u1"), V("u2")]),
}


def mags(ctx, xs):
    """magnitudes in one common unit (lengths in R_sun, else dimensionless)"""
    out = []
    for q in xs:
        out.append(ctx.phys(q) if isinstance(q, Qty) else ctx.flat(q))
    return out


LLD = "jaxoplanet.light_curves.limb_dark:light_curve"
LEM = "jaxoplanet.light_curves.emission:light_curve"


def _lc_oracle(ctx, orbit, tq, us, order):
    X, Y, Z = mags(ctx, ctx.meth(orbit, "relative_position", tq))
    R = ctx.phys(ctx.attr(orbit, "central_radius"))
    r = ctx.phys(ctx.attr(orbit, "radius"))
    n = len(X)
    R = R * n if len(R) == 1 else R
    r = r * n if len(r) == 1 else r
    Y = Y * n if len(Y) == 1 else Y
    return [tm.ite(tm.lt(tm.ZERO, z), LCt(us, hyp(x, y) / a, b / a, order), tm.ZERO) for x, y, z, a, b in zip(X, Y, Z, R, r)]


def L02(run: Run):
    ctx = Ctx("kepler", "lc")
    lc = ctx.get(LLD)

    def check(o, d, uspec, order, tmode, n):
        args, us = USPECS[uspec](ctx)
        kw = {} if order is None else {"order": order}
        f = ctx.call(lc, o, *args, **kw)
        order = order or 10
        if tmode == "scalar":
            ts, arg, sh = [ctx.Q("t", "d")], ctx.V("t"), ()
        elif tmode == "quantity-h":
            ts, arg, sh = [Qty(T_(V("t") / C(24)), ctx.unit("d"))], ctx.Q("t", "h"), ()
            d.ranges["t"] = (-200, 200)
        elif tmode == "vector":
            ts, arg, sh = [Qty(T_(V(f"t[{i}]")), ctx.unit("d")) for i in range(3)], ctx.arr("t", (3,)), (3,)
        elif tmode == "empty":
            arg = ctx.it.models.np.funcs["zeros"]((0,))
            r = ctx.call(f, arg)
            if ctx.shape(r) != (0,) + n:
                raise Refuted(f"light curve of no times has shape {ctx.shape(r)}")
            return "holds"
        else:
            ts, arg, sh = [Qty(T_(V(f"t[{i},{j}]")), ctx.unit("d")) for i in range(2) for j in range(2)], ctx.Q(ctx.arr("t", (2, 2)), "d"), (2, 2)
        r = ctx.call(f, arg)
        if isinstance(r, Qty):
            if ctx.table.dim(r.unit) != ctx.table.dim(ctx.unit("dimensionless")):
                raise Refuted("the light curve has units")
        if ctx.shape(r) != sh + n:
            raise Refuted(f"light curve shape {ctx.shape(r)}, expected time shape {sh} + orbit shape {n}")
        want = [w for tq in ts for w in _lc_oracle(ctx, o, tq, us, order)]
        return run.equal(ctx, ctx.phys(r) if isinstance(r, Qty) else r, want, d, "flux", probes=14 if run.tier == "quick" else 60)

    TM = ("scalar", "quantity-h", "vector", "matrix")
    cases = []
    for i, (name, mix) in enumerate(MIXES.items()):
        cases.append((f"System:{name}", "sys", mix))
    cases.append(("System:single", "sys", [{}]))
    for size in ("duration", "speed"):
        for n in (0, 1, 2):
            cases.append((f"TransitOrbit:{size}:{n}", "tr", (size, n)))
    cases.append(("TTVOrbit:1", "ttv", 1))
    cases.append(("TTVOrbit:2", "ttv", 2))
    cases.append(("OrbitalBody", "body", {}))
    for k, (label_, kind, spec) in enumerate(cases):
        combos = list(itertools.product(USPECS, (None, 5), TM))
        if run.tier == "quick":
            combos = combos[k % 3 :: 5]
        combos = combos + [("scalars", None, "empty")]
        for uspec, order, tmode in combos:
            def go(kind=kind, spec=spec, uspec=uspec, order=order, tmode=tmode):
                if kind == "sys":
                    orbs = mk(ctx, [{**c, "radius": "r"} for c in spec])
                    _, o = build(ctx, orbs)
                    d = close_dom(merged(*orbs))
                    for j in range(len(orbs)):
                        d.ranges.update({f"r{j}": (0.05, 0.5), f"a{j}": (2, 3), f"P{j}": (1.2, 3)})
                    n = (len(orbs),)
                elif kind == "body":
                    ob = Orb(ctx, {**BASE})
                    o = ob.build(ctx)
                    d = close_dom(ob.dom())
                    d.ranges.update({"r": (0.05, 0.5), "P": (1.2, 3)})
                    n = ()
                elif kind == "tr":
                    size, m = spec
                    names = {"period": "P", "duration": "dur", "speed": "v", "time_transit": "t0", "impact_param": "b", "radius_ratio": "r"}
                    kw = {}
                    for key in ("period", size, "time_transit", "impact_param", "radius_ratio"):
                        s = names[key]
                        kw[key] = ctx.arr(s, (m,)) if m else ctx.V(s)
                    o = ctx.call(ctx.get("jaxoplanet.orbits.transit:TransitOrbit"), **kw)
                    d = tdom(**{"u*": (0.1, 0.4), "t[*": (-20, 20), "v*": (0.5, 2), "dur*": (0.8, 2.5)})
                    d.ranges["u:s"] = lambda env, rng: (mpf(9) / 10 + mpf(rng.random()) / 5) / 86400
                    n = (m,) if m else ()
                else:
                    m = spec
                    o = ctx.call(ctx.get("jaxoplanet.orbits.ttv:TTVOrbit"), transit_times=tuple(ctx.arr(f"tt{p}", (3,)) for p in range(m)),
                                 duration=ctx.V("dur"), impact_param=ctx.V("b"), radius_ratio=ctx.V("r"))
                    rg = {"dur": (0.8, 2.5), "b": (-0.5, 0.5), "r": (0.05, 0.3), "t": (-6, 14), "t[*": (-6, 14), "u0": (0.1, 0.4), "u1": (0.1, 0.4), "u2": (0.1, 0.4)}
                    for p in range(m):
                        for j in range(3):
                            c = (4 + p) * j + 0.3 * p
                            rg[f"tt{p}[{j}]"] = (c - 0.3, c + 0.3)
                    d = Dom(ranges=rg)
                    n = tuple(ctx.attr(o, "shape"))
                return check(o, d, uspec, order, tmode, n)

            run.ob(f"flux[{label_}|u={uspec}|order={order}|time={tmode}]", go, "sky separation/central radius, front side only, one value per planet")

    def notime(unit):
        o = ctx.call(ctx.get("jaxoplanet.orbits.transit:TransitOrbit"), period=ctx.V("P"), duration=ctx.V("dur"))
        return expect_raise(lambda: ctx.call(ctx.call(lc, o), ctx.Q("t", unit)), ("DimensionalityError",), f"time in {unit}")

    for u in ("m", "kg", "dimensionless"):
        run.ob(f"time-unit[{u}]", lambda u=u: notime(u), "a time with the wrong dimension is rejected")
    run.absorb(ctx)


SYS = "jaxoplanet.starry.orbit:SurfaceSystem"
SURF = "jaxoplanet.starry.surface:Surface"


def surf_system(ctx, orbs, surfaces=None, usurf=(1, 2, 0), how="add", central_u=2, amps=True, norm=False):
    """SurfaceSystem with amplitude/limb darkening variables per surface"""
    central = ctx.call(ctx.get(f"{KEP}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
    SF, SB, Body = ctx.get(SURF), ctx.get("jaxoplanet.starry.orbit:SurfaceBody"), ctx.get(f"{KEP}:Body")

    def surf(tag, nu):
        return ctx.call(SF, amplitude=ctx.V("A" + tag), normalize=False, u=tuple(ctx.V(f"u{tag}{i}") for i in range(nu)))

    cs = surf("c", central_u)
    ss = [surf(str(i), usurf[i % len(usurf)]) for i in range(len(orbs))] if surfaces is None else surfaces
    if how == "add":
        s = ctx.call(ctx.get(SYS), central, cs)
        for o, f in zip(orbs, ss):
            s = ctx.meth(s, "add_body", **{**o.kw, "surface": f})
    elif how == "surfacebody":
        s = ctx.call(ctx.get(SYS), central, cs)
        for o, f in zip(orbs, ss):
            s = ctx.meth(s, "add_body", ctx.call(SB, **{**o.kw, "surface": f}))
    else:
        s = ctx.call(ctx.get(SYS), central, cs, bodies=[(ctx.call(Body, **o.kw), f) for o, f in zip(orbs, ss)])
    return central, s, cs, ss


def L03(run: Run):
    ctx = Ctx("kepler", "lc")
    lc = ctx.get(LEM)
    for name, mix in {**MIXES, "single": [{}]}.items():
        for how in ("add", "surfacebody", "bodies"):
            for tmode, order in (("scalar", None), ("vector", 7)):
                def go(mix=mix, how=how, tmode=tmode, order=order):
                    orbs = mk(ctx, [{**c, "radius": "r"} for c in mix])
                    central, s, cs, ss = surf_system(ctx, orbs, how=how)
                    n = len(orbs)
                    f = ctx.call(lc, s, **({} if order is None else {"order": order}))
                    order = order or 10
                    if n:
                        d = close_dom(merged(*orbs))
                    else:
                        d = Dom()
                    for j in range(n):
                        d.ranges.update({f"r{j}": (0.3, 0.9), f"a{j}": (2, 3), f"P{j}": (1.2, 3)})
                    amp = _pick((0.5, 2), (0.5, 2), (0.001, 0.01), (50, 90))
                    d.ranges.update({"Ac": amp, "A0": amp, "A1": amp, "A2": amp})
                    if tmode == "scalar":
                        ts, arg, sh = [ctx.Q("t", "d")], ctx.V("t"), ()
                    else:
                        ts, arg, sh = [Qty(T_(V(f"t[{i}]")), ctx.unit("d")) for i in range(2)], ctx.arr("t", (2,)), (2,)
                    r = ctx.call(f, arg)
                    if ctx.shape(r) != sh + (1 + n,):
                        raise Refuted(f"emission light curve shape {ctx.shape(r)}, expected {sh + (1 + n,)}")
                    uc = [V("uc0"), V("uc1")]
                    want = []
                    R = V("Rc")
                    for tq in ts:
                        tot = tm.ONE
                        per = []
                        for i, o in enumerate(orbs):
                            ob = ctx.attr(s, "bodies")[i]
                            x, y, z = [ctx.mag(q, "R_sun")[0] for q in ctx.meth(ob, "relative_position", tq)]
                            ub = [V(f"u{i}{k}") for k in range((1, 2, 0)[i % 3])]
                            tot = tot + tm.ite(tm.lt(tm.ZERO, z), LCt(uc, hyp(x, y) / R, o.r / R, order), tm.ZERO)
                            per.append(V(f"A{i}") * (tm.ONE + tm.ite(tm.lt(z, tm.ZERO), LCt(ub, hyp(x, y) / o.r, R / o.r, order), tm.ZERO)))
                        want += [V("Ac") * tot, *per]
                    return run.equal(ctx, r, want, d, "flux of the central and of each body", probes=14 if run.tier == "quick" else 60)

                run.ob(f"emission[{name}|{how}|{tmode}|order={order}]", go, "central eclipsed by the bodies in front, bodies eclipsed by the central")

    for pat in ((None, None), (None, 1), (1, None)):
        def dark(pat=pat):
            orbs = mk(ctx, [{"radius": "r"}, {"radius": "r"}])
            SF = ctx.get(SURF)
            ss = [None if p is None else ctx.call(SF, amplitude=ctx.V(f"A{i}"), normalize=False, u=(ctx.V(f"u{i}0"),)) for i, p in enumerate(pat)]
            central, s, cs, ss = surf_system(ctx, orbs, surfaces=ss)
            d = close_dom(merged(*orbs))
            for j in range(2):
                d.ranges.update({f"r{j}": (0.3, 0.9), f"P{j}": (1.2, 3), f"A{j}": (0.5, 2)})
            r = ctx.flat(ctx.call(ctx.call(lc, s), ctx.V("t")))
            if len(r) != 3:
                raise Refuted(f"{len(r)} light curves for a star and two bodies")
            want = [r[0]]
            for i, p in enumerate(pat):
                x, y, z = [ctx.mag(q, "R_sun")[0] for q in ctx.meth(ctx.attr(s, "bodies")[i], "relative_position", ctx.Q("t", "d"))]
                o = orbs[i]
                want.append(tm.ZERO if p is None else V(f"A{i}") * (tm.ONE + tm.ite(tm.lt(z, tm.ZERO), LCt([V(f"u{i}0")], hyp(x, y) / o.r, V("Rc") / o.r), tm.ZERO)))
            return run.equal(ctx, r, want, d, "flux", probes=14)

        run.ob(f"dark-bodies[{pat}]", dark, "bodies without a surface are dark")

    def reject():
        orbs = mk(ctx, MIXES["same"])
        _, s = build(ctx, orbs)
        return expect_raise(lambda: ctx.call(lc, s), None, "a system without surfaces")

    run.ob("needs-surfaces", reject, "a system without surfaces is rejected")
    run.absorb(ctx)


# ------------------------------------------------------------------ L04
TRF = "jaxoplanet.light_curves.transforms"


def ufunc(ctx, name, unit=None, extra=(), shape=()):
    """an uninterpreted user light curve function of time (days); accepts arrays"""
    np_ = ctx.it.models.np

    def f(time, *args, **kw):
        m = time
        if isinstance(time, Qty):
            f_ = ctx.table.ratio(time.unit, ctx.unit("d"))
            m = np_.map(lambda x: x * f_, np_.A(time.m))
        m = np_.A(m)
        ex = [t for a in args for t in ctx.flat(a)] + [t for k in sorted(kw) for t in ctx.flat(kw[k])]
        if shape:
            from ..values import obj_array

            d = obj_array(m.shape + shape)
            for idx in np.ndindex(*m.shape):
                for j in np.ndindex(*shape):
                    d[idx + j] = tm.fn(name + str(j[0]), m.d[idx], *ex)
            r = Arr(d, "f", "jax", m.tr)
        else:
            r = np_.map(lambda x: tm.fn(name, x, *ex), m)
            r.kind = "jax"
            r.tr = m.tr
        return Qty(r, ctx.unit(unit)) if unit else r

    return f


def kwlc(ctx):
    F = ufunc(ctx, "F")

    def f(time, x=None, k=None):
        if ctx.shape(k) != () or ctx.shape(x) != ():
            raise Refuted("extra arguments are mapped over")
        np_ = ctx.it.models.np
        kt = ctx.flat(k)[0]
        return np_.map(lambda v: kt * v, np_.A(F(time, x)))

    return f


def stencil(order, num):
    num = num + 1 - num % 2
    if order == 0 or num == 1:
        return [(C(2 * i + 1) / C(2 * num) - C(1) / C(2), C(1) / C(num)) for i in range(num)]
    h = num - 1
    pts = [C(i) / C(h) - C(1) / C(2) for i in range(num)]
    if order == 1:
        w = [1 if i in (0, h) else 2 for i in range(num)]
    else:
        w = [1 if i in (0, h) else (4 if i % 2 else 2) for i in range(num)]
    return [(p, C(x) / C(sum(w))) for p, x in zip(pts, w)]


def L04(run: Run):
    ctx = Ctx()
    integ = ctx.get(f"{TRF}:integrate")
    E = V("E")
    d = Dom(ranges={"t": _time, "t[*": _time, "E": _pick((0.05, 0.8), (0.05, 0.8), (0.0005, 0.004), (20, 60)), "a": (0.3, 1), "c": (0.3, 1), "u:s": lambda e, g: (mpf(9) / 10 + u01(g) / 5) / 86400})
    nums = (3, 4, 5, 7, 8, 10, 15) if run.tier == "quick" else tuple(range(3, 30)) + (50, 51, 101)

    def want(order, num, t, f="F", extra=()):
        tot = tm.ZERO
        for p, w in stencil(order, num):
            tot = tot + w * tm.fn(f, t + E * p, *extra)
        return tot

    for order in (0, 1, 2):
        for num in nums + (1, 2):
            def go(order=order, num=num):
                g = ctx.call(integ, ufunc(ctx, "F"), exposure_time=ctx.V("E"), order=order, num_samples=num)
                r = ctx.call(g, ctx.V("t"))
                if ctx.shape(r) != ():
                    raise Refuted(f"scalar time gives shape {ctx.shape(r)}")
                return run.equal(ctx, r, [want(order, num, V("t"))], d, "exposure average")

            run.ob(f"stencil[order={order}|n={num}]", go, "normalised symmetric quadrature stencil centred on the time stamp")

            def const(order=order, num=num):
                """exactness on polynomials, independently of the exact stencil"""
                np_ = ctx.it.models.np
                deg = {0: 1, 1: 1, 2: 3}[order] if num > 1 else 1
                t = V("t")
                for k in range(deg + 1):
                    def mono(time, k=k):
                        m = np_.A(time.m if isinstance(time, Qty) else time)

                        def pw(x):
                            r = tm.ONE
                            for _ in range(k):
                                r = r * (x - V("a"))
                            return r

                        r = np_.map(pw, m)
                        r.kind = "jax"
                        return r

                    g = ctx.call(integ, mono, exposure_time=ctx.V("E"), order=order, num_samples=num)
                    r = ctx.call(g, ctx.V("t"))
                    lo, hi = t - E / C(2) - V("a"), t + E / C(2) - V("a")
                    pl, ph = tm.ONE, tm.ONE
                    for _ in range(k + 1):
                        pl, ph = pl * lo, ph * hi
                    run.equal(ctx, r, [(ph - pl) / (C(k + 1) * E)], d, f"average of a degree-{k} polynomial over the exposure")
                return "congruent"

            run.ob(f"exactness[order={order}|n={num}]", const, "exposure average is exact for polynomials up to the degree of the rule")

    def defaults():
        g = ctx.call(integ, ufunc(ctx, "F"), exposure_time=ctx.V("E"))
        return run.equal(ctx, ctx.call(g, ctx.V("t")), [want(0, 7, V("t"))], d, "default stencil")

    run.ob("defaults", defaults, "documented defaults: order 0, 7 samples")

    def none():
        f = ufunc(ctx, "F")
        g = ctx.call(integ, f, exposure_time=None)
        t = ctx.arr("t", (3,))
        return run.equal(ctx, ctx.call(g, t), ctx.call(f, t), d, "no exposure time: unchanged")

    run.ob("no-exposure", none, "no exposure time returns the original light curve")
    for mode in ("exposure-min", "time-h", "result-unit", "args", "kwargs", "vector", "matrix", "multi-output", "nested"):
        def go(mode=mode):
            t = V("t")
            if mode == "exposure-min":
                f = ctx.table.ratio(ctx.unit("min"), ctx.unit("d"))
                g = ctx.call(integ, ufunc(ctx, "F"), exposure_time=Qty(T_(E / f), ctx.unit("min")))
                return run.equal(ctx, ctx.call(g, ctx.V("t")), [want(0, 7, t)], d, "exposure time in minutes")
            if mode == "time-h":
                f = ctx.table.ratio(ctx.unit("h"), ctx.unit("d"))
                g = ctx.call(integ, ufunc(ctx, "F"), exposure_time=ctx.V("E"))
                return run.equal(ctx, ctx.call(g, Qty(T_(t / f), ctx.unit("h"))), [want(0, 7, t)], d, "time in hours")
            if mode == "result-unit":
                g = ctx.call(integ, ufunc(ctx, "F", "ppm" if ctx.table.unit("ppm") else "K"), exposure_time=ctx.V("E"))
                r = ctx.call(g, ctx.V("t"))
                if not isinstance(r, Qty):
                    raise Refuted("the units of the light curve are lost")
                return run.equal(ctx, ctx.flat(r.m), [want(0, 7, t)], d, "light curve with units")
            if mode == "args":
                g = ctx.call(integ, ufunc(ctx, "F"), exposure_time=ctx.V("E"))
                return run.equal(ctx, ctx.call(g, ctx.V("t"), ctx.V("a")), [want(0, 7, t, extra=(V("a"),))], d, "extra arguments")
            if mode == "kwargs":
                g = ctx.call(integ, kwlc(ctx), exposure_time=ctx.V("E"))
                tot = want(0, 7, t, extra=(V("a"),))
                run.equal(ctx, ctx.call(g, ctx.V("t"), ctx.V("a"), k=ctx.V("c")), [V("c") * tot], d, "keyword argument")
                return run.equal(ctx, ctx.call(g, ctx.V("t"), x=ctx.V("a"), k=ctx.V("c")), [V("c") * tot], d, "keyword arguments")
            if mode == "multi-output":
                g = ctx.call(integ, ufunc(ctx, "F", shape=(2,)), exposure_time=ctx.V("E"))
                r = ctx.call(g, ctx.V("t"))
                if ctx.shape(r) != (2,):
                    raise Refuted(f"two-planet light curve gives shape {ctx.shape(r)}")
                return run.equal(ctx, r, [want(0, 7, t, "F0"), want(0, 7, t, "F1")], d, "per-planet light curves")
            if mode == "nested":
                g = ctx.call(integ, ufunc(ctx, "F"), exposure_time=ctx.V("E"), num_samples=3)
                h = ctx.call(integ, g, exposure_time=ctx.V("E"), num_samples=3)
                tot = tm.ZERO
                for p, w in stencil(0, 3):
                    for q, v in stencil(0, 3):
                        tot = tot + w * v * tm.fn("F", t + E * p + E * q)
                return run.equal(ctx, ctx.call(h, ctx.V("t")), [tot], d, "composition of two exposure integrations")
            sh = (3,) if mode == "vector" else (2, 2)
            g = ctx.call(integ, ufunc(ctx, "F"), exposure_time=ctx.V("E"), num_samples=3, order=2)
            r = ctx.call(g, ctx.arr("t", sh))
            if ctx.shape(r) != sh:
                raise Refuted(f"times of shape {sh} give shape {ctx.shape(r)}")
            return run.equal(ctx, r, [want(2, 3, x) for x in ctx.flat(ctx.arr("t", sh))], d, "each time separately")

        run.ob(f"interface[{mode}]", go, "time/exposure units, extra arguments and output structure are preserved")
    for nm, kw in {"order-3": dict(order=3), "order--1": dict(order=-1), "vector-exposure": None, "exposure-in-m": "m"}.items():
        def go(nm=nm, kw=kw):
            f = ufunc(ctx, "F")
            if nm == "vector-exposure":
                return expect_raise(lambda: ctx.call(integ, f, exposure_time=ctx.arr("E", (2,))), ("ValueError",), "vector exposure time")
            if nm == "exposure-in-m":
                return expect_raise(lambda: ctx.call(integ, f, exposure_time=ctx.Q("E", "m")), ("DimensionalityError",), "exposure time in metres")
            return expect_raise(lambda: ctx.call(integ, f, exposure_time=ctx.V("E"), **kw), ("ValueError",), nm)

        run.ob(f"reject[{nm}]", go, "invalid integration requests are rejected")
    run.absorb(ctx)


# ------------------------------------------------------------------ L05
def L05(run: Run):
    ctx = Ctx()
    interp = ctx.get(f"{TRF}:interpolate")
    P, T0, D = V("P"), V("T0"), V("D")
    d = Dom(ranges={"P": (3, 5), "T0": _pick((-7, 7), (-7, 7), (-0.01, 0.01), (5000, 9000)), "D": _pick((0.5, 2), (0.5, 2), (0.01, 0.03), (2.5, 2.9)), "t": _pick((-15, 15), (-15, 15), (20000, 30000)), "t[*": _pick((-15, 15), (-15, 15), (20000, 30000)), "s": (-0.5, 0.5), "k": [mpf(i) for i in range(-4, 5)],
                    "a": (0.2, 0.9), "c": (0.2, 0.9), "u:s": lambda e, g: (mpf(9) / 10 + u01(g) / 5) / 86400})
    sizes = (2, 3, 5, 8) if run.tier == "quick" else (2, 3, 4, 5, 7, 8, 13, 20)

    def periodic(ctx, unit=None, args=0):
        """an uninterpreted periodic light curve: a function of the phase only"""
        np_ = ctx.it.models.np

        def f(time, *ex, **kw):
            m = np_.A(time.m if isinstance(time, Qty) else time)
            if isinstance(time, Qty):
                q = ctx.table.ratio(time.unit, ctx.unit("d"))
                m = np_.map(lambda x: x * q, m)
            extra = [t for a in ex for t in ctx.flat(a)] + [t for k in sorted(kw) for t in ctx.flat(kw[k])]

            def ph(x):
                # folded time with the cut away from the samples
                y = folded(x + P / C(97), T0, P)
                return tm.fn("F", tm.fn("cos", y * C(2) * PI / P), tm.fn("sin", y * C(2) * PI / P), *extra)

            r = np_.map(ph, m)
            r.kind = "jax"
            return Qty(r, ctx.unit(unit)) if unit else r

        return f, lambda x, *extra: ph_(x, *extra)

    def ph_(x, *extra):
        y = folded(x + P / C(97), T0, P)
        return tm.fn("F", tm.fn("cos", y * C(2) * PI / P), tm.fn("sin", y * C(2) * PI / P), *extra)

    def mk_(ctx, n, dur, unit=None, **kw):
        f, _ = periodic(ctx, unit)
        k = dict(period=ctx.V("P"), time_transit=ctx.V("T0"), num_samples=n)
        if dur:
            k["duration"] = ctx.V("D")
        k.update(kw)
        return ctx.call(interp, f, **k)

    for n in sizes:
        for dur in (True, False):
            if not dur and n < 3:
                continue

            def inside(n=n, dur=dur):
                dd = D if dur else P
                g = mk_(ctx, n, dur)
                # a time inside the tabulated window of an arbitrary transit
                s = T0 + C(0) + V("k") * P + V("s") * dd * C(999) / C(1000)
                r = ctx.call(g, T_(s))
                if ctx.shape(r) != ():
                    raise Refuted(f"scalar time gives shape {ctx.shape(r)}")
                grid = [dd * (C(i) / C(n - 1) - C(1) / C(2)) for i in range(n)]
                h = V("s") * dd * C(999) / C(1000)
                f = [ph_(T0 + x) for x in grid]
                w = f[-1]
                for i in range(n - 2, -1, -1):
                    seg = f[i] + (f[i + 1] - f[i]) * (h - grid[i]) / (grid[i + 1] - grid[i])
                    w = tm.ite(tm.le(h, grid[i + 1]), seg, w)
                run.equal(ctx, r, [w], d, "linear interpolation between the samples of any transit", probes=12 if run.tier == "quick" else 60)
                return "congruent"

            run.ob(f"inside[n={n}|duration={dur}]", inside, "folded piecewise-linear interpolant around every transit")

            def nodes(n=n, dur=dur):
                dd = D if dur else P
                g = mk_(ctx, n, dur)
                for i in range(n if dur else n - 1):
                    if not dur and i == 0:
                        continue
                    t = T0 + dd * (C(i) / C(n - 1) - C(1) / C(2))
                    run.equal(ctx, ctx.call(g, T_(t)), [ph_(t)], d, "exact at the tabulated times")
                return "congruent"

            run.ob(f"nodes[n={n}|duration={dur}]", nodes, "exact at the grid points")

            def period(n=n, dur=dur):
                g = mk_(ctx, n, dur)
                a = ctx.call(g, ctx.V("t"))
                b = ctx.call(g, T_(V("t") + V("k") * P))
                return run.equal(ctx, b, a, d, "periodic in time")

            run.ob(f"periodic[n={n}|duration={dur}]", period, "periodicity")

        def flat(n=n):
            """out of transit the model of a flat baseline is the baseline"""
            np_ = ctx.it.models.np

            def f(time):
                m = np_.A(time.m)
                r = np_.map(lambda x: tm.ite(tm.lt(tm.abs_(folded(x, T0, P)), D * C(49) / C(100)), tm.fn("F", folded(x, T0, P)), V("c")), m)
                r.kind = "jax"
                return r

            g = ctx.call(interp, f, period=ctx.V("P"), time_transit=ctx.V("T0"), duration=ctx.V("D"), num_samples=n)
            s = T0 + V("k") * P + D / C(2) + (P - D) * (V("s") + C(1) / C(2))
            return run.equal(ctx, ctx.call(g, T_(s)), [V("c")], d, "baseline outside of the tabulated window")

        run.ob(f"outside[n={n}]", flat, "outside the tabulated window the edge value is returned")
    for mode in ("result-unit", "time-h", "period-h", "t0-h", "duration-h", "vector", "matrix", "args", "planets", "planets-unit", "bands"):
        def go(mode=mode):
            n = 5
            if mode in ("planets", "planets-unit", "bands"):
                # outputs with trailing axes: every component interpolated by itself
                osh = (2, 3) if mode == "bands" else (2,)
                np_ = ctx.it.models.np

                def many(time):
                    m = np_.A(time.m)
                    r = Arr(np.empty(m.shape + osh, dtype=object), "f", "jax", m.tr)
                    for idx in np.ndindex(*m.shape):
                        for j, sub in enumerate(np.ndindex(*osh)):
                            r.d[idx + sub] = tm.fn(f"G{j}", ph_(m.d[idx]))
                    return Qty(r, ctx.unit("K")) if mode == "planets-unit" else r

                def single(j):
                    def f(time):
                        return np_.map(lambda x: tm.fn(f"G{j}", ph_(x)), np_.A(time.m))

                    return f

                kw = dict(period=ctx.V("P"), time_transit=ctx.V("T0"), duration=ctx.V("D"), num_samples=n)
                for t in (ctx.V("t"), ctx.arr("t", (2,))):
                    r = ctx.call(ctx.call(interp, many, **kw), t)
                    if mode == "planets-unit":
                        if not isinstance(r, Qty):
                            raise Refuted("the units of the light curve are lost")
                        r = r.m
                    sh = ctx.shape(t)
                    if ctx.shape(r) != sh + osh:
                        raise Refuted(f"times {sh} of a light curve with output {osh} give shape {ctx.shape(r)}")
                    want = np.empty(sh + osh, dtype=object)
                    for j, sub in enumerate(np.ndindex(*osh)):
                        w = ctx.call(ctx.call(interp, single(j), **kw), t)
                        want[(Ellipsis,) + sub] = w.d
                    run.equal(ctx, r, list(want.reshape(-1)), d, "each output separately")
                return "congruent"
            h = ctx.table.ratio(ctx.unit("h"), ctx.unit("d"))
            base = ctx.flat(ctx.call(mk_(ctx, n, True), ctx.V("t")))
            if mode == "result-unit":
                r = ctx.call(mk_(ctx, n, True, "K"), ctx.V("t"))
                if not isinstance(r, Qty):
                    raise Refuted("the units of the light curve are lost")
                return run.equal(ctx, ctx.mag(r, "K"), base, d, "light curve with units")
            if mode == "time-h":
                return run.equal(ctx, ctx.call(mk_(ctx, n, True), Qty(T_(V("t") / h), ctx.unit("h"))), base, d, "time in hours")
            if mode.endswith("-h"):
                key, v = {"period-h": ("period", P), "t0-h": ("time_transit", T0), "duration-h": ("duration", D)}[mode]
                g = mk_(ctx, n, True, **{key: Qty(T_(v / h), ctx.unit("h"))})
                return run.equal(ctx, ctx.call(g, ctx.V("t")), base, d, f"{key} in hours")
            if mode == "args":
                g = mk_(ctx, n, True, args=(ctx.V("a"),), kwargs={"q": ctx.V("c")})
                t = T0 + D * C(1) / C(4)
                return run.equal(ctx, ctx.call(g, T_(t)), [ph_(t, V("a"), V("c"))], d, "extra arguments are forwarded")
            sh = (3,) if mode == "vector" else (2, 2)
            g = mk_(ctx, n, True)
            r = ctx.call(g, ctx.arr("t", sh))
            if ctx.shape(r) != sh:
                raise Refuted(f"times of shape {sh} give shape {ctx.shape(r)}")
            return run.equal(ctx, r, [tm.subst(base[0], {V("t"): x}) for x in ctx.flat(ctx.arr("t", sh))], d, "each time separately")

        run.ob(f"interface[{mode}]", go, "units, shapes and extra arguments")
    run.absorb(ctx)


# ------------------------------------------------------------------ L06
def L06(run: Run):
    ctx = Ctx()
    vec = ctx.get("jaxoplanet.light_curves.utils:vectorize")
    d = Dom(ranges={"t*": _time, "a": (0.2, 1), "u:s": lambda e, g: (mpf(9) / 10 + u01(g) / 5) / 86400})
    seen = []

    def scalar_only(unit_in, unit_out, shape):
        f = ufunc(ctx, "F", unit_out, shape=shape)

        def g(time, *a, **k):
            m = time.m if isinstance(time, Qty) else time
            if ctx.shape(m) != ():
                raise Refuted(f"the wrapped function received times of shape {ctx.shape(m)}")
            if unit_in and not isinstance(time, Qty):
                raise Refuted("the units of the time were dropped")
            if not unit_in and isinstance(time, Qty):
                raise Refuted("a plain time was converted")
            return f(time, *a, **k)

        return g

    for sh in ((), (1,), (3,), (2, 3), (2, 1, 2), (0,), (2, 0)):
        for uin in (None, "d", "h"):
            for uout in (None, "K"):
                for osh in ((), (2,)):
                    def go(sh=sh, uin=uin, uout=uout, osh=osh):
                        f = ctx.call(vec, scalar_only(uin, uout, osh))
                        t = ctx.arr("t", sh) if sh else ctx.V("t")
                        q = Qty(t, ctx.unit(uin)) if uin else t
                        fac = ctx.table.ratio(ctx.unit(uin), ctx.unit("d")) if uin else tm.ONE
                        r = ctx.call(f, q, ctx.V("a"))
                        if uout and not isinstance(r, Qty):
                            raise Refuted("the units of the result are lost")
                        if ctx.shape(r) != sh + osh:
                            raise Refuted(f"times of shape {sh} give shape {ctx.shape(r)}, expected {sh + osh}")
                        want = []
                        for x in ctx.flat(t):
                            for j in range(osh[0] if osh else 1):
                                want.append(tm.fn("F" + (str(j) if osh else ""), x * fac, V("a")))
                        if not want:
                            return "holds"
                        return run.equal(ctx, ctx.mag(r, uout) if uout else r, want, d, "elementwise over time")

                    run.ob(f"vectorize[{sh}|time={uin}|out={uout}{osh}]", go, "maps over every axis of time, and only over time")

    def kw():
        f = ctx.call(vec, scalar_only(None, None, ()))
        r = ctx.call(f, ctx.arr("t", (2,)), q=ctx.V("a"))
        return run.equal(ctx, r, [tm.fn("F", V(f"t[{i}]"), V("a")) for i in range(2)], d, "keyword arguments are forwarded")

    run.ob("vectorize-kwargs", kw, "keyword arguments are forwarded unchanged")

    def arrarg():
        def g(time, a):
            if ctx.shape(a) != (3,):
                raise Refuted("extra arguments are mapped over")
            np_ = ctx.it.models.np
            return np_.map(lambda x: tm.fn("F", x, *ctx.flat(a)), np_.A(time))

        r = ctx.call(ctx.call(vec, g), ctx.arr("t", (3,)), ctx.arr("a", (3,)))
        return run.equal(ctx, r, [tm.fn("F", V(f"t[{i}]"), *[V(f"a[{j}]") for j in range(3)]) for i in range(3)], d, "extra arguments are not mapped over")

    run.ob("vectorize-array-args", arrarg, "only time is broadcast")
    run.absorb(ctx)
