"""Systems of bodies, transit orbits and transit timing variations."""
from __future__ import annotations

from .. import terms as tm
from fractions import Fraction

from ..harness import Ctx, Dom, Refuted, Run, Undecided, expect_raise, raises
from ..values import Arr, Obj, PyRaise, Qty, scalar
from .orbit_model import AXES, C, KEP, PI, Orb, V, _pick, configs, label

OBS = ("position", "central_position", "relative_position", "velocity", "central_velocity", "relative_velocity", "radial_velocity")
BASE = {"size": "P", "time": "tt", "inc": "b", "ecc": None, "asc": None, "mass": "m", "radius": "r", "K": None, "par": None}


def T_(t, kind="jax"):
    return scalar(t, "f", kind, frozenset())


def as_list(r):
    return list(r) if isinstance(r, (tuple, list)) else [r]


def phys(ctx, q):
    return ctx.phys(q) if isinstance(q, Qty) else ctx.flat(q)


def merged(*orbs):
    d = orbs[0].dom()
    for o in orbs[1:]:
        d.ranges.update(o.dom().ranges)
    return d


MIXES = {
    "same": [{}, {}],
    "same3": [{}, {}, {}],
    "ecc+circ": [{"ecc": "w"}, {}],
    "angles": [{"inc": "i", "asc": "W"}, {"inc": None}, {"size": "a", "time": "tp"}],
    "mass+none": [{}, {"mass": None, "radius": "r"}],
    "all-ecc": [{"ecc": "sc", "inc": "i"}, {"ecc": "w", "inc": "i"}],
}


def mk(ctx, mix):
    return [Orb(ctx, {**BASE, **c}, suffix=str(i)) for i, c in enumerate(mix)]


def build(ctx, orbs, how="add"):
    central = ctx.call(ctx.get(f"{KEP}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
    System, Body, OB = (ctx.get(f"{KEP}:{n}") for n in ("System", "Body", "OrbitalBody"))
    if how == "bodies":
        return central, ctx.call(System, central, bodies=[ctx.call(Body, **o.kw) for o in orbs])
    if how == "orbital":
        return central, ctx.call(System, central, bodies=tuple(ctx.call(OB, central, ctx.call(Body, **o.kw)) for o in orbs))
    s = ctx.call(System, central)
    for i, o in enumerate(orbs):
        if how == "mixed" and i % 2:
            s = ctx.meth(s, "add_body", ctx.call(Body, **o.kw))
        else:
            s = ctx.meth(s, "add_body", **o.kw)
    return central, s


def K10(run: Run):
    ctx = Ctx("kepler")
    for name, mix in MIXES.items():
        for how in ("add", "bodies", "orbital", "mixed"):
            def go(mix=mix, how=how):
                orbs = mk(ctx, mix)
                central, s = build(ctx, orbs, how)
                d = merged(*orbs)
                solo = []
                for o in orbs:
                    o.central = central
                    solo.append(o.build(ctx))
                n = len(orbs)
                bodies = ctx.attr(s, "bodies")
                if len(bodies) != n:
                    raise Refuted(f"system has {len(bodies)} bodies after adding {n}")
                if ctx.attr(s, "shape") != (n,):
                    raise Refuted("System.shape is not (number of bodies,)")
                for nm in OBS:
                    got = as_list(ctx.meth(s, nm, ctx.Q("t", "d")))
                    per = [as_list(ctx.meth(b, nm, ctx.Q("t", "d"))) for b in solo]
                    for k, g in enumerate(got):
                        gl = phys(ctx, g)
                        if len(gl) != n:
                            raise Refuted(f"System.{nm} has {len(gl)} values for {n} bodies")
                        want = [phys(ctx, p[k])[0] for p in per]
                        run.equal(ctx, gl, want, d, f"System.{nm} component {k} equals the per-body evaluation, in order")
                run.equal(ctx, ctx.mag(ctx.attr(s, "radius"), "R_sun"), [o.r for o in orbs], d, "System.radius")
                run.equal(ctx, ctx.mag(ctx.attr(s, "central_radius"), "R_sun"), [V("Rc")] * n, d, "System.central_radius")
                return "congruent"

            run.ob(f"stack[{name}|{how}]", go, "mapping over bodies equals the loop over bodies")

    # persistence of add_body
    for name in ("same", "ecc+circ", "angles"):
        def go(name=name):
            orbs = mk(ctx, MIXES[name])
            central, s = build(ctx, orbs[:1], "add")
            before = ctx.attr(s, "bodies")
            s2 = ctx.meth(s, "add_body", **orbs[1].kw)
            if s2 is s:
                raise Refuted("add_body returns the same system")
            if len(ctx.attr(s, "bodies")) != 1:
                raise Refuted("add_body modified the system it was called on")
            if ctx.attr(s2, "central") is not central:
                raise Refuted("add_body changed the central body")
            d = merged(*orbs)
            a = as_list(ctx.meth(ctx.attr(s2, "bodies")[0], "relative_position", ctx.Q("t", "d")))
            b = as_list(ctx.meth(before[0], "relative_position", ctx.Q("t", "d")))
            for x, y in zip(a, b):
                run.equal(ctx, phys(ctx, x), phys(ctx, y), d, "earlier body is preserved by add_body")
            return "holds"

        run.ob(f"add_body-persistent[{name}]", go, "add_body is a pure extension")

    def other_central():
        orbs = mk(ctx, MIXES["same"])
        central, s = build(ctx, orbs[:1], "add")
        c2 = ctx.call(ctx.get(f"{KEP}:Central"), mass=ctx.V("Mc2"), radius=ctx.V("Rc2"))
        s2 = ctx.meth(s, "add_body", central=c2, **orbs[1].kw)
        if ctx.attr(s2, "central") is not central:
            raise Refuted("the system's own central body was replaced")
        ref = ctx.call(ctx.get(f"{KEP}:OrbitalBody"), c2, ctx.call(ctx.get(f"{KEP}:Body"), **orbs[1].kw))
        d = merged(*orbs)
        d.ranges.update({"Mc2": (1.6, 2), "Rc2": (0.65, 0.9)})
        got = as_list(ctx.meth(s2, "relative_position", ctx.Q("t", "d")))
        want = as_list(ctx.meth(ref, "relative_position", ctx.Q("t", "d")))
        for g, w in zip(got, want):
            run.equal(ctx, [phys(ctx, g)[1]], phys(ctx, w), d, "body orbiting its own central")
        return run.equal(ctx, ctx.mag(ctx.attr(s2, "central_radius"), "R_sun"), [V("Rc"), V("Rc2")], d, "central_radius per body")

    run.ob("add_body-own-central", other_central, "add_body(central=...) binds the body to that central")

    # generic vmap
    for name in ("same", "same3", "ecc+circ", "angles"):
        for in_axes, out_axes in ((None, 0), ("default", "default"), (0, 0), ((0, None), 0), ((1, None), 0), ((None, 0), 0), (0, 1), (-1, 0), ((-2, -1), 0), ((None, -1), -1)):
            def go(name=name, in_axes=in_axes, out_axes=out_axes):
                orbs = mk(ctx, MIXES[name])
                _, s = build(ctx, orbs)
                n = len(orbs)
                d = merged(*orbs)
                f = ctx.client("f = lambda body, x, y: (body.radius.magnitude * x.sum() + y.sum(), body.period.magnitude * x)")["f"]
                how = {} if in_axes == "default" else {"in_axes": in_axes, "out_axes": out_axes if out_axes == 0 else (0, out_axes)}
                if in_axes == "default":
                    in_axes = out_axes = 0
                ax = in_axes if isinstance(in_axes, tuple) else (in_axes, in_axes)
                args = []
                for k, a in enumerate(ax):
                    m = 2
                    sh = (m,) if a is None else ((n, m) if a in (0, -2) else (m, n))
                    args.append(ctx.arr(f"arg{k}", sh))
                g = ctx.meth(s, "body_vmap", f, **how)
                r0, r1 = ctx.call(g, *args)
                import numpy as np

                def pick(a, i, j):
                    arr = args[a].d
                    return arr[j] if ax[a] is None else (arr[i, j] if ax[a] in (0, -2) else arr[j, i])

                w0 = []
                for i, o in enumerate(orbs):
                    P = ctx.mag(ctx.attr(ctx.attr(s, "bodies")[i], "period"), "d")[0]
                    w0.append(o.r * (pick(0, i, 0) + pick(0, i, 1)) + pick(1, i, 0) + pick(1, i, 1))
                run.equal(ctx, ctx.flat(r0), w0, d, "body_vmap reduction output")
                w1 = np.empty((n, 2), dtype=object)
                for i in range(n):
                    P = ctx.mag(ctx.attr(ctx.attr(s, "bodies")[i], "period"), "d")[0]
                    for j in range(2):
                        w1[i, j] = P * pick(0, i, j)
                if out_axes != 0:
                    w1 = w1.T
                if ctx.shape(r1) != w1.shape:
                    raise Refuted(f"body_vmap output shape {ctx.shape(r1)}, expected {w1.shape}")
                return run.equal(ctx, ctx.flat(r1), list(w1.reshape(-1)), d, "body_vmap array output")

            run.ob(f"body_vmap[{name}|in={in_axes}|out={out_axes}]", go, "vmap semantics for stacked and unstackable bodies")

        def direct(name=name):
            orbs = mk(ctx, MIXES[name])
            _, s = build(ctx, orbs)
            n = len(orbs)
            st = ctx.call(ctx.get("jaxoplanet.object_stack:ObjectStack"), *ctx.it.iterate(ctx.attr(s, "bodies")))
            if ctx.it.models.b_len(st) != n:
                raise Refuted("length of the stack")
            f = ctx.client("f = lambda body, x: (body.radius.magnitude * x.sum(), x)")["f"]
            x = ctx.arr("x", (n, 2))
            r0, r1 = ctx.call(ctx.meth(st, "vmap", f), x)
            run.equal(ctx, ctx.flat(r0), [o.r * (x.d[i, 0] + x.d[i, 1]) for i, o in enumerate(orbs)], merged(*orbs), "one value per object")
            if ctx.shape(r1) != (n, 2):
                raise Refuted(f"output shape {ctx.shape(r1)}, expected {(n, 2)}")
            return run.equal(ctx, ctx.flat(r1), list(x.d.reshape(-1)), merged(*orbs), "objects and mapped arguments are paired in order")

        run.ob(f"ObjectStack.vmap[{name}]", direct, "one call per object, mapped over the leading axis by default")

        def mismatch(name=name):
            orbs = mk(ctx, MIXES[name])
            _, s = build(ctx, orbs)
            n = len(orbs)
            f = ctx.client("f = lambda body, x: body.radius.magnitude * x")["f"]
            for m in (1, n + 1):
                expect_raise(lambda: ctx.call(ctx.meth(s, "body_vmap", f), ctx.arr("x", (m,))), ("ValueError",), f"mapping {m} values over {n} bodies")
            return "holds"

        run.ob(f"body_vmap-mismatch[{name}]", mismatch, "one value per body is required, as by jax.vmap")
    run.absorb(ctx)


# ------------------------------------------------------------------ K11
TR = "jaxoplanet.orbits.transit:TransitOrbit"


def tdom(**kw):
    r = {"t": _pick((-20, 20), (-20, 20), (-20, 20), (-40000, -9000), (9000, 40000)), "P*": (3, 5), "dur*": _pick((0.4, 2.5), (0.4, 2.5), (0.001, 0.01)), "v*": _pick((3, 9), (3, 9), (100, 900)),
         "t0*": _pick((-2, 2), (-2, 2), (-0.01, 0.01), (5000, 9000)), "b*": _pick((-0.8, 0.8), (-0.8, 0.8), (-0.01, 0.01)), "r*": _pick((0.05, 0.3), (0.05, 0.3), (0.002, 0.01))}
    r.update(kw)
    return Dom(ranges=r)


def tmax(a, b):
    return tm.maximum(a, b)


def folded(t, t0, P):
    h = P / C(2)
    return tm.fn("mod", t - t0 + h, P) - h


def K11(run: Run):
    ctx = Ctx()
    TO = ctx.get(TR)
    z0 = tm.ZERO
    for size in ("duration", "speed", "both"):
        for n in (0, 2, 3):
            for opt in ((), ("time_transit",), ("impact_param",), ("radius_ratio",), ("time_transit", "impact_param", "radius_ratio")):
                for sc in ((), opt[:1]) if n else ((),):
                    def go(size=size, n=n, opt=opt, sc=sc):
                        short = {"period": "P", "duration": "dur", "speed": "v", "time_transit": "t0", "impact_param": "b", "radius_ratio": "r"}
                        names = ["period"] + (["duration", "speed"] if size == "both" else [size]) + list(opt)
                        kw = {}
                        for nm in names:
                            s = short[nm]
                            kw[nm] = ctx.arr(s, (n,)) if n and nm not in sc else ctx.V(s)
                        o = ctx.call(TO, **kw)

                        def el(nm, i):
                            s = short[nm]
                            if nm not in kw:
                                return z0
                            return V(f"{s}[{i}]") if n and nm not in sc else V(s)

                        d = tdom()
                        m = n or 1
                        t = V("t")
                        tq = ctx.Q("t", "d")
                        res = ctx.meth(o, "relative_position", tq)
                        if not isinstance(res, tuple) or len(res) != 3:
                            raise Refuted("relative_position does not return x, y, z")
                        X, Y, Z = [ctx.mag(q, "dimensionless") for q in res]
                        if len(X) != m or len(Y) != m or len(Z) != m:
                            raise Refuted(f"relative_position has {len(X)}/{len(Y)}/{len(Z)} elements for {m} planets")
                        dur = ctx.mag(ctx.attr(o, "duration"), "d")
                        spd = ctx.mag(ctx.attr(o, "speed"), "1/d")
                        ctx.shape(ctx.attr(o, "period"))
                        if ctx.attr(o, "shape") != ((n,) if n else ()):
                            raise Refuted("shape is not the shape of the period")
                        run.equal(ctx, ctx.mag(ctx.attr(o, "central_radius"), "dimensionless"), [tm.ONE] * m, d, "central_radius is 1")
                        run.equal(ctx, _bc(ctx.mag(ctx.attr(o, "radius"), "dimensionless"), m), [el("radius_ratio", i) for i in range(m)], d, "radius is the radius ratio")
                        for i in range(m):
                            b, r, P, t0 = (el(k, i) for k in ("impact_param", "radius_ratio", "period", "time_transit"))
                            chord = C(2) * tm.sqrt((tm.ONE + r) * (tm.ONE + r) - b * b)
                            di, vi = _bc(dur, m)[i], _bc(spd, m)[i]
                            if "duration" in kw:
                                wd = el("duration", i)
                                wv = chord / wd
                            else:
                                wv = el("speed", i)
                                wd = chord / wv
                            run.equal(ctx, [di], [wd], d, "duration")
                            run.equal(ctx, [vi], [wv], d, "speed x duration = chord of the contact circle")
                            dt = folded(t, t0, P)
                            run.equal(ctx, [X[i]], [wv * dt], d, "x = speed x (time since the nearest transit)")
                            run.equal(ctx, [Y[i]], [b], d, "y = impact parameter")
                            inside = tm.lt(tm.abs_(dt), wd / C(2))
                            run.equal(ctx, [Z[i]], [tm.ite(inside, tm.ONE, -tm.ONE)], d, "in front of the star exactly during the transit")
                            # at epochs t0 + k P the planet is centred and in front
                            for k in (-2, 0, 3):
                                s = {t: t0 + C(k) * P}
                                dd = tdom()
                                tiny = [tm.subst(X[i], s), tm.subst(Z[i], s)]
                                run.equal(ctx, tiny, [z0, tm.ONE], dd, f"centred at transit {k}")
                            # just inside and just outside of the contacts
                            for k, sg, dl in ((0, 1, -1), (0, 1, 1), (1, -1, -1), (-3, -1, 1)):
                                s = {t: t0 + C(k) * P + C(sg) * wd / C(2) * (tm.ONE + C(dl) * tm.const(Fraction(1, 1000)))}
                                run.equal(ctx, [tm.subst(X[i], s), tm.subst(Z[i], s)], [tm.subst(wv * dt, s), C(-dl)], tdom(), f"{'inside' if dl < 0 else 'outside'} of the contact of transit {k}")
                        return "congruent"

                    run.ob(f"transit[{size}|n={n}|{','.join(opt)}|scalar={','.join(sc)}]", go, "constant-speed chord, folded at the period")

    def noargs():
        return expect_raise(lambda: ctx.call(TO, period=ctx.V("P")), ("ValueError",), "neither speed nor duration")

    run.ob("transit-missing-duration", noargs, "one of speed/duration is required")

    def grazing():
        o = ctx.call(TO, period=ctx.V("P"), speed=ctx.V("v"), impact_param=ctx.V("b"), radius_ratio=ctx.V("r"))
        d = tdom(**{"b": (1.4, 2.0), "t": (-3, 3)})
        run.equal(ctx, ctx.mag(ctx.attr(o, "duration"), "d"), [z0], d, "no transit for b > 1 + r")
        return run.equal(ctx, ctx.mag(ctx.meth(o, "relative_position", ctx.Q("t", "d"))[2], "dimensionless"), [-tm.ONE], d, "never in front for b > 1 + r")

    run.ob("transit-missing-star", grazing, "non-transiting geometry")
    run.absorb(ctx)


def _bc(xs, m):
    return xs * m if len(xs) == 1 and m > 1 else xs


# ------------------------------------------------------------------ K12
TTV = "jaxoplanet.orbits.ttv:TTVOrbit"


def K12(run: Run):
    ctx = Ctx()
    TO = ctx.get(TTV)

    # transit times that are realistic (sorted, separated): jitter on a linear ephemeris
    def dom_times(inds, t=None):
        r = {"dur*": (0.3, 0.6), "b*": (-0.5, 0.5), "r*": (0.05, 0.2), "dlp": (-0.05, 0.05), "t0*": (-1, 1), "P*": (3, 5)}
        for p, ii in enumerate(inds):
            for j, k in enumerate(ii):
                c = (4 + p) * k + 0.3 * p
                r[f"tt{p}[{j}]"] = (c - 0.3, c + 0.3)
                r[f"dt{p}[{j}]"] = (-0.3, 0.3)
        if t is not None:
            r["t"] = t
        return Dom(ranges=r)

    layouts = {
        "1x3": [[0, 1, 2]], "1x4gap": [[0, 1, 3, 4]], "2": [[0, 1, 2], [0, 1, 2, 3]], "2gap": [[1, 2, 5], [0, 2]], "1x2": [[0, 1]],
    }
    for ln, inds in layouts.items():
        default_inds = all(ii == list(range(len(ii))) for ii in inds)
        for mode in ("plain", "quantity"):
            for given in ("", "delta", "period", "t0", "t0-scalar"):
                def go(inds=inds, mode=mode, default_inds=default_inds, given=given):
                    tts = []
                    for p, ii in enumerate(inds):
                        a = ctx.arr(f"tt{p}", (len(ii),))
                        tts.append(Qty(a, ctx.unit("d")) if mode == "quantity" else a)
                    np_ = ctx.it.models.np
                    n = len(inds)
                    kw = dict(transit_times=tuple(tts), duration=ctx.V("dur"), impact_param=ctx.V("b"), radius_ratio=ctx.V("r"))
                    if not default_inds or mode == "quantity":
                        kw["transit_inds"] = tuple(np_.A([int(k) for k in ii]) for ii in inds)
                    if given == "t0":
                        kw["time_transit"] = ctx.V("t0") if n == 1 else ctx.arr("t0", (n,))
                    if given == "t0-scalar":
                        kw["time_transit"] = ctx.Q("t0", "d")
                    if given == "delta":
                        kw["delta_log_period"] = ctx.V("dlp")
                    if given == "period":
                        kw["period"] = ctx.V("P") if n == 1 else ctx.arr("P", (n,))
                    o = ctx.call(TO, **kw)
                    d = dom_times(inds)
                    t0 = ctx.flat(ctx.attr(o, "t0"))
                    P = ctx.flat(ctx.attr(o, "ttv_period"))
                    if len(t0) != n or len(P) != n:
                        raise Refuted("t0/ttv_period do not have one element per planet")
                    ttvs = ctx.attr(o, "ttvs")
                    run.equal(ctx, ctx.flat(ctx.attr(o, "linear_t0")), t0, d, "linear_t0")
                    run.equal(ctx, ctx.flat(ctx.attr(o, "linear_period")), P, d, "linear_period")
                    for p, ii in enumerate(inds):
                        tt = [V(f"tt{p}[{j}]") for j in range(len(ii))]
                        run.equal(ctx, ctx.flat(ctx.attr(o, "transit_times")[p]), tt, d, "transit_times are kept")
                        res = ctx.flat(ttvs[p])
                        run.equal(ctx, res, [t - (t0[p] + P[p] * C(k)) for t, k in zip(tt, ii)], d, "ttvs = observed - linear ephemeris")
                        s0 = s1 = tm.ZERO
                        for x, k in zip(res, ii):
                            s0 = s0 + x
                            s1 = s1 + x * C(k)
                        run.equal(ctx, [s0, s1], [tm.ZERO, tm.ZERO], d, "normal equations of the least-squares ephemeris")
                    per = ctx.mag(ctx.attr(o, "period"), "d")
                    if given == "delta":
                        run.equal(ctx, per, [x * tm.fn("exp", V("dlp")) for x in P], d, "period = exp(delta_log_period) x fitted period")
                    elif given == "period":
                        run.equal(ctx, per, [V("P")] if n == 1 else [V(f"P[{i}]") for i in range(n)], d, "explicit period is kept")
                    else:
                        run.equal(ctx, per, P, d, "period = fitted period")
                    align(o, inds, n, d)
                    return "congruent"

                def align(o, inds, n, d):
                    # every tabulated transit is centred and in front
                    for p, ii in enumerate(inds):
                        for j in range(len(ii)):
                            r = ctx.meth(o, "relative_position", Qty(T_(V(f"tt{p}[{j}]")), ctx.unit("d")))
                            X, _, Z = [ctx.mag(q, "dimensionless") for q in r]
                            if len(X) != n:
                                raise Refuted(f"relative_position has {len(X)} elements for {n} planets")
                            run.equal(ctx, [X[p], Z[p]], [tm.ZERO, tm.ONE], d, f"planet {p} is centred at its transit {j}", rel=tm_rel)

                run.ob(f"ttv-times[{ln}|{mode}|{given}]", go, "least-squares ephemeris and alignment with the tabulated transits")

                def warp(inds=inds):
                    """piecewise shift by the nearest transit"""
                    n = len(inds)
                    np_ = ctx.it.models.np
                    o = ctx.call(TO, transit_times=tuple(ctx.arr(f"tt{p}", (len(ii),)) for p, ii in enumerate(inds)),
                                 transit_inds=tuple(np_.A([int(k) for k in ii]) for ii in inds), duration=ctx.V("dur"))
                    t0 = ctx.flat(ctx.attr(o, "t0"))
                    P = ctx.flat(ctx.attr(o, "ttv_period"))
                    t = V("t")
                    r = ctx.meth(o, "relative_position", ctx.Q("t", "d"))
                    X = ctx.mag(r[0], "dimensionless")
                    spd = ctx.mag(ctx.attr(o, "speed"), "1/d")
                    spd = _bc(spd, n)
                    d = dom_times(inds, (-6, 26))
                    for p, ii in enumerate(inds):
                        tt = [V(f"tt{p}[{j}]") for j in range(len(ii))]
                        best = tt[-1]
                        for j in range(len(tt) - 2, -1, -1):
                            mid = (tt[j] + tt[j + 1]) / C(2)
                            best = tm.ite(tm.le(t, mid), tt[j], best)
                        want = spd[p] * folded(t - (best - t0[p]), t0[p], P[p])
                        run.equal(ctx, [X[p]], [want], d, "phase relative to the nearest tabulated transit", probes=24 if run.tier == "quick" else 96)
                        # on either side of the midpoints, and just beyond the tabulated epochs
                        at = [(tt[j] + tt[j + 1]) / C(2) for j in range(len(tt) - 1)] + [tt[0] - P[p] / C(2), tt[-1] + P[p] / C(2)]
                        for q in at:
                            for dl in (-1, 1):
                                s = {t: q + C(dl) * tm.const(Fraction(1, 2000))}
                                run.equal(ctx, [tm.subst(X[p], s)], [tm.subst(want, s)], d, "the nearest tabulated transit, next to a midpoint")
                    return "congruent"

                if mode == "plain" and not given:
                    run.ob(f"ttv-warp[{ln}]", warp, "times are shifted by the offset of the nearest transit")
    # ttvs mode
    for ln, inds in layouts.items():
        n = len(inds)
        for ps in (("scalar",) if n == 1 else ("scalar", "vector")):
            for ts in ("none", "scalar", "vector"):
                if ts == "vector" and n == 1:
                    continue
                for mode in ("plain", "quantity"):
                    def go(inds=inds, n=n, ps=ps, ts=ts, mode=mode):
                        np_ = ctx.it.models.np
                        q = (lambda a: Qty(a, ctx.unit("d"))) if mode == "quantity" else (lambda a: a)
                        kw = dict(ttvs=tuple(q(ctx.arr(f"dt{p}", (len(ii),))) for p, ii in enumerate(inds)), duration=ctx.V("dur"),
                                  impact_param=ctx.V("b"), radius_ratio=ctx.V("r"),
                                  transit_inds=tuple(np_.A([int(k) for k in ii]) for ii in inds))
                        kw["period"] = q(ctx.V("P") if ps == "scalar" else ctx.arr("P", (n,)))
                        if ts != "none":
                            kw["time_transit"] = q(ctx.V("t0") if ts == "scalar" else ctx.arr("t0", (n,)))
                        o = ctx.call(TO, **kw)
                        d = dom_times(inds)
                        tts = ctx.attr(o, "transit_times")
                        if len(tts) != n:
                            raise Refuted(f"{len(tts)} transit time arrays for {n} planets")
                        for p, ii in enumerate(inds):
                            dts = [V(f"dt{p}[{j}]") for j in range(len(ii))]
                            mean = tm.ZERO
                            for x in dts:
                                mean = mean + x
                            mean = mean / C(len(dts))
                            P = V("P") if ps == "scalar" else V(f"P[{p}]")
                            t0 = tm.ZERO if ts == "none" else V("t0") if ts == "scalar" else V(f"t0[{p}]")
                            run.equal(ctx, ctx.flat(tts[p]), [t0 + P * C(k) + x - mean for k, x in zip(ii, dts)], d, "transit time = t0 + period x index + (ttv - mean ttv)")
                            run.equal(ctx, ctx.flat(ctx.attr(o, "ttvs")[p]), [x - mean for x in dts], d, "mean-subtracted ttvs")
                            for j, tt in enumerate(ctx.flat(tts[p])):
                                r = ctx.meth(o, "relative_position", Qty(T_(tt), ctx.unit("d")))
                                X, Y, Z = [ctx.mag(v, "dimensionless") for v in r]
                                if len(X) != n:
                                    raise Refuted(f"relative_position has {len(X)} elements for {n} planets")
                                run.equal(ctx, [X[p], Z[p]], [tm.ZERO, tm.ONE], d, f"planet {p} is centred at its transit {j}", rel=tm_rel)
                                run.equal(ctx, [_bc(Y, n)[p]], [V("b")], d, "impact parameter")
                        return "congruent"

                    run.ob(f"ttv-offsets[{ln}|period={ps}|t0={ts}|{mode}]", go, "linear ephemeris plus offsets")
    D = ctx.V("dur")
    one = (ctx.arr("tt0", (3,)),)
    bad = {
        "both": dict(transit_times=one, ttvs=one, period=ctx.V("P"), duration=D),
        "neither": dict(period=ctx.V("P"), duration=D),
        "ttvs-without-period": dict(ttvs=one, duration=D),
    }
    for nm, kw in bad.items():
        run.ob(f"ttv-reject[{nm}]", lambda kw=kw: expect_raise(lambda: ctx.call(TO, **kw), ("ValueError",), "inconsistent TTV specification"), "specification is validated")

    for unit, arg in (("h", "period"), ("h", "time_transit"), ("min", "duration"), ("h", "ttvs"), ("h", "transit_times")):
        def go(unit=unit, arg=arg):
            f = ctx.table.ratio(ctx.unit(unit), ctx.unit("d"))
            base = dict(period=ctx.V("P"), time_transit=ctx.V("t0"), duration=ctx.V("dur"))
            if arg == "transit_times":
                base = dict(duration=ctx.V("dur"), transit_times=(ctx.arr("tt0", (3,)),))
            else:
                base["ttvs"] = (ctx.arr("dt0", (3,)),)
            np_ = ctx.it.models.np

            def conv(a):
                return Qty(np_.map(lambda x: x / f, a), ctx.unit(unit))

            o1 = ctx.call(TO, **base)
            k2 = dict(base)
            k2[arg] = tuple(conv(a) for a in base[arg]) if isinstance(base[arg], tuple) else conv(base[arg])
            o2 = ctx.call(TO, **k2)
            d = dom_times([[0, 1, 2]], (-5, 14))
            for at in ("t0", "ttv_period"):
                run.equal(ctx, ctx.flat(ctx.attr(o2, at)), ctx.flat(ctx.attr(o1, at)), d, f"{at} in days")
            for p in range(3):
                a = ctx.mag(ctx.meth(o2, "relative_position", ctx.Q("t", "d"))[p], "dimensionless")
                b = ctx.mag(ctx.meth(o1, "relative_position", ctx.Q("t", "d"))[p], "dimensionless")
                run.equal(ctx, a, b, d, "position does not depend on the units of the arguments")
            return "congruent"

        run.ob(f"ttv-units[{arg}]", go, "unit conversion at the boundary")
    run.absorb(ctx)


import mpmath  # noqa: E402

tm_rel = mpmath.mpf(10) ** -8
