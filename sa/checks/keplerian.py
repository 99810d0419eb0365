from __future__ import annotations

import itertools

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, expect_raise, raises
from ..values import Arr, Obj, PyRaise, Qty
from .orbit_model import AXES, C, KEP, PI, Orb, V, configs, cos, label, neg, scale, sin

GEO = "two-body geometry, value-graph congruence with the documented convention"


def _central(ctx, **kw):
    return ctx.call(ctx.get(f"{KEP}:Central"), **kw)


# ------------------------------------------------------------------ K01
def K01(run: Run):
    """Central: rho = 3 M / (4 pi R^3) for every accepted combination"""
    rho = lambda M, R: C(3) * M / (C(4) * PI * R * R * R)  # noqa: E731
    M, R, D = V("M"), V("R"), V("D")
    mass_u, len_u, den_u = "M_sun", "R_sun", "M_sun/R_sun^3"
    cbrt = lambda x: tm.fn("cbrt", x)  # noqa: E731
    table = {
        (): (tm.ONE, tm.ONE, rho(tm.ONE, tm.ONE)),
        ("density",): (D * C(4) * PI / C(3), tm.ONE, D),
        ("mass", "radius"): (M, R, rho(M, R)),
        ("mass", "density"): (M, cbrt(C(3) * M / (C(4) * PI * D)), D),
        ("radius", "density"): (C(4) * PI * R * R * R * D / C(3), R, D),
    }
    alt = {"mass": "kg", "radius": "km", "density": "g/cm^3"}
    can = {"mass": mass_u, "radius": len_u, "density": den_u}
    var = {"mass": "M", "radius": "R", "density": "D"}
    ctx = Ctx()
    dom = Dom(default=(0.3, 2.5), ranges={"u:s": (0.8, 1.2)})
    for combo in itertools.chain.from_iterable(itertools.combinations(("mass", "radius", "density"), n) for n in range(4)):
        for mode in ("number", "quantity", "other-unit"):
            if not combo and mode != "number":
                continue

            def go(combo=combo, mode=mode):
                kw = {}
                conv = {}
                for k in combo:
                    x = ctx.V(var[k])
                    if mode == "number":
                        kw[k] = x
                    elif mode == "quantity":
                        kw[k] = ctx.Q(x, can[k])
                    else:
                        kw[k] = ctx.Q(x, alt[k])
                        conv[V(var[k])] = V(var[k]) * ctx.table.ratio(ctx.unit(alt[k]), ctx.unit(can[k]))
                if combo not in table:
                    return expect_raise(lambda: _central(ctx, **kw), None, f"Central({', '.join(combo)})")
                c = _central(ctx, **kw)
                st = "proved"
                for nm, want in zip(("mass", "radius", "density"), table[combo]):
                    w = tm.subst(want, conv) if conv else want
                    s = run.equal(ctx, ctx.mag(ctx.attr(c, nm), can[nm]), [w], dom, f"Central({','.join(combo)}).{nm}")
                    st = s if s != "proved" else st
                return st

            run.ob(f"central[{','.join(combo) or 'default'}|{mode}]", go, "spherical density closure")
    for combo in table:
        for bad in combo:
            def go(combo=combo, bad=bad):
                kw = {k: (ctx.vec(var[k], var[k] + "2") if k == bad else ctx.V(var[k])) for k in combo}
                return expect_raise(lambda: _central(ctx, **kw), ("ValueError",), f"Central with non-scalar {bad}")

            run.ob(f"central-nonscalar[{','.join(combo)}|{bad}]", go, "non-scalars are rejected")
    # from_orbital_properties
    for rad in (True, False):
        for bm in (True, False):
            def go(rad=rad, bm=bm):
                f = ctx.attr(ctx.get(f"{KEP}:Central"), "from_orbital_properties")
                kw = dict(period=ctx.V("P"), semimajor=ctx.V("a"))
                if rad:
                    kw["radius"] = ctx.V("R")
                if bm:
                    kw["body_mass"] = ctx.V("mb")
                c = ctx.call(f, **kw)
                G = ctx.table.ratio(ctx.unit("G"), ctx.unit("R_sun^3/M_sun/d^2"))
                a, P = V("a"), V("P")
                Mw = C(4) * PI * PI * a * a * a / (G * P * P) - (V("mb") if bm else tm.ZERO)
                Rw = R if rad else tm.ONE
                run.equal(ctx, ctx.mag(ctx.attr(c, "mass"), mass_u), [Mw], Dom(default=(0.5, 2)), "mass")
                run.equal(ctx, ctx.mag(ctx.attr(c, "radius"), len_u), [Rw], Dom(default=(0.5, 2)), "radius")
                return run.equal(ctx, ctx.mag(ctx.attr(c, "density"), den_u), [rho(Mw, Rw)], Dom(default=(0.5, 2)), "density")

            run.ob(f"from_orbital_properties[radius={rad},body_mass={bm}]", go, "Kepler's third law solved for the central mass")
    for bad in ("period", "semimajor", "body_mass"):
        def go(bad=bad):
            f = ctx.attr(ctx.get(f"{KEP}:Central"), "from_orbital_properties")
            kw = {k: (ctx.vec(k, k + "2") if k == bad else ctx.V(k)) for k in ("period", "semimajor", "body_mass")}
            return expect_raise(lambda: ctx.call(f, **kw), ("ValueError",), f"non-scalar {bad}")

        run.ob(f"from_orbital_properties-nonscalar[{bad}]", go, "non-scalars are rejected")
    run.absorb(ctx)


# ------------------------------------------------------------------ K02
BODY_ARGS = ("time_transit", "time_peri", "period", "semimajor", "inclination", "impact_param", "eccentricity", "omega_peri",
             "sin_omega_peri", "cos_omega_peri", "asc_node", "sin_asc_node", "cos_asc_node", "mass", "radius",
             "radial_velocity_semiamplitude", "parallax")


def well_formed(s):
    one = lambda a, b: (a in s) != (b in s)  # noqa: E731
    if not one("period", "semimajor"):
        return False
    sw, cw, w = "sin_omega_peri" in s, "cos_omega_peri" in s, "omega_peri" in s
    if sw != cw or (w and (sw or cw)):
        return False
    sn, cn, n = "sin_asc_node" in s, "cos_asc_node" in s, "asc_node" in s
    if sn != cn or (n and (sn or cn)):
        return False
    if ("eccentricity" in s) != (w or sw):
        return False
    if "impact_param" in s and "inclination" in s:
        return False
    return not ("time_transit" in s and "time_peri" in s)


def K02(run: Run):
    ctx = Ctx()
    Body = ctx.get(f"{KEP}:Body")
    groups = [
        ("period", "semimajor"), ("time_transit", "time_peri"), ("inclination", "impact_param"),
        ("eccentricity", "omega_peri", "sin_omega_peri", "cos_omega_peri"), ("asc_node", "sin_asc_node", "cos_asc_node"),
    ]
    free = ("mass", "radius", "radial_velocity_semiamplitude", "parallax")
    subsets = lambda g: [frozenset(c) for n in range(len(g) + 1) for c in itertools.combinations(g, n)]  # noqa: E731
    full = itertools.product(*[subsets(g) for g in groups])  # 4*4*4*16*8 = 8192 patterns
    pats = [frozenset().union(*c) for c in full]
    if run.tier == "quick":
        import random

        rng = random.Random(3)
        base = [p for p in pats if len(p - {"period"}) <= 4 and ("period" in p) != ("semimajor" in p)]
        rest = [p for p in pats if p not in set(base)]
        rng.shuffle(rest)
        pats = base + rest[:600]
    bad = []
    n = [0]

    def go():
        for p in pats:
            n[0] += 1
            for extra in ((), free) if n[0] % 7 == 0 else ((),):
                s = set(p) | set(extra)
                e = raises(lambda: ctx.call(Body, **{k: ctx.V(k) for k in s}))
                if well_formed(s) and e is not None:
                    raise Refuted(f"well-formed Body({', '.join(sorted(s))}) is rejected: {e.name}: {e.msg}", site=e.site)
                if not well_formed(s) and e is None:
                    raise Refuted(f"ill-formed Body({', '.join(sorted(s))}) is accepted", site=("src/jaxoplanet/orbits/keplerian.py", 0, "Body.__check_init__"))
                if not well_formed(s) and e.name not in ("ValueError",):
                    raise Refuted(f"ill-formed Body({', '.join(sorted(s))}) raises {e.name}, expected ValueError", site=e.site)
        return "holds"

    run.ob(f"body-spec-lattice[{len(pats)} patterns]", go, "nullness lattice of the 13 exclusive arguments against the documented rules")
    ok = {"period": 1, "eccentricity": 1, "omega_peri": 1}
    shells = {
        **{k: ("period",) for k in ("period", "time_transit", "time_peri", "inclination", "impact_param", "asc_node", "mass", "radius",
                                     "radial_velocity_semiamplitude", "parallax")},
        "semimajor": ("semimajor",),
        "eccentricity": ("period", "eccentricity", "omega_peri"), "omega_peri": ("period", "eccentricity", "omega_peri"),
        "sin_omega_peri": ("period", "eccentricity", "sin_omega_peri", "cos_omega_peri"),
        "cos_omega_peri": ("period", "eccentricity", "sin_omega_peri", "cos_omega_peri"),
        "sin_asc_node": ("period", "sin_asc_node", "cos_asc_node"), "cos_asc_node": ("period", "sin_asc_node", "cos_asc_node"),
    }
    for a in BODY_ARGS:
        def go(a=a):
            keys = set(shells[a]) | {a}
            kw = {k: (ctx.vec(k, k + "2") if k == a else ctx.V(k)) for k in keys}
            return expect_raise(lambda: ctx.call(Body, **kw), ("ValueError",), f"Body with non-scalar {a}")

        run.ob(f"body-nonscalar[{a}]", go, "non-scalar arguments are rejected")
    run.absorb(ctx)


# ------------------------------------------------------------------ K03-K09
def _each(run, ctx, cfgs, fn, rule, prefix):
    for c in cfgs:
        def go(c=c):
            o = Orb(ctx, c)
            o.build(ctx)
            return fn(ctx, o)

        run.ob(f"{prefix}[{label(c)}]", go, rule)


def K03(run):
    ctx = Ctx("kepler")

    def f(ctx, o):
        a = ctx.mag(ctx.attr(o.ob, "semimajor"), "R_sun")[0]
        P = ctx.mag(ctx.attr(o.ob, "period"), "d")[0]
        d = o.dom()
        run.equal(ctx, [a * a * a * C(4) * PI * PI], [o.G * o.Mt * P * P], d, "4 pi^2 a^3 = G (Mc + m) P^2")
        run.equal(ctx, ctx.mag(ctx.attr(o.ob, "total_mass"), "M_sun"), [o.Mt], d, "total_mass")
        if o.cfg["size"] == "P":
            return run.equal(ctx, [P], [V("P")], d, "supplied period kept")
        return run.equal(ctx, [a], [V("a")], d, "supplied semimajor kept")

    _each(run, ctx, configs({}, run.tier), f, "Kepler's third law with the total mass", "third-law")
    run.absorb(ctx)


def K04(run):
    ctx = Ctx("kepler")

    def f(ctx, o):
        d = o.dom()
        ob = o.ob
        ci = ctx.mag(ctx.attr(ob, "cos_inclination"), "dimensionless")[0]
        si = ctx.mag(ctx.attr(ob, "sin_inclination"), "dimensionless")[0]
        run.equal(ctx, [ci * ci + si * si], [tm.ONE], d, "sin^2 i + cos^2 i")
        b = ctx.mag(ctx.attr(ob, "impact_param"), "dimensionless")[0]
        run.equal(ctx, [b * o.Rc], [o.rconj * ci], d, "b R = r_conj cos i")
        run.equal(ctx, [ci], [o.ci], d, "cos i")
        run.equal(ctx, [si], [o.si], d, "sin i")
        run.equal(ctx, [b], [o.b], d, "impact parameter")
        inc = ctx.mag(ctx.attr(ob, "inclination"), "rad")[0]
        run.equal(ctx, [cos(inc), sin(inc)], [o.ci, o.si], d, "inclination property")
        if not o.circular:
            sw = ctx.mag(ctx.attr(ob, "sin_omega_peri"), "dimensionless")[0]
            cw = ctx.mag(ctx.attr(ob, "cos_omega_peri"), "dimensionless")[0]
            run.equal(ctx, [sw, cw], [o.sw, o.cw], d, "sin/cos omega")
            w = ctx.mag(ctx.attr(ob, "omega_peri"), "rad")[0]
            run.equal(ctx, [sin(w), cos(w)], [o.sw, o.cw], d, "omega_peri property")
            run.equal(ctx, ctx.mag(ctx.attr(ob, "eccentricity"), "dimensionless"), [o.e], d, "eccentricity")
        elif ctx.attr(ob, "omega_peri") is not None:
            raise Refuted("omega_peri is not None for a circular orbit")
        if o.cfg["asc"]:
            sW = ctx.mag(ctx.attr(ob, "sin_asc_node"), "dimensionless")[0]
            cW = ctx.mag(ctx.attr(ob, "cos_asc_node"), "dimensionless")[0]
            run.equal(ctx, [sW, cW], [o.sW, o.cW], d, "sin/cos Omega")
        return "congruent"

    _each(run, ctx, configs({}, run.tier), f, "projection identities", "angles")
    run.absorb(ctx)


def K05(run):
    ctx = Ctx("kepler")

    def f(ctx, o):
        d = o.dom()
        ob = o.ob
        tt = ctx.mag(ctx.attr(ob, "time_transit"), "d")[0]
        tp = ctx.mag(ctx.attr(ob, "time_peri"), "d")[0]
        run.equal(ctx, [tt], [o.tt], d, "time_transit")
        run.equal(ctx, [tp], [o.tp], d, "time_peri")
        P = ctx.mag(ctx.attr(ob, "period"), "d")[0]
        from ..values import scalar

        if o.cfg["par"]:
            return "congruent"

        def rel(t):
            return [ctx.mag(q, "R_sun")[0] for q in ctx.meth(ob, "relative_position", ctx.Q(scalar(t, "f", "jax", frozenset()), "d"))]

        # inferior conjunction: body in front (z > 0), sky separation b R_central,
        # and the distance is the conjunction distance
        x, y, z = rel(tt)
        # in the frame of the line of nodes
        xn = o.cW * x + o.sW * y
        yn = o.cW * y - o.sW * x
        run.equal(ctx, [xn], [tm.ZERO], d, "x along the node at time_transit")
        run.equal(ctx, [yn], [-o.b * o.Rc], d, "y = -b R_central at time_transit")
        # towards the observer for every inclination between 0 and pi
        run.equal(ctx, [z], [o.rconj * o.si], d, "body in front of the central at time_transit")
        # periastron distance
        x, y, z = rel(tp)
        pe = o.a * (tm.ONE - o.e)
        run.equal(ctx, [x * x + y * y + z * z], [pe * pe], d, "distance a(1-e) at time_peri")
        # periodicity
        t = V("t")
        p0, p1 = rel(t), rel(t + P)
        return run.equal(ctx, p1, p0, d, "position(t + period) = position(t)")

    _each(run, ctx, configs({}, run.tier), f, "reference epochs", "epochs")
    strata = [(0, 1), (0, -1), (1, 0), (-1, 0)]
    fix = {"ecc": strata, "K": None, "par": None}
    cf = configs(fix, "quick") if run.tier == "quick" else [
        dict(zip(AXES, c)) for c in itertools.product(*[strata if k == "ecc" else ((None,) if k in ("K", "par") else v) for k, v in AXES.items()])]
    _each(run, ctx, cf, f, "reference epochs, periastron exactly on the line of sight or on the node line", "epochs-degenerate")
    run.absorb(ctx)


def _pos(ctx, ob, name, unit, **kw):
    r = ctx.meth(ob, name, ctx.Q("t", "d"), **kw)
    if not (isinstance(r, tuple) and len(r) == 3):
        raise Refuted(f"{name} does not return three components")
    return [ctx.mag(q, unit)[0] for q in r]


def K06(run):
    ctx = Ctx("kepler")
    t = V("t")

    def f(ctx, o):
        d = o.dom()
        rel = o.rel(t)
        au = ctx.table.ratio(ctx.unit("R_sun"), ctx.unit("au"))
        for px in ({}, {"parallax": ctx.V("px2")}):
            if px:
                k, unit = au * V("px2"), "arcsec"
            elif o.cfg["par"]:
                k, unit = au * V("px"), "arcsec"
            else:
                k, unit = tm.ONE, "R_sun"
            run.equal(ctx, _pos(ctx, o.ob, "relative_position", unit, **px), scale(rel, k), d, "relative_position")
            run.equal(ctx, _pos(ctx, o.ob, "position", unit, **px), scale(rel, k * o.Mc / o.Mt), d, "position")
            run.equal(ctx, _pos(ctx, o.ob, "central_position", unit, **px), scale(rel, -k * o.m / o.Mt), d, "central_position")
            rho, th = ctx.meth(o.ob, "relative_angles", ctx.Q("t", "d"), **px)
            X, Y, _ = scale(rel, k)
            run.equal(ctx, ctx.mag(rho, unit), [tm.sqrt(X * X + Y * Y)], d, "separation")
            run.equal(ctx, [cos(ctx.mag(th, "rad")[0]), sin(ctx.mag(th, "rad")[0])],
                      [X / tm.sqrt(X * X + Y * Y), Y / tm.sqrt(X * X + Y * Y)], d, "position angle")
        return "congruent"

    _each(run, ctx, configs({}, run.tier), f, GEO, "positions")
    run.absorb(ctx)


def K07(run):
    ctx = Ctx("kepler")

    def f(ctx, o):
        d = o.dom()
        rv = o.relv()
        au = ctx.table.ratio(ctx.unit("R_sun"), ctx.unit("au"))
        if o.cfg["par"]:
            k, unit = au * V("px"), "arcsec/d"
        else:
            k, unit = tm.ONE, "R_sun/d"
        for name, pname, s in (("relative_velocity", "relative_position", tm.ONE), ("velocity", "position", o.Mc / o.Mt),
                               ("central_velocity", "central_position", -o.m / o.Mt)):
            got = _pos(ctx, o.ob, name, unit)
            run.equal(ctx, got, scale(rv, k * s), d, name + " = d/dt of the two-body " + pname)
            p = _pos(ctx, o.ob, pname, "arcsec" if o.cfg["par"] else "R_sun")
            run.equal(ctx, got, [tm.diff(q, V("t")) for q in p], d, f"{name} = d/dt {pname}")
        return "congruent"

    _each(run, ctx, configs({"K": None}, run.tier), f, "time derivative along the value graph", "velocity")
    run.absorb(ctx)


def K08(run):
    ctx = Ctx("kepler")
    t = V("t")

    def base(o):
        sf, cf = o.anomaly(t)
        return o.cw * cf - o.sw * sf + o.e * o.cw  # cos(w+f) + e cos w

    def f(ctx, o):
        d = o.dom()
        w = o.K * base(o)
        q = ctx.meth(o.ob, "radial_velocity", ctx.Q("t", "d"))
        unit = "R_sun/d"
        if o.cfg["par"] and not o.cfg["K"]:
            w = w * ctx.table.ratio(ctx.unit("R_sun"), ctx.unit("au")) * V("px")
            unit = "arcsec/d"
        run.equal(ctx, ctx.mag(q, unit), [w], d, "radial_velocity = K (cos(w+f) + e cos w)")
        vz = _pos(ctx, o.ob, "central_velocity", unit)[2]
        run.equal(ctx, [-vz], [w], d, "radial velocity is minus the central's z velocity")
        # explicit amplitude overrides masses, inclination and attribute
        q = ctx.meth(o.ob, "radial_velocity", ctx.Q("t", "d"), ctx.Q("K2", "m/s"))
        k2 = V("K2")
        run.equal(ctx, ctx.mag(q, "m/s"), [k2 * base(o)], d, "radial_velocity(semiamplitude)")
        q = ctx.meth(o.ob, "radial_velocity", ctx.Q("t", "d"), semiamplitude=ctx.V("K2"))
        if isinstance(q, Qty):
            run.equal(ctx, ctx.mag(q, "dimensionless"), [k2 * base(o)], d, "radial_velocity(plain semiamplitude)")
        else:
            run.equal(ctx, ctx.flat(q), [k2 * base(o)], d, "radial_velocity(plain semiamplitude)")
        if o.cfg["mass"]:
            for nm, fac in (("velocity", -o.Mc / o.m), ("relative_velocity", -o.Mt / o.m)):
                cv = _pos(ctx, o.ob, "central_velocity", "m/s", semiamplitude=ctx.Q("K2", "m/s"))
                v = _pos(ctx, o.ob, nm, "m/s", semiamplitude=ctx.Q("K2", "m/s"))
                run.equal(ctx, v, scale(cv, fac), d, f"{nm}(semiamplitude) obeys momentum balance")
                cv = _pos(ctx, o.ob, "central_velocity", unit)
                v = _pos(ctx, o.ob, nm, unit)
                run.equal(ctx, v, scale(cv, fac), d, f"{nm} obeys momentum balance")
        return "congruent"

    _each(run, ctx, configs({}, run.tier), f, "radial velocity of the central body", "rv")
    run.absorb(ctx)


def K09(run):
    ctx = Ctx("kepler")
    obs = ("relative_position", "position", "central_position", "relative_velocity", "velocity", "central_velocity")
    cf = configs({"ecc": None, "mass": "m"}, run.tier)

    for c in cf:
        for e in ("w", "sc"):
            def go(c=c, e=e):
                o = Orb(ctx, c)
                o.build(ctx)
                o2 = Orb(ctx, {**c, "ecc": e})
                from ..values import scalar

                o2.kw["eccentricity"] = scalar(tm.ZERO, "f", "py")
                o2.build(ctx)
                d = o.dom()
                d.ranges.update(o2.dom().ranges)
                for nm in obs + ("radial_velocity",):
                    a = ctx.meth(o.ob, nm, ctx.Q("t", "d"))
                    b = ctx.meth(o2.ob, nm, ctx.Q("t", "d"))
                    # a periastron epoch refers to different points of the two
                    # parametrisations, so only transit epochs are comparable
                    if c["time"] == "tp":
                        return "holds"
                    run.equal(ctx, ctx.phys(b) if isinstance(b, Qty) else ctx.flat(b), ctx.phys(a) if isinstance(a, Qty) else ctx.flat(a), d,
                              f"{nm}: e = 0 equals e = None")
                return "congruent"

            run.ob(f"circular[{label(c)}|{e}]", go, "circular limit")
    run.absorb(ctx)


# ------------------------------------------------------------------ K14
def K14(run: Run):
    """the Kepler solver itself (the contract the other checks use)"""
    import mpmath

    mpf = mpmath.mpf
    ctx = Ctx()
    kep = ctx.get("jaxoplanet.core.kepler:kepler")
    M, e = V("M"), V("e")
    rnd = lambda lo, hi: (lo, hi)  # noqa: E731
    pi = mpmath.pi
    strata = {
        "generic": {"M": (-20, 20), "e": (0.02, 0.8)},
        "high-e": {"M": (-7, 7), "e": (0.8, 0.98)},
        "extreme-e": {"M": (-3.1, 3.1), "e": (0.98, 0.9999)},
        "near-periastron": {"M": (-0.02, 0.02), "e": (0.3, 0.97)},
        "near-apastron": {"M": lambda v, g: +pi + mpf(g.random() - 0.5) / 50, "e": (0.1, 0.9)},
        "circular": {"M": (-10, 10), "e": [mpf(0)]},
        "small-e": {"M": (-10, 10), "e": (1e-9, 1e-3)},
        "M=0": {"M": [mpf(0)], "e": (0, 0.98)},
        "many-orbits": {"M": (-700, 700), "e": (0.05, 0.9)},
        "long-baseline": {"M": (-1e7, 1e7), "e": (0.05, 0.9)},
        "wrap": {"M": lambda v, g: 2 * pi * g.randint(-3, 3) + mpf(g.random() - 0.5) / 1000, "e": (0.05, 0.9)},
    }
    n = 12 if run.tier == "quick" else 80

    def sol():
        r = ctx.call(kep, ctx.V("M"), ctx.V("e"))
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Refuted("kepler does not return (sin f, cos f)")
        return ctx.flat(r)

    def oracle(env):
        v = tm.Val(env)
        return [v(tm.fn("kep_sin", M, e)), v(tm.fn("kep_cos", M, e))]

    for s, rg in strata.items():
        d = Dom(ranges=rg)
        run.ob(f"solution[{s}]", lambda d=d: run.approx(ctx, sol(), oracle, d, "(sin f, cos f)", tol=1e-11, probes=n),
               "value graph of the solver satisfies Kepler's equation")

        def unit(d=d):
            sf, cf = sol()
            return run.equal(ctx, [sf * sf + cf * cf], [tm.ONE], d, "sin^2 f + cos^2 f = 1", probes=n)

        run.ob(f"unit-circle[{s}]", unit, "the returned pair is a point of the unit circle")

    def sym():
        d = Dom(ranges=strata["generic"])
        sf, cf = sol()
        neg_ = ctx.flat(ctx.call(kep, _sc(-M), ctx.V("e")))
        run.equal(ctx, neg_, [-sf, cf], d, "M -> -M")
        per = ctx.flat(ctx.call(kep, _sc(M + C(2) * PI), ctx.V("e")))
        return run.equal(ctx, per, [sf, cf], d, "M -> M + 2 pi")

    run.ob("symmetry", sym, "odd/even in the mean anomaly and 2 pi periodic")

    def bcast():
        r = ctx.call(kep, ctx.arr("M", (2,)), ctx.V("e"))
        if ctx.shape(r[0]) != (2,) or ctx.shape(r[1]) != (2,):
            raise Refuted("not elementwise in the mean anomaly")
        sf, cf = sol()
        d = Dom(ranges={"M*": (-4, 4), "e": (0.1, 0.8)})
        at = lambda t, i: tm.subst(t, {M: V(f"M[{i}]")})  # noqa: E731
        return run.equal(ctx, ctx.flat(r), [at(sf, 0), at(sf, 1), at(cf, 0), at(cf, 1)], d, "elementwise")

    run.ob("broadcast", bcast, "elementwise over arrays")
    # derivative rule
    for s in ("generic", "high-e", "near-apastron", "small-e", "circular", "M=0", "wrap"):
        def jvp(s=s):
            c = Ctx()
            c.it.models.grad_mode = True
            r = c.flat(c.call(c.get("jaxoplanet.core.kepler:kepler"), c.V("M", traced=True), c.V("e", traced=True)))
            got = []
            for out in r:
                if out.op != "jvp":
                    from ..harness import Undecided

                    raise Undecided("no custom derivative rule on the result")
                p, t = out.args[0], out.args[1]
                xs, tv = out.args[2::2], out.args[3::2]
                for k in range(len(tv)):
                    if xs[k] not in (M, e):
                        raise Undecided("derivative rule over other inputs")
                order = {xs[k]: tv[k] for k in range(len(tv))}
                got += [tm.subst(t, {order[M]: tm.ONE, order[e]: tm.ZERO}), tm.subst(t, {order[M]: tm.ZERO, order[e]: tm.ONE}), p]

            def want(env):
                v = tm.Val(env)
                sf, cf, E = v(tm.fn("kep_sin", M, e)), v(tm.fn("kep_cos", M, e)), v(e)
                fM = (1 + E * cf) ** 2 / (1 - E * E) ** mpf(1.5)
                fe = (2 + E * cf) * sf / (1 - E * E)
                return [cf * fM, cf * fe, sf, -sf * fM, -sf * fe, cf]

            return run.approx(c, got, want, Dom(ranges=strata[s]), "derivatives of (sin f, cos f)", tol=1e-8, probes=n)

        run.ob(f"derivative[{s}]", jvp, "custom derivative rule = implicit derivative of Kepler's equation")
    run.absorb(ctx)


def _sc(t):
    from ..values import scalar

    return scalar(t, "f", "jax", frozenset())
