"""Unit handling: conversion at every public boundary (U01), the quantity_input decorator (U02),
unit-aware fields (U03), the table of astronomical units (U04)."""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

import mpmath

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, Undecided, expect_raise
from ..values import Arr, PyRaise, Qty
from .orbit_model import C, V
from .starry import SORB, SURF, T_

mpf = mpmath.mpf
KEP = "jaxoplanet.orbits.keplerian"
ALT = {
    "M_sun": ("kg", "M_earth", "M_jup", "g"), "R_sun": ("m", "AU", "R_earth", "km"), "d": ("h", "s", "yr", "min"), "rad": ("deg", "arcmin"),
    "R_sun/d": ("m/s", "km/s", "AU/yr"), "arcsec": ("mas", "deg", "rad"), "dimensionless": ("percent",), "M_sun/R_sun^3": ("g/cm^3", "kg/m^3"), "1/d": ("1/h", "1/yr"),
}
BAD = {"M_sun": "R_sun", "R_sun": "M_sun", "d": "m", "rad": "d", "R_sun/d": "R_sun", "arcsec": "kg", "dimensionless": "d", "M_sun/R_sun^3": "M_sun", "1/d": "d"}


def variants(ctx, name, unit, value=None):
    """ways of handing over the same physical value: {label: value}; the value in
    default units is the variable `name`"""
    t = value if value is not None else V(name)
    out = {"plain": conv(ctx, t, None, None)}
    out["default"] = conv(ctx, t, unit, unit)
    for a in ALT[unit]:
        out[a] = conv(ctx, t, unit, a)
    return out


def conv(ctx, t, unit, alt):
    if isinstance(t, list):
        from ..values import vecarr

        mk = lambda ts: vecarr(ts, "f", "jax", frozenset())  # noqa: E731
    else:
        t, mk = [t], lambda ts: T_(ts[0])  # noqa: E731
    if unit is None:
        return mk(t)
    r = ctx.table.ratio(ctx.unit(unit), ctx.unit(alt))
    return Qty(mk([tm.mul(x, r) for x in t]), ctx.unit(alt))


def U01(run: Run):
    ctx = Ctx("kepler", "lc")
    quick = run.tier == "quick"

    def obs(*xs):
        out = []
        for x in xs:
            if x is None:
                out.append(C(-12345))
            elif isinstance(x, (tuple, list)):
                out += obs(*x)
            else:
                out += ctx.phys(x)
        return out

    def attrs(o, *names):
        return obs(*(ctx.attr(o, n) for n in names))

    central = lambda **k: ctx.call(ctx.get(f"{KEP}:Central"), **k)  # noqa: E731
    CEN = lambda: central(mass=ctx.V("Mc"), radius=ctx.V("Rc"))  # noqa: E731

    def orbit_obs(k):
        b = ctx.call(ctx.get(f"{KEP}:OrbitalBody"), CEN(), ctx.call(ctx.get(f"{KEP}:Body"), **k))
        out = attrs(b, "time_ref", "time_transit", "period", "semimajor", "sin_inclination", "cos_inclination", "impact_param", "mass", "radius", "eccentricity", "sin_omega_peri", "cos_omega_peri",
                    "sin_asc_node", "cos_asc_node", "radial_velocity_semiamplitude", "parallax", "time_peri", "total_mass", "inclination", "omega_peri")
        out += obs(ctx.meth(b, "relative_position", ctx.V("t")), ctx.meth(b, "central_velocity", ctx.V("t")), ctx.meth(b, "radial_velocity", ctx.V("t")))
        return out

    BODY = dict(time_transit="d", time_peri="d", period="d", semimajor="R_sun", inclination="rad", impact_param="dimensionless", eccentricity="dimensionless", omega_peri="rad", sin_omega_peri="dimensionless",
                cos_omega_peri="dimensionless", asc_node="rad", sin_asc_node="dimensionless", cos_asc_node="dimensionless", mass="M_sun", radius="R_sun", radial_velocity_semiamplitude="R_sun/d", parallax="arcsec")

    def system_obs(k):
        s = ctx.call(ctx.get(f"{KEP}:System"), CEN())
        s = ctx.meth(s, "add_body", **k)
        s = ctx.meth(s, "add_body", **{**k, "radius": ctx.V("r2"), "mass": ctx.V("m2"), "parallax": ctx.V("plx2")})
        return attrs(s, "radius", "central_radius") + obs(ctx.meth(s, "relative_position", ctx.V("t")), ctx.meth(s, "central_velocity", ctx.V("t")), ctx.meth(s, "radial_velocity", ctx.V("t")))

    def transit_obs(cls, **extra):
        def f(k):
            o = ctx.call(ctx.get(cls), **{**k, **extra})
            out = attrs(o, "period", "speed", "duration", "time_transit", "impact_param", "radius_ratio", "radius", "central_radius") + obs(ctx.meth(o, "relative_position", ctx.V("t")))
            if "ttv" in cls:
                out += attrs(o, "transit_times", "ttvs", "t0", "ttv_period", "linear_t0", "linear_period")
            return out

        return f

    TR, TTV = "jaxoplanet.orbits.transit:TransitOrbit", "jaxoplanet.orbits.ttv:TTVOrbit"
    D = dict(period="d", duration="d", speed="1/d", time_transit="d", impact_param="dimensionless", radius_ratio="dimensionless")
    pick = lambda d, *n: {k: d[k] for k in n}  # noqa: E731
    ranges = {
        "period": (3, 5), "duration": (0.2, 0.5), "speed": (4, 9), "time_transit": (-1, 1), "time_peri": (-1, 1), "impact_param": (0.1, 0.6), "radius_ratio": (0.05, 0.2), "mass": (0.05, 0.4), "radius": (0.3, 0.8), "density": (0.1, 2),
        "semimajor": (3, 6), "inclination": (1.45, 1.56), "eccentricity": (0.1, 0.5), "omega_peri": (-2, 2), "sin_omega_peri": (0.4, 0.5), "cos_omega_peri": (0.8, 0.9), "asc_node": (-2, 2), "sin_asc_node": (0.4, 0.5), "cos_asc_node": (0.8, 0.9),
        "radial_velocity_semiamplitude": (0.01, 1), "parallax": (0.01, 1), "Mc": (0.7, 1.5), "Rc": (0.7, 1.5), "t": (-3, 3), "body_mass": (0.01, 0.1), "m2": (0.01, 0.2), "r2": (0.1, 0.5), "plx2": (0.01, 0.2),
        "tt[0]": (-0.2, 0.2), "tt[1]": (3.8, 4.2), "tt[2]": (7.8, 8.2), "exposure_time": (0.05, 0.4), "time": (-3, 3), "q*": (0.1, 0.4),
    }

    cases = {
        "Central(mass,radius)": (lambda k: attrs(central(**k), "mass", "radius", "density"), dict(mass="M_sun", radius="R_sun")),
        "Central(mass,density)": (lambda k: attrs(central(**k), "mass", "radius", "density"), dict(mass="M_sun", density="M_sun/R_sun^3")),
        "Central(radius,density)": (lambda k: attrs(central(**k), "mass", "radius", "density"), dict(radius="R_sun", density="M_sun/R_sun^3")),
        "Central(density)": (lambda k: attrs(central(**k), "mass", "radius", "density"), dict(density="M_sun/R_sun^3")),
        "Central.from_orbital_properties": (lambda k: attrs(ctx.meth(ctx.get(f"{KEP}:Central"), "from_orbital_properties", **k), "mass", "radius", "density"), dict(period="d", semimajor="R_sun", radius="R_sun", body_mass="M_sun")),
        "Body(period,...)": (orbit_obs, pick(BODY, "period", "time_transit", "inclination", "eccentricity", "omega_peri", "asc_node", "mass", "radius")),
        "Body(semimajor,...)": (orbit_obs, pick(BODY, "semimajor", "time_peri", "impact_param", "eccentricity", "sin_omega_peri", "cos_omega_peri", "sin_asc_node", "cos_asc_node", "mass", "radius")),
        "Body(circular)": (orbit_obs, pick(BODY, "semimajor", "time_transit", "impact_param", "radius")),
        "Body(parallax)": (orbit_obs, pick(BODY, "period", "time_transit", "parallax", "radius")),
        "Body(K)": (orbit_obs, pick(BODY, "period", "time_transit", "inclination", "radial_velocity_semiamplitude")),
        "System": (system_obs, pick(BODY, "period", "time_transit", "inclination", "eccentricity", "omega_peri", "radius", "mass", "parallax")),
        "TransitOrbit(duration)": (transit_obs(TR), pick(D, "period", "duration", "time_transit", "impact_param", "radius_ratio")),
        "TransitOrbit(speed)": (transit_obs(TR), pick(D, "period", "speed", "time_transit", "impact_param", "radius_ratio")),
        "TTVOrbit(ttvs)": (lambda k: transit_obs(TTV, ttvs=(ctx.arr("q", (3,)),))(k), pick(D, "period", "duration", "time_transit", "impact_param", "radius_ratio")),
        "TTVOrbit(speed)": (lambda k: transit_obs(TTV, ttvs=(ctx.arr("q", (3,)),))(k), pick(D, "period", "speed", "time_transit", "impact_param", "radius_ratio")),
        "TTVOrbit(times)": (lambda k: transit_obs(TTV, transit_times=(k.pop("tt"),))(k), {"tt": "d", **pick(D, "duration", "impact_param", "radius_ratio")}),
        "TTVOrbit(ttv arrays)": (lambda k: transit_obs(TTV, ttvs=(k.pop("tt"),))(k), {"tt": "d", **pick(D, "period", "duration")}),
    }

    def body_fields(k):
        b = ctx.call(ctx.get(f"{KEP}:Body"), **k)
        for n in k:
            v = ctx.attr(b, n)
            if not isinstance(v, Qty):
                raise Refuted(f"Body.{n} is not a quantity")
        return attrs(b, *sorted(BODY))

    cases["Body fields"] = (body_fields, pick(BODY, "period", "time_transit", "inclination", "eccentricity", "omega_peri", "asc_node", "mass", "radius", "parallax", "radial_velocity_semiamplitude"))
    cases["Body fields(sin, cos)"] = (body_fields, pick(BODY, "semimajor", "time_peri", "impact_param", "eccentricity", "sin_omega_peri", "cos_omega_peri", "sin_asc_node", "cos_asc_node"))
    ARR = {"tt": [V(f"tt[{i}]") for i in range(3)]}

    # methods
    def body(**k):
        return ctx.call(ctx.get(f"{KEP}:OrbitalBody"), CEN(), ctx.call(ctx.get(f"{KEP}:Body"), period=ctx.V("P0"), time_transit=ctx.V("T0"), eccentricity=ctx.V("e0"), omega_peri=ctx.V("w0"), inclination=ctx.V("i0"), mass=ctx.V("m0"), radius=ctx.V("r0"), **k))

    ranges.update(P0=(3, 5), T0=(-1, 1), e0=(0.1, 0.5), w0=(-2, 2), i0=(1.4, 1.56), m0=(0.05, 0.4), r0=(0.3, 0.7), u1=(0.1, 0.3), u2=(0.1, 0.3), f0=(0.5, 2))

    def sysn(n=1):
        s = ctx.call(ctx.get(f"{KEP}:System"), CEN())
        for i in range(n):
            s = ctx.meth(s, "add_body", period=ctx.V("P0"), time_transit=ctx.V("T0"), mass=ctx.V("m0"), radius=ctx.V("r0") if i == 0 else ctx.V("r2"))
        return s

    for nm in ("position", "velocity", "central_position", "central_velocity", "relative_position", "relative_velocity"):
        par = {"t": "d"} | ({"parallax": "arcsec"} if "position" in nm else {})
        cases[f"OrbitalBody.{nm}"] = ((lambda k, nm=nm: obs(ctx.meth(body(), nm, **k))), par)
    cases["OrbitalBody.radial_velocity"] = ((lambda k: obs(ctx.meth(body(), "radial_velocity", **k))), {"t": "d"})
    for nm in ("position", "central_velocity", "relative_position", "radial_velocity"):
        cases[f"System.{nm}"] = ((lambda k, nm=nm: obs(ctx.meth(sysn(2), nm, k["t"]))), {"t": "d"})
    cases["TransitOrbit.relative_position"] = ((lambda k: obs(ctx.meth(ctx.call(ctx.get(TR), period=ctx.V("P0"), duration=ctx.V("m0"), radius_ratio=ctx.V("r0")), "relative_position", k["t"]))), {"t": "d"})
    cases["TTVOrbit.relative_position"] = ((lambda k: obs(ctx.meth(ctx.call(ctx.get(TTV), period=ctx.V("P0"), duration=ctx.V("m0"), radius_ratio=ctx.V("r0"), ttvs=(ctx.arr("q", (3,)),)), "relative_position", k["t"]))), {"t": "d"})
    LLD = "jaxoplanet.light_curves.limb_dark:light_curve"
    cases["limb_dark.light_curve"] = ((lambda k: obs(ctx.call(ctx.call(ctx.get(LLD), sysn(), ctx.V("u1"), ctx.V("u2")), k["time"]))), {"time": "d"})
    cases["emission.light_curve"] = ((lambda k: obs(ctx.call(ctx.call(ctx.get("jaxoplanet.light_curves.emission:light_curve"), emis()), k["time"]))), {"time": "d"})
    TRF = "jaxoplanet.light_curves.transforms"

    def emis():
        S = ctx.get(f"{SORB}:SurfaceSystem")
        s = ctx.call(S, CEN(), ctx.call(ctx.get(SURF), amplitude=ctx.V("f0"), normalize=False))
        return ctx.meth(s, "add_body", period=ctx.V("P0"), time_transit=ctx.V("T0"), mass=ctx.V("m0"), radius=ctx.V("r0"), surface=ctx.call(ctx.get(SURF), amplitude=ctx.V("f1"), normalize=False))

    def ulc(time, *a, **k):
        t = ctx.flat(ctx.attr(time, "magnitude") if isinstance(time, Qty) and time.unit == ctx.unit("d") else conv_back(time))
        arr = time.m if isinstance(time, Qty) else time
        from ..values import obj_array

        import numpy as np

        d = obj_array(arr.shape)
        for i, x in zip(np.ndindex(arr.shape), t):
            d[i] = tm.fn("F", x)
        return Arr(d, "f", "jax", frozenset())

    def conv_back(time):
        if not isinstance(time, Qty):
            raise Refuted("the light curve receives a time without units")
        return [tm.mul(x, ctx.table.ratio(time.unit, ctx.unit("d"))) for x in ctx.flat(time.m)]

    cases["integrate"] = ((lambda k: obs(ctx.call(ctx.call(ctx.get(f"{TRF}:integrate"), ulc, exposure_time=k["exposure_time"], num_samples=3), k["time"]))), {"exposure_time": "d", "time": "d"})
    cases["interpolate"] = ((lambda k: obs(ctx.call(ctx.call(ctx.get(f"{TRF}:interpolate"), ulc, period=k["period"], time_transit=k["time_transit"], duration=k["duration"], num_samples=5), k["time"]))),
                            {"period": "d", "time_transit": "d", "duration": "d", "time": "d"})
    dom = Dom(ranges={**ranges, "f1": (0.5, 2)})

    for cname, (f, par) in cases.items():
        for p, unit in par.items():
            def same(f=f, par=par, p=p, unit=unit, alts=None):
                k = {q: conv(ctx, ARR.get(q, V(q)), None, None) for q in par}
                base = f(dict(k))
                st = None
                for label, v in variants(ctx, p, unit, ARR.get(p)).items():
                    if label == "plain" or (quick and label in ALT[unit][2:]):
                        continue
                    try:
                        got = f({**k, p: v})
                    except PyRaise as e:
                        raise Refuted(f"{p} in {label} is rejected ({e.name}: {e.msg}) while the same value in {unit} is accepted", site=e.site)
                    st = run.equal(ctx, got, base, dom, f"{p} in {label}, {cname}", probes=2 if quick else 8)
                return st

            def wrong(f=f, par=par, p=p, unit=unit):
                k = {q: conv(ctx, ARR.get(q, V(q)), None, None) for q in par}
                k[p] = Qty(k[p], ctx.unit(BAD[unit]))
                return expect_raise(lambda: f(dict(k)), ("DimensionalityError",), f"{p} with the dimension of {BAD[unit]}")

            run.ob(f"same[{cname}|{p}]", same, "the same physical value in any compatible unit gives the same result; a plain number means the documented unit")
            run.ob(f"wrong[{cname}|{p}]", wrong, "a value of the wrong dimension is rejected")

        def together(f=f, par=par):
            k = {q: conv(ctx, ARR.get(q, V(q)), None, None) for q in par}
            base = f(dict(k))
            alt = {q: conv(ctx, ARR.get(q, V(q)), u, ALT[u][i % len(ALT[u])]) for i, (q, u) in enumerate(par.items())}
            return run.equal(ctx, f(alt), base, dom, f"all in other units, {cname}", probes=2 if quick else 8)

        run.ob(f"all[{cname}]", together, "every value in another unit at once")
    run.absorb(ctx)


# ---------------------------------------------------------------- U02
CLIENT = """
from functools import partial
import equinox as eqx
from jaxoplanet.units import quantity_input, unit_registry as ureg, field
"""


class Got:
    """what a decorated function received"""

    def __init__(self, ctx):
        self.ctx = ctx

    def qty(self, x, unit, term, what):
        if not isinstance(x, Qty):
            raise Refuted(f"{what}: the function receives {type(x).__name__} instead of a quantity")
        if x.unit != self.ctx.unit(unit):
            raise Refuted(f"{what}: the function receives units {x.unit!r} instead of {unit}")
        return self.ctx.flat(x.m), [term] if not isinstance(term, list) else term


def U02(run: Run):
    ctx = Ctx()
    tb = ctx.table
    got = Got(ctx)
    dom = Dom(ranges={"a": (-2, 2), "b": (-2, 2), "c": (-2, 2)})
    r = lambda new, old: tb.ratio(ctx.unit(old), ctx.unit(new))  # noqa: E731
    a, b, c = V("a"), V("b"), V("c")
    A, B, Cc = ctx.V("a"), ctx.V("b"), ctx.V("c")
    UN = {"a": "m", "b": "s"}
    FORMS = {
        "keywords": "@quantity_input(a=ureg.m, b=ureg.s)\ndef f(a, b, c=3): return a, b, c\n",
        "one call": "def g(a, b, c=3): return a, b, c\nf = quantity_input(g, a=ureg.m, b=ureg.s)\n",
        "explicit None": "@quantity_input(a=ureg.m, b=ureg.s, c=None)\ndef f(a, b, c=3): return a, b, c\n",
        "spec order": "@quantity_input(b=ureg.s, a=ureg.m)\ndef f(a, b, c=3): return a, b, c\n",
        "keyword-only": "@quantity_input(a=ureg.m, b=ureg.s)\ndef f(a, *, b, c=3): return a, b, c\n",
        "method": "class K:\n    @quantity_input(a=ureg.m, b=ureg.s)\n    def f(self, a, b, c=3): return a, b, c\nf = K().f\n",
        "module method": "class K(eqx.Module):\n    @quantity_input(a=ureg.m, b=ureg.s)\n    def f(self, a, b, c=3): return a, b, c\nf = K().f\n",
        "strict": "@quantity_input(a=ureg.m, b=ureg.s, _strict=True)\ndef f(a, b, c=3): return a, b, c\n",
        "strict one call": "def g(a, b, c=3): return a, b, c\nf = quantity_input(g, _strict=True, a=ureg.m, b=ureg.s)\n",
        "string units": "@quantity_input(a='m', b='s')\ndef f(a, b, c=3): return a, b, c\n",
        "extra": "@quantity_input(a=ureg.m, b=ureg.s)\ndef f(a, b, c=3, *args, **kwargs): return a, b, c\n",
    }
    # values of a: label -> (value, expected magnitude in m)
    AV = {"plain": (A, a), "m": (Qty(A, ctx.unit("m")), a), "km": (Qty(A, ctx.unit("km")), tm.mul(a, r("m", "km"))), "AU": (Qty(A, ctx.unit("AU")), tm.mul(a, r("m", "AU"))), "R_sun": (Qty(A, ctx.unit("R_sun")), tm.mul(a, r("m", "R_sun")))}
    BV = {"plain": (B, b), "s": (Qty(B, ctx.unit("s")), b), "d": (Qty(B, ctx.unit("d")), tm.mul(b, r("s", "d"))), "yr": (Qty(B, ctx.unit("yr")), tm.mul(b, r("s", "yr")))}
    HOW = {"positional": lambda f, x, y: ctx.call(f, x, y), "mixed": lambda f, x, y: ctx.call(f, x, b=y), "keyword": lambda f, x, y: ctx.call(f, a=x, b=y), "keyword reversed": lambda f, x, y: ctx.call(f, b=y, a=x)}

    for form, src in FORMS.items():
        strict = form.startswith("strict")
        for how, call in HOW.items():
            if form == "keyword-only" and how == "positional":
                continue

            def conv_ob(form=form, src=src, call=call, how=how, strict=strict):
                f = ctx.client(CLIENT + src)["f"]
                st = None
                for (la, (va, ta)), (lb, (vb, tb_)) in itertools.product(AV.items(), BV.items()):
                    if strict and "plain" in (la, lb):
                        expect_raise(lambda: call(f, va, vb), ("ValueError",), f"plain number under _strict ({la}, {lb})")
                        continue
                    o = call(f, va, vb)
                    if not isinstance(o, tuple) or len(o) != 3:
                        raise Refuted("the wrapped function's result is not returned unchanged")
                    for x, u, t, nm in ((o[0], "m", ta, "a"), (o[1], "s", tb_, "b")):
                        g, w = got.qty(x, u, t, f"{form}, {how}, {nm} given in {la if nm == 'a' else lb}")
                        st = run.equal(ctx, g, w, dom, f"{nm} ({form}, {how}, {la}/{lb})")
                    if ctx.flat(o[2]) != [C(3)] or isinstance(o[2], Qty):
                        raise Refuted("an argument without unit specification is changed")
                return st

            run.ob(f"convert[{form}|{how}]", conv_ob, "the function receives every specified argument as a quantity in exactly the specified unit")

        def wrong(form=form, src=src):
            f = ctx.client(CLIENT + src)["f"]
            for how, call in HOW.items():
                if form == "keyword-only" and how == "positional":
                    continue
                expect_raise(lambda: call(f, Qty(A, ctx.unit("s")), Qty(B, ctx.unit("s"))), ("DimensionalityError",), f"{form}, {how}: a in seconds")
                expect_raise(lambda: call(f, Qty(A, ctx.unit("m")), Qty(B, ctx.unit("m/s"))), ("DimensionalityError",), f"{form}, {how}: b in m/s")
            return "holds"

        run.ob(f"wrong[{form}]", wrong, "an incompatible dimension raises DimensionalityError")

        def untouched(form=form, src=src):
            f = ctx.client(CLIENT + src)["f"]
            q = Qty(Cc, ctx.unit("kg"))
            for k in (Cc, q, None, "text"):
                o = ctx.call(f, Qty(A, ctx.unit("m")), b=Qty(B, ctx.unit("s")), c=k)
                if o[2] is not k and not (isinstance(k, Qty) and isinstance(o[2], Qty) and o[2].unit == k.unit and ctx.flat(o[2].m) == ctx.flat(k.m)):
                    raise Refuted(f"{form}: an argument without unit specification reaches the function changed")
            return "holds"

        run.ob(f"untouched[{form}]", untouched, "unspecified arguments pass through unchanged")

        def arity(form=form, src=src):
            f = ctx.client(CLIENT + src)["f"]
            expect_raise(lambda: ctx.call(f, Qty(A, ctx.unit("m"))), ("TypeError",), "missing argument")
            if form != "extra":
                expect_raise(lambda: ctx.call(f, Qty(A, ctx.unit("m")), b=Qty(B, ctx.unit("s")), zz=1), ("TypeError",), "unknown keyword")
            return "holds"

        run.ob(f"arity[{form}]", arity, "wrong calls are rejected as for the undecorated function")

    def defaults():
        f = ctx.client(CLIENT + "@quantity_input(a=ureg.m, b=ureg.s, c=ureg.kg)\ndef f(a=2, b=None, c=5*ureg.g): return a, b, c\n")["f"]
        o = ctx.call(f)
        g, w = got.qty(o[0], "m", C(2), "default of a")
        run.equal(ctx, g, w, dom, "default")
        if o[1] is not None:
            raise Refuted("a None default is given a unit")
        g, w = got.qty(o[2], "kg", tm.mul(C(5), r("kg", "g")), "default of c")
        run.equal(ctx, g, w, dom, "default quantity")
        o = ctx.call(f, Qty(A, ctx.unit("km")), None)
        if o[1] is not None:
            raise Refuted("an explicit None for an argument whose default is None is changed")
        o = ctx.call(f, b=Qty(B, ctx.unit("d")))
        g, w = got.qty(o[1], "s", tm.mul(b, r("s", "d")), "b with None default")
        run.equal(ctx, g, w, dom, "None default, value given")
        o = ctx.call(f, b=B)
        g, w = got.qty(o[1], "s", b, "b with None default, plain")
        return run.equal(ctx, g, w, dom, "None default, plain value given")

    run.ob("defaults", defaults, "defaults are treated like passed values, None defaults stay None")

    def defaults_strict():
        f = ctx.client(CLIENT + "@quantity_input(a=ureg.m, b=ureg.s, _strict=True)\ndef f(a, b=None): return a, b\n")["f"]
        o = ctx.call(f, Qty(A, ctx.unit("km")))
        if o[1] is not None:
            raise Refuted("strict: a None default is changed")
        expect_raise(lambda: ctx.call(f, Qty(A, ctx.unit("km")), B), ("ValueError",), "strict with plain number for an optional argument")
        return "holds"

    run.ob("defaults[strict]", defaults_strict, "None defaults pass under strict; plain numbers do not")

    def trees():
        SRC = {
            "dict": ("@quantity_input(p={'x': ureg.m, 'y': ureg.s, 'z': None})\ndef f(p): return p['x'], p['y'], p['z']\n", lambda x, y, z: {"x": x, "y": y, "z": z}),
            "tuple": ("@quantity_input(p=(ureg.m, ureg.s, None))\ndef f(p): return p[0], p[1], p[2]\n", lambda x, y, z: (x, y, z)),
            "nested": ("@quantity_input(p={'u': {'x': ureg.m, 'y': (ureg.s, None)}})\ndef f(p): return p['u']['x'], p['u']['y'][0], p['u']['y'][1]\n", lambda x, y, z: {"u": {"x": x, "y": (y, z)}}),
            "list": ("@quantity_input(p=[ureg.m, ureg.s, None])\ndef f(p): return p[0], p[1], p[2]\n", lambda x, y, z: [x, y, z]),
        }
        st = None
        for nm, (src, mk) in SRC.items():
            f = ctx.client(CLIENT + src)["f"]
            for (la, (va, ta)), (lb, (vb, tb_)) in itertools.product(AV.items(), BV.items()):
                o = ctx.call(f, mk(va, vb, Cc))
                for x, u, t in ((o[0], "m", ta), (o[1], "s", tb_)):
                    g, w = got.qty(x, u, t, f"{nm} of {la}, {lb}")
                    st = run.equal(ctx, g, w, dom, f"pytree {nm} {la} {lb}")
                if isinstance(o[2], Qty) or ctx.flat(o[2]) != [c]:
                    raise Refuted(f"pytree {nm}: a leaf with unit None is changed")
            expect_raise(lambda: ctx.call(f, mk(Qty(A, ctx.unit("s")), B, Cc)), ("DimensionalityError",), f"pytree {nm}, wrong dimension")
        return st

    run.ob("pytree", trees, "units given as a tree apply leaf by leaf; None leaves are skipped")

    def bad_spec():
        S_ = {"unknown name": "@quantity_input(zz=ureg.m)\ndef f(a): return a\n", "*args": "@quantity_input(args=ureg.m)\ndef f(*args): return args\n",
              "**kwargs": "@quantity_input(kwargs=ureg.m)\ndef f(**kwargs): return kwargs\n", "not callable": "f = quantity_input(3)\n", "unit positional": "f = quantity_input(ureg.m)\n" if False else "f = quantity_input('m')\n"}
        for nm, src in S_.items():
            expect_raise(lambda: ctx.client(CLIENT + src), ("TypeError",), f"decorating with a bad specification ({nm})")
        return "holds"

    run.ob("bad specification", bad_spec, "malformed specifications are rejected when decorating")

    def wraps():
        f = ctx.client(CLIENT + "@quantity_input(a=ureg.m)\ndef f(a):\n    'doc'\n    return a\n")["f"]
        if ctx.attr(f, "__name__") != "f":
            raise Refuted("the wrapped function loses its name")
        return "holds"

    run.ob("wraps", wraps, "the decorated function keeps its name")

    def vals():
        # arrays and integers
        f = ctx.client(CLIENT + "@quantity_input(a=ureg.m)\ndef f(a): return a\n")["f"]
        arr = ctx.arr("v", (2, 3))
        st = None
        for kind in ("jax", "np"):
            arr = ctx.arr("v", (2, 3), kind=kind)
            for q, k in ((arr, C(1)), (Qty(arr, ctx.unit("km")), r("m", "km"))):
                o = ctx.call(f, q)
                g, w = got.qty(o, "m", [tm.mul(V(f"v[{i},{j}]"), k) for i in range(2) for j in range(3)], "array")
                if ctx.shape(o) != (2, 3):
                    raise Refuted("an array changes shape")
                st = run.equal(ctx, g, w, dom, "array")
        for v in (3, Fraction(1, 2)):
            o = ctx.call(f, v if isinstance(v, int) else ctx.num(v))
            g, w = got.qty(o, "m", C(v), "number")
            st = run.equal(ctx, g, w, dom, "number")
        return st

    run.ob("values", vals, "arrays, integers and floats are all converted element by element")
    run.absorb(ctx)


# ---------------------------------------------------------------- U03
def U03(run: Run):
    ctx = Ctx()
    tb = ctx.table
    got = Got(ctx)
    dom = Dom(ranges={"a": (-2, 2), "b": (-2, 2)})
    r = lambda new, old: tb.ratio(ctx.unit(old), ctx.unit(new))  # noqa: E731
    a = V("a")
    A = ctx.V("a")
    AV = {"plain": (A, a), "m": (Qty(A, ctx.unit("m")), a), "km": (Qty(A, ctx.unit("km")), tm.mul(a, r("m", "km"))), "AU": (Qty(A, ctx.unit("AU")), tm.mul(a, r("m", "AU")))}
    FORMS = {
        "plain": "class M(eqx.Module):\n    x: object = field(units=ureg.m)\n",
        "string": "class M(eqx.Module):\n    x: object = field(units='m')\n",
        "default": "class M(eqx.Module):\n    x: object = field(units=ureg.m, default=None)\n",
        "strict": "class M(eqx.Module):\n    x: object = field(units=ureg.m, strict=True)\n",
        "init": "class M(eqx.Module):\n    x: object = field(units=ureg.m)\n    def __init__(self, x):\n        self.x = x\n",
        "inherited": "class P(eqx.Module):\n    x: object = field(units=ureg.m)\nclass M(P):\n    pass\n",
    }
    for form, src in FORMS.items():
        def conv_ob(form=form, src=src):
            M = ctx.client(CLIENT + src)["M"]
            st = None
            for la, (va, ta) in AV.items():
                for kw in (False, True):
                    mk = (lambda: ctx.call(M, x=va)) if kw else (lambda: ctx.call(M, va))
                    if form == "strict" and la == "plain":
                        expect_raise(mk, ("ValueError",), "plain number for a strict field")
                        continue
                    g, w = got.qty(ctx.attr(mk(), "x"), "m", ta, f"{form}: field given in {la}")
                    st = run.equal(ctx, g, w, dom, f"field {form} {la}")
            return st

        run.ob(f"convert[{form}]", conv_ob, "the stored value is the given one, as a quantity in exactly the field's unit")

        def wrong(form=form, src=src):
            M = ctx.client(CLIENT + src)["M"]
            return expect_raise(lambda: ctx.call(M, x=Qty(A, ctx.unit("s"))), ("DimensionalityError",), f"{form}: wrong dimension")

        run.ob(f"wrong[{form}]", wrong, "an incompatible dimension raises DimensionalityError when the object is created")

        def none(form=form, src=src):
            M = ctx.client(CLIENT + src)["M"]
            if ctx.attr(ctx.call(M, x=None), "x") is not None:
                raise Refuted(f"{form}: None is not kept")
            if form == "default" and ctx.attr(ctx.call(M), "x") is not None:
                raise Refuted("a None default is not kept")
            return "holds"

        run.ob(f"none[{form}]", none, "None is kept")

    def conv_first():
        st = None
        for nm, src in {
            "scaled": "class M(eqx.Module):\n    x: object = field(units=ureg.m, converter=lambda v: 2 * v)\n",
            "strict": "class M(eqx.Module):\n    x: object = field(units=ureg.m, strict=True, converter=lambda v: 2 * v)\n",
        }.items():
            M = ctx.client(CLIENT + src)["M"]
            for la, (va, ta) in AV.items():
                if nm == "strict" and la == "plain":
                    continue
                g, w = got.qty(ctx.attr(ctx.call(M, va), "x"), "m", tm.mul(C(2), ta), f"converter, {la}")
                st = run.equal(ctx, g, w, dom, f"converter {nm} {la}")
        M = ctx.client(CLIENT + "class M(eqx.Module):\n    x: object = field(units=ureg.m, strict=True, converter=lambda v: v * ureg.km)\n")["M"]
        g, w = got.qty(ctx.attr(ctx.call(M, A), "x"), "m", tm.mul(a, r("m", "km")), "converter adding units")
        return run.equal(ctx, g, w, dom, "converter first")

    run.ob("converter", conv_first, "a converter of the field's own runs first, on the value as given")

    def tree():
        M = ctx.client(CLIENT + "class M(eqx.Module):\n    p: object = field(units={'x': ureg.m, 'y': (ureg.s, None)})\n")["M"]
        st = None
        for la, (va, ta) in AV.items():
            o = ctx.attr(ctx.call(M, {"x": va, "y": (ctx.Q("b", "d"), A)}), "p")
            k = {("x" if i == 0 else "y"): ctx.it.models.getitem(o, ("x", "y")[i]) for i in range(2)}
            g, w = got.qty(k["x"], "m", ta, "tree field")
            st = run.equal(ctx, g, w, dom, f"tree field {la}")
            y0, y1 = ctx.it.models.getitem(k["y"], 0), ctx.it.models.getitem(k["y"], 1)
            g, w = got.qty(y0, "s", tm.mul(V("b"), r("s", "d")), "tree field, second leaf")
            st = run.equal(ctx, g, w, dom, "tree field second leaf")
            if isinstance(y1, Qty) or ctx.flat(y1) != [a]:
                raise Refuted("a leaf with unit None is changed")
        return st

    run.ob("pytree", tree, "units given as a tree apply leaf by leaf; None leaves are skipped")

    def nounits():
        for src in ("class M(eqx.Module):\n    x: object = field()\n", "class M(eqx.Module):\n    x: object = field(units=None)\n"):
            M = ctx.client(CLIENT + src)["M"]
            q = Qty(A, ctx.unit("kg"))
            for k in (A, q, None):
                o = ctx.attr(ctx.call(M, k), "x")
                if o is not k and not (isinstance(k, Qty) and isinstance(o, Qty) and o.unit == k.unit and ctx.flat(o.m) == ctx.flat(k.m)):
                    raise Refuted("a field without units changes its value")
        M = ctx.client(CLIENT + "class M(eqx.Module):\n    x: object = field(converter=lambda v: 2 * v)\n    y: object = field(default=7)\n")["M"]
        o = ctx.call(M, A)
        if ctx.flat(ctx.attr(o, "y")) != [C(7)]:
            raise Refuted("default lost")
        return run.equal(ctx, ctx.flat(ctx.attr(o, "x")), [tm.mul(C(2), a)], dom, "converter without units")

    run.ob("no units", nounits, "a field without units is a plain equinox field")

    def static():
        M = ctx.client(CLIENT + "class M(eqx.Module):\n    x: object = field(units=ureg.m, default=2)\n")["M"]
        g, w = got.qty(ctx.attr(ctx.call(M), "x"), "m", C(2), "plain default")
        return run.equal(ctx, g, w, dom, "plain default")

    run.ob("default value", static, "a plain default is given the unit")
    run.absorb(ctx)


# ---------------------------------------------------------------- U04
# IAU 2012 B2, IAU 2015 B2/B3, CODATA 2018; the exact defining relations
M_, S_U, KG = (1, 0, 0), (0, 1, 0), (0, 0, 1)
CONST = {
    # name: (value in SI, (m, s, kg))
    "AU": (Fraction(149597870700), (1, 0, 0)),
    "gravitational_constant": (Fraction(667430, 10**16), (3, -2, -1)),
    "L_bol0": (Fraction(30128) * 10**24, (2, -3, 1)),
    "L_sun": (Fraction(3828) * 10**23, (2, -3, 1)),
    "GM_sun": (Fraction(13271244) * 10**13, (3, -2, 0)),
    "R_sun": (Fraction(6957) * 10**5, (1, 0, 0)),
    "GM_jupiter": (Fraction(12668653) * 10**10, (3, -2, 0)),
    "R_jupiter": (Fraction(71492) * 10**3, (1, 0, 0)),
    "GM_earth": (Fraction(3986004) * 10**8, (3, -2, 0)),
    "R_earth": (Fraction(6378100), (1, 0, 0)),
}
CONST["M_sun"] = (CONST["GM_sun"][0] / CONST["gravitational_constant"][0], (0, 0, 1))
CONST["M_jupiter"] = (CONST["GM_jupiter"][0] / CONST["gravitational_constant"][0], (0, 0, 1))
CONST["M_earth"] = (CONST["GM_earth"][0] / CONST["gravitational_constant"][0], (0, 0, 1))
CONST["parsec"] = (None, (1, 0, 0))
ALIASES = {
    "AU": ("au", "astronomical_unit"), "gravitational_constant": ("G",), "parsec": ("pc",), "L_sun": ("L_solar", "solar_luminosity"), "GM_sun": ("GM_solar", "solar_mass_parameter"),
    "M_sun": ("M_solar", "solar_mass"), "R_sun": ("R_solar", "solar_radius"), "GM_jupiter": ("GM_jup", "jupiter_mass_parameter"), "M_jupiter": ("M_jup", "jupiter_mass"), "R_jupiter": ("R_jup", "jupiter_radius"),
    "GM_earth": ("earth_mass_parameter",), "M_earth": ("earth_mass",), "R_earth": ("earth_radius",),
}
BASE = {"m": (1, (1, 0, 0)), "s": (1, (0, 1, 0)), "kg": (1, (0, 0, 1)), "W": (1, (2, -3, 1)), "km": (1000, (1, 0, 0)), "g": (Fraction(1, 1000), (0, 0, 1)), "cm": (Fraction(1, 100), (1, 0, 0)), "meter": (1, (1, 0, 0)), "second": (1, (0, 1, 0)),
        "kilogram": (1, (0, 0, 1)), "watt": (1, (2, -3, 1)), "J": (1, (2, -2, 1)), "N": (1, (1, -2, 1)), "tansec": (None, (0, 0, 0)), "arcsecond": (None, (0, 0, 0)), "day": (86400, (0, 1, 0)), "d": (86400, (0, 1, 0))}
TANSEC = mpmath.tan(mpmath.pi / 648000)


def definitions(text):
    """independent reader of the definition file: name -> (line, value, dims), aliases"""
    import re

    raw, alias, order = {}, {}, {}
    for n, line in enumerate(text.splitlines(), 1):
        line = line.split("#")[0].strip()
        if not line or line.startswith("@"):
            continue
        parts = [p.strip() for p in line.split("=")]
        if len(parts) < 2:
            raise Undecided(f"line {n}: {line!r}")
        raw[parts[0]] = (n, parts[1])
        order[parts[0]] = n
        for al in parts[2:]:
            if al == "_" or not al:
                continue
            if al in alias and alias[al] != parts[0]:
                raise Refuted(f"line {n}: alias {al} defined for both {alias[al]} and {parts[0]}")
            alias[al] = parts[0]
    memo = {}

    def value(name, depth=0):
        name = name if name in raw else alias.get(name, name)
        if name in memo:
            return memo[name]
        if name not in raw:
            if name in BASE:
                v, d = BASE[name]
                if v is None:
                    v = {"tansec": mpmath.mpf("4.8481368111333441675396429478852851658848753880815e-06"), "arcsecond": mpmath.pi / 648000}[name]
                return v, d
            raise Undecided(f"unit {name} not known to the analysis")
        if depth > 20:
            raise Refuted(f"circular definition of {name}")
        n, expr = raw[name]
        toks = re.findall(r"[0-9.]+(?:[eE][-+]?[0-9]+)?|[A-Za-z_][A-Za-z_0-9]*|\*\*|[*/^()]|[-+]", expr)
        toks = ["^" if t == "**" else t for t in toks]
        pos = [0]

        def atom():
            t = toks[pos[0]]
            pos[0] += 1
            if t == "(":
                r = expr_()
                pos[0] += 1
                return r
            if t in "+-":
                v, d = atom()
                return (-v if t == "-" else v), d
            if t[0].isdigit() or t[0] == ".":
                return Fraction(t), (0, 0, 0)
            return value(t, depth + 1)

        def power():
            v, d = atom()
            while pos[0] < len(toks) and toks[pos[0]] == "^":
                pos[0] += 1
                p, _ = atom()
                v, d = v ** int(p) if p == int(p) else mpmath.mpf(v.numerator) / v.denominator ** p, tuple(x * int(p) for x in d)
            return v, d

        def mulq(x, y, div):
            if div:
                return (x / y if isinstance(x, Fraction) and isinstance(y, (int, Fraction)) else mp_(x) / mp_(y))
            return x * y if not (isinstance(x, mpf) or isinstance(y, mpf)) else mp_(x) * mp_(y)

        def expr_():
            v, d = power()
            v = Fraction(v) if isinstance(v, int) else v
            while pos[0] < len(toks) and toks[pos[0]] not in (")",):
                t = toks[pos[0]]
                div = t == "/"
                if t in "*/":
                    pos[0] += 1
                w, e = power()
                v = mulq(v, w, div)
                d = tuple(p - q if div else p + q for p, q in zip(d, e))
            return v, d

        memo[name] = expr_()
        return memo[name]

    return raw, alias, value


def mp_(x):
    return mpf(x.numerator) / x.denominator if isinstance(x, (Fraction, int)) and not isinstance(x, mpf) else mpf(x)


def U04(run: Run):
    ctx = Ctx()
    import os

    repo = os.environ.get("VERIF_REPO", "/repo")
    path = os.path.join(repo, "src/jaxoplanet/units/astro_constants_and_units.txt")

    def loaded():
        import ast as ast_

        p = os.path.join(repo, "src/jaxoplanet/units/registry.py")
        names = [n.value for n in ast_.walk(ast_.parse(open(p).read())) if isinstance(n, ast_.Constant) and isinstance(n.value, str) and n.value.endswith(".txt")]
        if names != ["astro_constants_and_units.txt"]:
            raise Undecided(f"definition files {names}")
        return names

    def table():
        loaded()
        if not os.path.exists(path):
            raise Undecided("definition file moved")
        return definitions(open(path).read())

    for name, (val, dim) in CONST.items():
        def ob(name=name, val=val, dim=dim):
            raw, alias, value = table()
            if name not in raw and name not in alias:
                raise Refuted(f"{name} is not defined", site=None)
            v, d = value(name)
            if d != dim:
                raise Refuted(f"line {raw[alias.get(name, name)][0]}: {name} has dimensions m^{d[0]} s^{d[1]} kg^{d[2]}, expected m^{dim[0]} s^{dim[1]} kg^{dim[2]}")
            w = mp_(val) if val is not None else mp_(CONST["AU"][0]) * 648000 / mpmath.pi
            run.comparisons += 1
            # masses and the parsec may be written to their published precision
            if abs(mp_(v) - w) > mpf("1e-10") * w:
                raise Refuted(f"{path.split('/src/')[1]}:{raw[name if name in raw else alias[name]][0]}: {name} = {mpmath.nstr(mp_(v), 15)} SI, nominal value {mpmath.nstr(w, 15)}")
            return "proved"

        run.ob(f"value[{name}]", ob, "IAU 2015 B3 / IAU 2012 B2 / CODATA 2018 nominal values")
        for al in ALIASES.get(name, ()):
            def oba(name=name, al=al):
                raw, alias, value = table()
                tgt = al if al in raw else alias.get(al)
                if tgt is None:
                    raise Refuted(f"{al} is not defined")
                if value(al) != value(name):
                    raise Refuted(f"{al} means {tgt}, expected {name}")
                return "proved"

            run.ob(f"alias[{al}]", oba, "an alias names the same unit")

    def standard():
        raw, alias, value = table()
        hour, day, deg = 3600, 86400, mpmath.pi / 180
        T, L, K, N = (0, 1, 0), (1, 0, 0), (0, 0, 1), (0, 0, 0)
        std = {"m": (1, L), "meter": (1, L), "metre": (1, L), "s": (1, T), "second": (1, T), "sec": (1, T), "g": (Fraction(1, 1000), K), "gram": (Fraction(1, 1000), K), "rad": (1, N), "radian": (1, N), "min": (60, T), "minute": (60, T), "h": (hour, T), "hr": (hour, T), "hour": (hour, T),
               "d": (day, T), "day": (day, T), "deg": (deg, N), "degree": (deg, N), "arcmin": (deg / 60, N), "arcminute": (deg / 60, N), "arcsec": (deg / 3600, N), "arcsecond": (deg / 3600, N), "mas": (deg / 3600000, N), "yr": (Fraction(36525 * 864), T), "year": (Fraction(36525 * 864), T),
               "a": (Fraction(36525 * 864), T), "ppm": (Fraction(1, 10**6), N), "percent": (Fraction(1, 100), N), "dimensionless": (1, N), "W": (1, (2, -3, 1)), "watt": (1, (2, -3, 1)), "J": (1, (2, -2, 1)), "N": (1, (1, -2, 1)), "Hz": (1, (0, -1, 0)), "kg": (1, K), "kilogram": (1, K), "km": (1000, L), "cm": (Fraction(1, 100), L)}
        for n, (v, d) in std.items():
            if n in raw or n in alias:
                w, e = value(n)
                if e != d or abs(mp_(w) - mp_(v)) > mpf("1e-12") * abs(mp_(v)):
                    raise Refuted(f"{path.split('/src/')[1]}:{raw[alias.get(n, n)][0]}: the standard unit {n} is redefined")
        run.comparisons += len(std)
        return "proved"

    run.ob("standard-units", standard, "no standard unit is given another meaning")

    def consistent():
        # the parsed table is the table the code sees
        def dimv(u):
            return ctx.table.dim(ctx.unit(u))

        for x, y in (("G*M_sun/R_sun", "m^2/s^2"), ("GM_sun", "G*M_sun"), ("pc", "m")):
            if dimv(x) != dimv(y):
                raise Refuted(f"{x} is not commensurable with {y}")
        return "holds"

    run.ob("dimensions", consistent, "the constants are commensurable as documented")

    run.absorb(ctx)
