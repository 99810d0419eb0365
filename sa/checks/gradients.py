"""G01: gradients are finite and equal to the derivatives, also at degenerate inputs."""
from __future__ import annotations

import random

import mpmath

from .. import adjoint
from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, Undecided, isnan, seed_for
from ..interp import fmt_site
from .orbit_model import V

mpf = mpmath.mpf
KEP = "jaxoplanet.orbits.keplerian"
PI = mpmath.pi


class Scenario:
    def __init__(self, name, fn, ranges, strata, contracts=("kepler",), thorough=False):
        self.name, self.fn, self.ranges, self.strata, self.contracts, self.thorough = name, fn, ranges, strata, contracts, thorough


def W(ctx, n):
    return ctx.V(n, traced=True)


def outputs(ctx, *xs):
    out = []
    for x in xs:
        if isinstance(x, (tuple, list)):
            out += outputs(ctx, *x)
        else:
            out += ctx.phys(x)
    return out


def central(ctx, m="Mc", r="Rc"):
    return ctx.call(ctx.get(f"{KEP}:Central"), mass=W(ctx, m), radius=W(ctx, r))


ORB = {"Mc": (0.7, 1.5), "Rc": (0.7, 1.5), "period": (3, 5), "time_transit": (-0.5, 0.5), "time_peri": (-0.5, 0.5), "semimajor": (3, 6), "inclination": (1.45, 1.53), "impact_param": (0.1, 0.5), "eccentricity": (0.1, 0.5), "omega_peri": (0.3, 1.2), "asc_node": (0.3, 1.2),
       "sin_omega_peri": (0.6, 0.6), "cos_omega_peri": (0.8, 0.8), "mass": (0.05, 0.4), "radius": (0.1, 0.3), "parallax": (0.05, 0.2), "radial_velocity_semiamplitude": (0.1, 1), "t": (0.6, 1.4)}


def kepler_orbit(*names, obs=("relative_position", "position", "central_velocity", "relative_velocity")):
    def f(ctx):
        b = ctx.call(ctx.get(f"{KEP}:OrbitalBody"), central(ctx), ctx.call(ctx.get(f"{KEP}:Body"), **{n: W(ctx, n) for n in names}))
        xs = [ctx.meth(b, o, W(ctx, "t")) for o in obs]
        if "mass" in names or "radial_velocity_semiamplitude" in names:
            xs.append(ctx.meth(b, "radial_velocity", W(ctx, "t")))
        return outputs(ctx, *xs)

    return f


def scenarios():
    S = []
    half = +PI / 2
    S.append(Scenario("zero_safe_sqrt", lambda ctx: outputs(ctx, ctx.call(ctx.get("jaxoplanet.utils:zero_safe_sqrt"), W(ctx, "x"))), {"x": (0.1, 10)},
                      {"generic": {}, "large": {"x": (1e4, 1e6)}, "small": {"x": (1e-4, 2e-4)}, "zero": {"x": 0, "@": "finite"}, "tiny": {"x": mpf("1e-40"), "@": "finite"}}, contracts=()))
    # ---- orbits
    ecc = {"generic": {}, "nearly circular": {"eccentricity": (0.001, 0.01)}, "nearly edge-on": {"inclination": half - mpf("0.01")}, "circular limit": {"eccentricity": 0}, "periastron on the node": {"omega_peri": 0}, "periastron at conjunction": {"omega_peri": half}, "periastron behind": {"omega_peri": -half}, "edge-on": {"inclination": half}, "at transit": {"t": "time_transit"},
           "face-on": {"inclination": 0}, "no node rotation": {"asc_node": 0}, "circular and edge-on at transit": {"eccentricity": 0, "inclination": half, "t": "time_transit", "omega_peri": 0}}
    S.append(Scenario("orbit(eccentric)", kepler_orbit("period", "time_transit", "inclination", "eccentricity", "omega_peri", "asc_node", "mass"), ORB, ecc))
    S.append(Scenario("orbit(semimajor, impact parameter)", kepler_orbit("semimajor", "time_transit", "impact_param", "eccentricity", "omega_peri", "mass"), ORB,
                      {"generic": {}, "circular limit": {"eccentricity": 0}, "b=0": {"impact_param": 0}, "b=0 at transit": {"impact_param": 0, "t": "time_transit"}, "massless": {"mass": 0}}))
    S.append(Scenario("orbit(periastron time)", kepler_orbit("period", "time_peri", "inclination", "eccentricity", "omega_peri"), ORB,
                      {"generic": {}, "circular limit": {"eccentricity": 0}, "at periastron": {"t": "time_peri"}, "periastron at conjunction": {"omega_peri": half}, "edge-on": {"inclination": half}}))
    S.append(Scenario("orbit(circular)", kepler_orbit("period", "time_transit", "impact_param", "radius"), ORB, {"generic": {}, "b=0": {"impact_param": 0}, "b=0 at transit": {"impact_param": 0, "t": "time_transit"}}))
    S.append(Scenario("orbit(parallax)", kepler_orbit("period", "time_transit", "inclination", "parallax"), ORB, {"generic": {}, "at transit": {"t": "time_transit"}}))
    S.append(Scenario("orbit(K)", kepler_orbit("period", "time_transit", "eccentricity", "omega_peri", "radial_velocity_semiamplitude", obs=("central_velocity",)), ORB, {"generic": {}, "circular limit": {"eccentricity": 0}, "zero amplitude": {"radial_velocity_semiamplitude": 0}}))

    def angles(ctx):
        b = ctx.call(ctx.get(f"{KEP}:OrbitalBody"), central(ctx), ctx.call(ctx.get(f"{KEP}:Body"), **{n: W(ctx, n) for n in ("period", "time_transit", "inclination", "eccentricity", "omega_peri", "asc_node")}))
        return outputs(ctx, ctx.attr(b, "inclination"), ctx.attr(b, "omega_peri"), ctx.attr(b, "impact_param"), ctx.meth(b, "relative_angles", W(ctx, "t")))

    S.append(Scenario("orbit angles", angles, ORB, {k: v for k, v in ecc.items() if "face" not in k and "at transit" not in k}))

    def cen(*names):
        def f(ctx):
            c = ctx.call(ctx.get(f"{KEP}:Central"), **{n: W(ctx, n) for n in names})
            return outputs(ctx, ctx.attr(c, "mass"), ctx.attr(c, "radius"), ctx.attr(c, "density"))

        return f

    for n in (("mass", "radius"), ("mass", "density"), ("radius", "density")):
        S.append(Scenario(f"central{n}", cen(*n), {"mass": (0.5, 2), "radius": (0.5, 2), "density": (0.2, 1)}, {"generic": {}}, contracts=()))

    # ---- transit orbits
    def tr(names, obs=True, cls="jaxoplanet.orbits.transit:TransitOrbit", extra=None):
        def f(ctx):
            o = ctx.call(ctx.get(cls), **{n: W(ctx, n) for n in names}, **({k: v(ctx) for k, v in (extra or {}).items()}))
            return outputs(ctx, *ctx.meth(o, "relative_position", W(ctx, "t"))[:2], ctx.attr(o, "duration"), ctx.attr(o, "speed"))

        return f

    TRR = {"period": (3, 5), "duration": (0.2, 0.4), "speed": (5, 9), "time_transit": (-0.5, 0.5), "impact_param": (0.1, 0.6), "radius_ratio": (0.05, 0.2), "t": (0.6, 1.4), "q*": (-0.05, 0.05), "tt0": (-0.1, 0.1), "tt1": (3.9, 4.1), "tt2": (7.9, 8.1)}
    for form in ("duration", "speed"):
        S.append(Scenario(f"transit({form})", tr(("period", form, "time_transit", "impact_param", "radius_ratio")), TRR,
                          {"generic": {}, "b=0": {"impact_param": 0}, "at transit": {"t": "time_transit"}, "b=0 at transit": {"impact_param": 0, "t": "time_transit"}, "dark body": {"radius_ratio": 0}}, contracts=()))
    TT = "jaxoplanet.orbits.ttv:TTVOrbit"
    S.append(Scenario("ttv(times)", tr(("duration", "impact_param", "radius_ratio"), cls=TT, extra={"transit_times": lambda ctx: (ctx.vec("tt0", "tt1", "tt2", traced=True),)}), TRR, {"generic": {}, "b=0": {"impact_param": 0}, "at a transit": {"t": "tt1"}, "first epoch": {"t": "tt0"}}, contracts=()))
    S.append(Scenario("ttv(ttvs)", tr(("period", "time_transit", "duration", "impact_param", "radius_ratio"), cls=TT, extra={"ttvs": lambda ctx: (ctx.vec("q0", "q1", "q2", traced=True),)}), TRR, {"generic": {}, "b=0": {"impact_param": 0}, "no variations": {"q0": 0, "q1": 0, "q2": 0}}, contracts=()))

    # ---- limb darkening
    def core(nu, order):
        def f(ctx):
            us = ctx.vec(*[f"u{i}" for i in range(nu)], traced=True) if nu else ctx.call(ctx.it.models.np.funcs["zeros"], 0)
            return outputs(ctx, ctx.call(ctx.get("jaxoplanet.core.limb_dark:light_curve"), us, W(ctx, "b"), W(ctx, "r"), order=order))

        return f

    CR = {"u*": (0.1, 0.3), "b": (0.2, 0.5), "r": (0.1, 0.3)}
    BR = {"inside": {}, "near b=0": {"b": (0.008, 0.012)}, "near b=r": {"b": mpf("0.305"), "r": mpf("0.3")}, "near inner contact": {"b": mpf("0.745"), "r": mpf("0.25")}, "near outer contact": {"b": mpf("1.245"), "r": mpf("0.25")}, "small r": {"r": (0.008, 0.012)}, "ingress": {"b": (0.95, 1.05), "r": (0.15, 0.3)}, "outside": {"b": (1.5, 2)}, "full": {"b": (0.1, 0.4), "r": (1.6, 1.8)}, "b=0": {"b": 0}, "b=r": {"b": mpf("0.3"), "r": mpf("0.3")}, "large body": {"b": (1.5, 1.7), "r": (1.2, 1.4)},
          "b=1": {"b": 1}, "annular b=0": {"b": 0, "r": (0.85, 0.95)}, "beyond": {"b": (5, 9)}, "negative b": {"b": (-0.5, -0.2)},
          "inner contact": {"b": mpf("0.75"), "r": mpf("0.25"), "@": "finite"}, "outer contact": {"b": mpf("1.25"), "r": mpf("0.25"), "@": "finite"}, "full contact": {"b": mpf("0.5"), "r": mpf("1.5"), "@": "finite"}, "r=0": {"r": 0, "@": "finite"}, "b=0,r=1": {"b": 0, "r": 1, "@": "finite"}, "b=0,r=0": {"b": 0, "r": 0, "@": "finite"}}
    for nu in (0, 1, 2, 3):
        S.append(Scenario(f"core.limb_dark({nu})", core(nu, 6), CR, BR, contracts=(), thorough=nu in (1,)))

    def system(ctx, n=1, surf=None):
        s = ctx.call(ctx.get(f"{KEP}:System"), central(ctx))
        return ctx.meth(s, "add_body", **{k: W(ctx, k) for k in ("period", "time_transit", "impact_param", "radius", "mass")})

    def lc(orbit, nu=2):
        def f(ctx):
            o = orbit(ctx)
            us = [W(ctx, f"u{i}") for i in range(nu)]
            g = ctx.call(ctx.get("jaxoplanet.light_curves.limb_dark:light_curve"), o, *us, order=4)
            return outputs(ctx, ctx.call(g, W(ctx, "t")))

        return f

    tro = lambda ctx: ctx.call(ctx.get("jaxoplanet.orbits.transit:TransitOrbit"), **{k: W(ctx, k) for k in ("period", "duration", "time_transit", "impact_param", "radius_ratio")})  # noqa: E731
    LCS = {"just off mid-transit, b=0.01": {"impact_param": (0.01, 0.02), "t": "time_transit"}, "mid-transit, b=0": {"impact_param": 0, "t": "time_transit"}, "mid-transit": {"t": "time_transit"}, "in transit": {"t": (0.005, 0.02), "time_transit": 0}, "out of transit": {"time_transit": 0, "t": (0.6, 0.9)}, "opposition": {"time_transit": 0, "period": 4, "t": 2}}
    LR = {**ORB, "u*": (0.1, 0.3), "impact_param": (0.1, 0.4), "radius": (0.05, 0.15)}
    S.append(Scenario("light curve(system)", lc(system), LR, LCS))
    S.append(Scenario("light curve(system), no limb darkening", lc(system, 0), LR, LCS, thorough=True))
    S.append(Scenario("light curve(transit)", lc(tro), {**TRR, "u*": (0.1, 0.3), "impact_param": (0.1, 0.4)}, LCS))

    # ---- transforms: a smooth stand-in for the light curve
    TRF = "jaxoplanet.light_curves.transforms"

    def ulc(ctx):
        return ctx.client("def f(t, p):\n    return jnp.sin(p * t.magnitude) + t.magnitude ** 2\n")["f"]

    def integ(ctx):
        return outputs(ctx, ctx.call(ctx.call(ctx.get(f"{TRF}:integrate"), ulc(ctx), exposure_time=W(ctx, "exp"), num_samples=3), W(ctx, "t"), W(ctx, "p")))

    for o in (0, 1, 2):
        S.append(Scenario(f"integrate({o})", lambda ctx, o=o: outputs(ctx, ctx.call(ctx.call(ctx.get(f"{TRF}:integrate"), ulc(ctx), exposure_time=W(ctx, "exp"), num_samples=3, order=o), W(ctx, "t"), W(ctx, "p"))),
                          {"exp": (0.1, 0.4), "t": (0.5, 1), "p": (0.5, 2)}, {"generic": {}, "instantaneous": {"exp": 0}, "t=0": {"t": 0}}, contracts=()))
    S.append(Scenario("interpolate", lambda ctx: outputs(ctx, ctx.call(ctx.call(ctx.get(f"{TRF}:interpolate"), ulc(ctx), period=W(ctx, "period"), time_transit=W(ctx, "time_transit"), duration=W(ctx, "duration"), num_samples=6, args=(W(ctx, "p"),)), W(ctx, "t"))),
                      {"period": (3, 4), "time_transit": (-0.05, 0.05), "duration": (0.8, 1), "t": (0.11, 0.13), "p": (0.5, 2)}, {"generic": {}, "out of transit": {"t": (1.2, 1.4)}}, contracts=()))

    # ---- surfaces
    SURF, SLC = "jaxoplanet.starry.surface:Surface", "jaxoplanet.starry.light_curves:surface_light_curve"
    YLM = "jaxoplanet.starry.ylm:Ylm"

    def surface(ctx, ydeg, nu, extra=()):
        k = {n: W(ctx, n) for n in ("inc", "obl", "amplitude") + tuple(extra)}
        if nu:
            k["u"] = tuple(W(ctx, f"u{i}") for i in range(nu))
        if ydeg:
            y = {(0, 0): ctx.num(1)} | {(l, m): W(ctx, f"y{l}{m}") for l in range(1, ydeg + 1) for m in range(-l, l + 1)}
            k["y"] = ctx.call(ctx.get(YLM), y)
        return ctx.call(ctx.get(SURF), normalize=False, **k)

    SR = {"inc": (0.9, 1.3), "obl": (0.2, 0.8), "amplitude": (0.8, 1.2), "u*": (0.1, 0.3), "y*": (-0.3, 0.3), "x": (0.2, 0.4), "y": (-0.5, -0.2), "z": (1, 5), "r": (0.1, 0.3), "theta": (0.3, 1.2), "phase": (0.1, 0.6), "period": (3, 5), "t": (0.3, 0.8), "shear": (0.1, 0.3), "radius": (0.5, 1), "lat": (-0.5, 0.5), "lon": (-0.4, 0.4)}
    SS = {"occulted": {}, "nearly edge-on": {"inc": half - mpf("0.01")}, "nearly pole-on": {"inc": mpf("0.01")}, "nearly at rest": {"theta": mpf("0.01")}, "nearly half turn": {"theta": PI - mpf("0.01")}, "nearly upright": {"obl": mpf("0.01")}, "nearly at rest, edge-on, upright": {"inc": half - mpf("0.01"), "theta": mpf("0.01"), "obl": mpf("0.01")}, "nearly concentric": {"x": (0.006, 0.008), "y": (-0.008, -0.006)}, "ingress": {"x": mpf("0.8"), "y": mpf("-0.6")}, "outside": {"x": (1.5, 2)}, "behind": {"z": (-3, -1)}, "edge-on": {"inc": half}, "edge-on, no obliquity": {"inc": half, "obl": 0}, "no rotation": {"theta": 0}, "edge-on, no rotation": {"inc": half, "obl": 0, "theta": 0},
          "half turn": {"theta": +PI}, "half turn edge-on": {"inc": half, "obl": 0, "theta": +PI}, "pole-on": {"inc": 0}, "pole-on, no rotation": {"inc": 0, "theta": 0, "obl": 0}, "on the axis x=0": {"x": 0}, "on the axis y=0": {"y": 0}, "full": {"r": (2.5, 3)}, "flipped": {"inc": +PI}}

    def slc(ydeg, nu, occ):
        def f(ctx):
            a = [W(ctx, k) for k in "rxyz"] if occ else []
            return outputs(ctx, ctx.call(ctx.get(SLC), surface(ctx, ydeg, nu), *a, theta=W(ctx, "theta"), order=4))

        return f

    rot = {k: v for k, v in SS.items() if not set(v) & set("rxyz")}
    S.append(Scenario("surface flux(1)", slc(1, 0, False), SR, rot, contracts=()))
    S.append(Scenario("surface flux(1, limb darkened)", slc(1, 1, False), SR, rot, contracts=(), thorough=True))
    S.append(Scenario("surface flux(2)", slc(2, 0, False), SR, rot, contracts=(), thorough=True))
    S.append(Scenario("occulted surface(0)", slc(0, 2, True), SR, {**{k: v for k, v in SS.items() if set(v) & set("rxyz")}, "occulted": {}, "concentric": {"x": 0, "y": 0}, "concentric behind": {"x": 0, "y": 0, "z": -1}}, contracts=()))
    S.append(Scenario("occulted surface(1)", slc(1, 0, True), SR, {**SS, "concentric": {"x": 0, "y": 0, "@split": ("x", "y")}, "concentric behind": {"x": 0, "y": 0, "z": -1}}, contracts=()))

    def phase(ctx):
        s = surface(ctx, 0, 0, ("period", "phase"))
        return outputs(ctx, ctx.meth(s, "rotational_phase", W(ctx, "t")))

    S.append(Scenario("rotational phase", phase, SR, {"generic": {}, "t=0": {"t": 0}}, contracts=()))
    S.append(Scenario("surface intensity", lambda ctx: outputs(ctx, ctx.meth(surface(ctx, 1, 1), "intensity", W(ctx, "lat"), W(ctx, "lon"))), SR, {"generic": {}, "edge-on": {"inc": half}, "equator": {"lat": 0}, "central meridian": {"lon": 0}, "sub-observer": {"lat": 0, "lon": 0, "inc": half, "@": "finite"}}, contracts=()))
    S.append(Scenario("surface rv", lambda ctx: outputs(ctx, ctx.call(ctx.get("jaxoplanet.starry.doppler:surface_radial_velocity"), surface(ctx, 0, 1, ("period", "radius")), *[W(ctx, k) for k in "rxyz"], theta=W(ctx, "theta"), order=4)), SR,
                      {"occulted": {}, "nearly concentric": {"x": (0.006, 0.008), "y": (-0.008, -0.006)}, "nearly at rest": {"theta": mpf("0.01"), "obl": mpf("0.01")}, "outside": {"x": (1.5, 2)}, "behind": {"z": (-3, -1)}, "edge-on": {"inc": half}, "on the axis x=0": {"x": 0}, "on the axis y=0": {"y": 0}, "no obliquity": {"obl": 0}, "concentric": {"x": 0, "y": 0, "@split": ("x", "y")}, "concentric behind": {"x": 0, "y": 0, "z": -1}, "pole-on": {"inc": 0}, "flipped": {"inc": +PI}}, contracts=(), thorough=False))
    SORB = "jaxoplanet.starry.orbit:SurfaceSystem"

    def two(ctx, ydeg, nu=0):
        s1 = surface(ctx, ydeg, nu)
        s2 = ctx.call(ctx.get(SURF), amplitude=W(ctx, "amp2"), normalize=False)
        o = ctx.call(ctx.get(SORB), central(ctx), s1)
        return ctx.meth(o, "add_body", surface=s2, **{k: W(ctx, k) for k in ("period", "time_transit", "impact_param", "radius", "mass")})

    TWO = {**SR, **LR, "amp2": (0.1, 0.3), "radius": (0.05, 0.15), "t": (0.005, 0.02), "time_transit": (-0.002, 0.002)}
    ST = {"in transit": {}, "just off mid-transit, b=0.01": {"impact_param": (0.01, 0.02), "t": "time_transit"}, "mid-transit, b=0": {"impact_param": 0, "t": "time_transit"}, "mid-transit": {"t": "time_transit"}, "out of transit": {"t": (0.6, 0.9)}, "mid-eclipse, b=0": {"impact_param": 0, "time_transit": 0, "period": 4, "t": 2}, "mid-eclipse": {"time_transit": 0, "period": 4, "t": 2}}
    S.append(Scenario("emission", lambda ctx: outputs(ctx, ctx.call(ctx.call(ctx.get("jaxoplanet.light_curves.emission:light_curve"), two(ctx, 0)), W(ctx, "t"))), TWO, ST))
    S.append(Scenario("system of surfaces(0)", lambda ctx: outputs(ctx, ctx.call(ctx.call(ctx.get("jaxoplanet.starry.light_curves:light_curve"), two(ctx, 0, 1), order=4), W(ctx, "t"))), TWO, ST))
    S.append(Scenario("system of surfaces(1)", lambda ctx: outputs(ctx, ctx.call(ctx.call(ctx.get("jaxoplanet.starry.light_curves:light_curve"), two(ctx, 1), order=4), W(ctx, "t"))), TWO, {k: v for k, v in ST.items() if k != "mid-transit, b=0"}, thorough=True))

    # ---- maps
    def spot(ydeg, npts, fac):
        return lambda ctx: outputs(ctx, ctx.meth(ctx.call(ctx.call(ctx.get("jaxoplanet.starry.ylm:ylm_spot"), ydeg, npts=npts, spot_fac=fac), *[W(ctx, k) for k in ("c", "rad", "lat", "lon")]), "todense"))

    SPR = {"c": (0.2, 0.8), "rad": (0.3, 0.8), "lat": (-1.2, 1.2), "lon": (0.3, 1.2)}
    SPS = {"generic": {}, "near the centre": {"lat": mpf("0.01"), "lon": mpf("0.01")}, "near the pole": {"lat": half - mpf("0.01")}, "small": {"rad": (0.01, 0.02)}, "sub-observer": {"lat": 0, "lon": 0}, "on the equator": {"lat": 0}, "central meridian": {"lon": 0}, "at the pole": {"lat": half}, "at the south pole": {"lat": -half}, "far side": {"lon": +PI}, "far side, equator": {"lat": 0, "lon": +PI}, "behind the pole": {"lat": +PI}, "limb": {"lon": half},
           "no contrast": {"c": 0}, "no radius": {"rad": 0}, "whole star": {"rad": (2.6, 3.1)}, "single precision": {"@bits": 32}, "whole star, single precision": {"rad": (2.6, 3.1), "@bits": 32}}
    S.append(Scenario("spot(1)", spot(1, 5, 300), SPR, SPS, contracts=()))
    S.append(Scenario("spot(2)", spot(2, 9, 300), SPR, SPS, contracts=(), thorough=True))
    for nu in (1, 3):
        S.append(Scenario(f"limb darkened map({nu})", lambda ctx, nu=nu: outputs(ctx, ctx.meth(ctx.call(ctx.get(f"{YLM}.from_limb_darkening"), ctx.vec(*[f"u{i}" for i in range(nu)], traced=True)), "todense")), {"u*": (0.1, 0.3)}, {"generic": {}, "uniform": {f"u{i}": 0 for i in range(nu)}}, contracts=()))
    ROTC = "jaxoplanet.starry.core.rotation"
    for side in ("left", "right"):
        S.append(Scenario(f"{side} projection", lambda ctx, side=side: outputs(ctx, ctx.call(ctx.get(f"{ROTC}:{side}_project"), 1, *[W(ctx, k) for k in ("inc", "obl", "theta", "tz")], ctx.vec("y0", "y1", "y2", "y3", traced=True))), {"inc": (0.5, 1.3), "obl": (0.2, 0.8), "theta": (0.3, 1.2), "tz": (0.2, 0.8), "y*": (-0.5, 0.5)},
                          {"generic": {}, "nearly edge-on": {"inc": half - mpf("0.01")}, "nearly pole-on": {"inc": mpf("0.01")}, "nearly at rest": {"inc": half - mpf("0.01"), "obl": mpf("0.01"), "theta": mpf("0.01"), "tz": mpf("0.01")}, "edge-on": {"inc": half}, "pole-on": {"inc": 0}, "no rotation": {"inc": 0, "obl": 0, "theta": 0, "tz": 0}, "edge-on, aligned": {"inc": half, "obl": 0, "theta": 0, "tz": 0}, "half turn": {"theta": +PI, "inc": half, "obl": 0, "tz": 0}, "flipped": {"inc": +PI, "obl": +PI, "theta": +PI}}, contracts=()))
    for n in (1, 2, 3):
        S.append(Scenario(f"solution vector({n})", lambda ctx, n=n: outputs(ctx, ctx.call(ctx.call(ctx.get("jaxoplanet.starry.core.solution:solution_vector"), n, order=4), W(ctx, "b"), W(ctx, "r"))), CR, {k: v for k, v in BR.items() if k != "negative b"}, contracts=(), thorough=n != 1))

    def product(ctx):
        y = lambda p: ctx.call(ctx.get(YLM), {(0, 0): ctx.num(1)} | {(1, m): W(ctx, f"{p}{m}") for m in (-1, 0, 1)})  # noqa: E731
        return outputs(ctx, ctx.meth(ctx.it.models.binop("Mult", y("p"), y("q")), "todense"))

    S.append(Scenario("product of maps", product, {"p*": (-0.5, 0.5), "q*": (-0.5, 0.5)}, {"generic": {}, "uniform": {"p-1": 0, "p0": 0, "p1": 0}}, contracts=()))
    S.append(Scenario("normalized map", lambda ctx: outputs(ctx, ctx.meth(ctx.meth(ctx.call(ctx.get(YLM), {(0, 0): W(ctx, "y00"), (1, 0): W(ctx, "y10"), (1, 1): W(ctx, "y11")}), "normalize"), "todense")), {"y00": (0.5, 2)}, {"generic": {}, "uniform": {"y10": 0, "y11": 0}}, contracts=()))
    return S


def G01(run: Run):
    quick = run.tier == "quick"
    raw = tm.RAW[0]
    tm.RAW[0] = True
    try:
        for s in scenarios():
            if quick and s.thorough:
                continue
            scenario(run, s, quick)
    finally:
        tm.RAW[0] = raw


def scenario(run, s, quick):
    memo = {}

    def graph():
        if "x" not in memo:
            ctx = Ctx(*s.contracts)
            ctx.it.models.grad_mode = True
            memo["x"] = (ctx, s.fn(ctx))
            run.absorb(ctx)
        return memo["x"]

    for st, spec in s.strata.items():
        rule = "the reverse-mode gradient is finite and equals the derivative"
        split = spec.get("@split", ())
        run.ob(f"gradient[{s.name}|{st}]", lambda st=st, spec=spec: one(run, s, graph, st, spec, quick, skip=split), rule)
        for p in split:
            run.ob(f"gradient[{s.name}|{st}|{p}]", lambda st=st, spec=spec, p=p: one(run, s, graph, st, spec, quick, only=p), rule)


def one(run, s, graph, st, spec, quick, skip=(), only=None):
    ctx, outs = graph()
    ops = {o for o in tm.opaques(*outs) if o.startswith("?")}
    if ops:
        raise Undecided(f"opaque {sorted(ops)[:3]}")
    params = {n for n in tm.free_vars(*outs) if not n.startswith(("u:", "gl:", "@"))}
    ranges = dict(s.ranges)
    fixed = {}
    links = {}
    mode = spec.get("@", "exact")
    for k, v in spec.items():
        if k.startswith("@"):
            continue
        if isinstance(v, tuple):
            ranges[k] = v
        elif isinstance(v, str):
            links[k] = v
        else:
            fixed[k] = mpf(v)
    dom = Dom(ranges=ranges, fixed=fixed)
    rng = random.Random(seed_for(run.prop, s.name, st))
    n = 1 if quick else 4
    done = 0
    one_sided = {"eccentricity": 1, "radius_ratio": 1, "exp": 1}
    for _ in range(n):
        env = dom.sample(tm.free_vars(*outs) | params, rng)
        for k, v in links.items():
            env[k] = env[v]
        val = adjoint.Val(env, spec.get("@bits", 64))
        for i, t in enumerate(outs):
            try:
                prim = adjoint.f(val(t))
            except NotImplementedError as e:
                raise Undecided(str(e))
            if isnan(prim) or mpmath.isinf(prim):
                raise Refuted(f"output {i} is {mpmath.nstr(prim, 5)} at {st}", site=t.site, sites=tm.slice_sites(t), valuation=show(env))
            with mpmath.workdps(30):
                try:
                    g, bad = adjoint.gradient(t, env, params, val)
                except adjoint.NoRule as e:
                    raise Undecided(f"derivative rule of {e}")
                for p in sorted(params) if only is None else [only]:
                    if p in skip:
                        continue
                    run.comparisons += 1
                    c4, err, left, right = adjoint.numeric(t, env, p)
                    if p in one_sided and env[p] == 0:
                        c4, err = right, abs(right) * mpf("1e-8")
                    ref_ok = not isnan(c4) and mpmath.isfinite(c4)
                    if not mpmath.isfinite(g[p]):
                        if ref_ok or mode == "finite":
                            raise Refuted(f"gradient of output {i} with respect to {p} is {mpmath.nstr(g[p], 5)} at '{st}', the derivative is {mpmath.nstr(c4, 8)}", site=(t if bad is None else bad).site, sites=tm.slice_sites(t if bad is None else bad), valuation=show(env))
                        continue
                    if mode == "finite" or not ref_ok:
                        continue
                    if abs(left - right) > mpf("1e-3") * (1 + abs(c4)) and p not in one_sided:
                        continue  # a kink
                    done += 1
                    if abs(g[p] - c4) > mpf("1e-5") * (1 + abs(c4)) + 10 * err:
                        raise Refuted(f"gradient of output {i} with respect to {p} is {mpmath.nstr(g[p], 12)} at '{st}', the derivative is {mpmath.nstr(c4, 12)}", site=t.site, sites=tm.slice_sites(t), valuation=show(env))
        run.probes += 1
    if mode != "finite" and not done:
        raise Undecided("no derivative to compare with")
    return "congruent"


def show(env):
    return {k: mpmath.nstr(mpf(x), 12) for k, x in env.items() if not k.startswith(("gl:", "u:")) and not isinstance(x, bool)}
