"""Surface maps as functions on the sphere (S06), systems of surfaces (S07), spherical-harmonic algebra (S08)."""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

import mpmath
import numpy as np

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, Undecided, expect_raise
from ..values import PyRaise
from . import disc, sph
from .orbit_model import C, V
from .starry import SDP, SPARSE, SORB, SURF, T_, YLM, mk_surface, mk_ylm, rv_of, sky, surf_env, surf_ranges, yenv, yvec

mpf = mpmath.mpf


# ------------------------------------------------------------------ S06
def S06(run: Run):
    ctx = Ctx()
    quick = run.tier == "quick"
    degs = ((0, 0), (0, 2), (1, 0), (1, 1), (2, 0), (2, 2), (3, 1)) if quick else ((0, 0), (0, 1), (0, 3), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (5, 2), (6, 0), (8, 1))
    N = 1 if quick else 3

    def field(S, theta, x, y, z):
        """specific intensity at the sky point (x, y, z)"""
        m = sky(None, S["inc"], S["obl"], theta, 0.0) @ np.array([x, y, z])
        return float(S["A"] * sph.intensity(S["Y"], *m) * disc.limbdark(S["u"])(x, y, z))

    # -- intensity(lat, lon)
    LL = {"generic": ((-1.5, 1.5), (-3, 3)), "equator": ([mpf(0)], (-3, 3)), "north": ([mpmath.pi / 2], (-3, 3)), "south": ([-mpmath.pi / 2], (-3, 3)),
          "lon=0": ((-1.5, 1.5), [mpf(0)]), "lon=pi": ((-1.5, 1.5), [+mpmath.pi]), "lon=-pi/2": ((-1.5, 1.5), [-mpmath.pi / 2]),
          "near equator": ((0.002, 0.01), (-3, 3)), "near north": ((mpmath.pi / 2 - mpf("0.01"), mpmath.pi / 2 - mpf("0.002")), (-3, 3)), "near lon=0": ((-1.5, 1.5), (0.002, 0.01))}
    # orientations a tolerance could snap to a special one
    e_ = mpf("0.005")
    NEAR = {"pole-on": {"inc": (e_ / 3, e_), "obl": (-e_, e_)}, "nearly pole-on": {"inc": (e_ / 3, e_)}, "edge-on": {"inc": (mpmath.pi / 2 - e_, mpmath.pi / 2 - e_ / 3)},
            "upright": {"obl": (e_ / 3, e_)}, "slow phase": {"theta": (e_ / 3, e_)}, "one turn": {"theta": (2 * mpmath.pi - e_, 2 * mpmath.pi - e_ / 3)}, "many turns": {"theta": (600, 900)}}

    def intensity(deg, udeg, inc, obl, where, vec=False, near=None):
        s = mk_surface(ctx, deg, udeg, inc, obl)
        lat, lon = LL[where]
        n = 2 if vec else 1
        rg = surf_ranges(deg, udeg)
        if vec:
            la, lo = ctx.arr("lat", (n,)), ctx.arr("lon", (n,))
            rg.update({f"{k}[{q}]": v for q in range(n) for k, v in (("lat", lat), ("lon", lon))})
        else:
            la, lo = ctx.V("lat"), ctx.V("lon")
            rg.update(lat=lat, lon=lon)
        g = ctx.meth(s, "intensity", la, lo)
        if len(ctx.flat(g)) != n or ctx.shape(g) not in (((n,),) if vec else ((), (1,))):
            raise Refuted(f"shape {ctx.shape(g)} for {n} point(s)")

        def point(e, q):
            a, o = (float(e[f"lat[{q}]"]), float(e[f"lon[{q}]"])) if vec else (float(e["lat"]), float(e["lon"]))
            m = np.array([math.cos(a) * math.sin(o), math.sin(a), math.cos(a) * math.cos(o)])
            S = surf_env(e, deg, udeg, inc, obl)
            return S, m, sky(None, S["inc"], S["obl"], 0.0, 0.0).T @ m

        def oracle(e):
            out = []
            for q in range(n):
                S, m, v = point(e, q)
                out.append(float(S["A"] * sph.intensity(S["Y"], *m) * (disc.limbdark(S["u"])(*v) if udeg else 1.0)))
            return out

        rg.update(NEAR.get(near, {}))
        # limb darkening is defined on the visible hemisphere
        dom = Dom(ranges=rg, constraint=(lambda e: all(point(e, q)[2][2] > 0.02 for q in range(n))) if udeg else None)
        return run.approx(ctx, g, oracle, dom, f"specific intensity at a latitude and longitude {where}", tol=1e-7, probes=N, need=1)

    for deg, udeg in degs:
        for inc in ("V", "None", "default"):
            for obl in ("V", "None"):
                run.ob(f"intensity[{deg},{udeg}|inc={inc}|obl={obl}]", lambda a=(deg, udeg, inc, obl, "generic"): intensity(*a), "A sum y Y(lat, lon) L(z)")
        for w in LL:
            if w == "generic" or (quick and deg not in (0, 2)) or (udeg and w == "lon=pi"):
                continue
            run.ob(f"intensity[{deg},{udeg}|{w}]", lambda a=(deg, udeg, "V", "V", w): intensity(*a), "A sum y Y(lat, lon) L(z)")
        for nr in NEAR:
            if "theta" not in NEAR[nr] and not (quick and deg not in (1, 2)):
                run.ob(f"intensity[{deg},{udeg}|{nr}]", lambda a=(deg, udeg, "V", "V", "generic", False, nr): intensity(*a), "A sum y Y(lat, lon) L(z)")
        run.ob(f"intensity-vec[{deg},{udeg}]", lambda a=(deg, udeg, "V", "V", "generic", True): intensity(*a), "vectorised over points")

    # -- render
    def render(deg, udeg, inc, obl, theta, res, rv=False, period=True, shear=False, near=None):
        kw = {"period": ctx.V("P")} if period else {}
        if shear:
            kw["shear"] = ctx.V("al")
        s = mk_surface(ctx, deg, udeg, inc, obl, **kw)
        k = {"theta": ctx.V("theta")} if theta == "V" else {}
        if rv:
            k["rv"] = True
        g = ctx.meth(s, "render", res=res, **k)
        if ctx.shape(g) != (res, res):
            raise Refuted(f"image of shape {ctx.shape(g)} for res={res}")

        def oracle(e):
            S = surf_env(e, deg, udeg, inc, obl)
            th = float(e["theta"]) if theta == "V" else 0.0
            out = []
            for y in np.linspace(-1, 1, res):
                for x in np.linspace(-1, 1, res):
                    r2 = x * x + y * y
                    if r2 > 1 + 1e-12:
                        out.append(math.nan)
                        continue
                    z = math.sqrt(max(0.0, 1 - r2))
                    v = field(S, th, x, y, z)
                    if rv:
                        ve = 2 * math.pi / float(e["P"]) if period else 0.0
                        pole = float((sky(None, S["inc"], S["obl"], 0.0, 0.0) @ np.array([x, y, z]))[1])
                        v *= ve * math.sin(S["inc"]) * (math.cos(S["obl"]) * x + math.sin(S["obl"]) * y) * (1 - (float(e["al"]) if shear else 0) * pole**2)
                    out.append(v)
            return out

        dom = Dom(ranges={**surf_ranges(deg, udeg), "theta": (-7, 7), "P": (0.5, 5), "al": (0.1, 0.9), **NEAR.get(near, {})})
        return run.approx(ctx, g, oracle, dom, "image", tol=1e-7, probes=N, need=1, allow_nan=True)

    for deg, udeg in degs:
        for inc, obl, th in (("V", "V", "V"), ("V", "V", "None"), ("None", "None", "V"), ("None", "V", "None"), ("default", "V", "V"), ("default", "None", "None")):
            if quick and deg > 2 and (inc, th) != ("V", "V"):
                continue
            run.ob(f"render[{deg},{udeg}|inc={inc}|obl={obl}|theta={th}]", lambda a=(deg, udeg, inc, obl, th, 5): render(*a), "pixel [i, j] is the intensity at y = grid[i], x = grid[j]; nan off the disc")
            run.ob(f"render-rv[{deg},{udeg}|inc={inc}|obl={obl}|theta={th}]", lambda a=(deg, udeg, inc, obl, th, 4, True): render(*a), "intensity times line of sight velocity")
        for nr in NEAR:
            if not (quick and deg not in (1, 2)):
                run.ob(f"render[{deg},{udeg}|{nr}]", lambda a=(deg, udeg, "V", "V", "V", 4, udeg == 1, True, False, nr): render(*a), "the image near a special orientation")
        run.ob(f"render-rv-static[{deg},{udeg}]", lambda a=(deg, udeg, "V", "V", "V", 4, True, False): render(*a), "no rotation, no velocity")
        run.ob(f"render-rv-shear[{deg},{udeg}]", lambda a=(deg, udeg, "V", "V", "V", 4, True, True, True): render(*a), "differential rotation")
    for k in SPARSE:
        run.ob(f"intensity[{k!r}]", lambda a=(k, 1, "V", "V", "generic"): intensity(*a), "a map given by some of its coefficients")
        run.ob(f"render[{k!r}]", lambda a=(k, 0, "V", "V", "V", 4): render(*a), "a map given by some of its coefficients")
    for res in (2, 3, 6, 9):
        run.ob(f"render-res[{res}]", lambda res=res: render(1, 1, "V", "V", "V", res), "any resolution")

    def grid(res):
        g = ctx.call(ctx.get("jaxoplanet.starry.utils:ortho_grid"), res)
        (lat, lon), (x, y, z) = g
        P = [(float(a), float(b)) for b in np.linspace(-1, 1, res) for a in np.linspace(-1, 1, res)]
        rg = Dom()

        def oracle(e):
            rows = [[], [], [], [], []]
            for a, b in P:
                r2 = a * a + b * b
                if r2 > 1 + 1e-12:
                    for q, v in zip(rows, (math.nan, math.nan, a, math.nan, math.nan)):
                        q.append(v)
                else:
                    zz = math.sqrt(max(0.0, 1 - r2))
                    for q, v in zip(rows, (math.asin(b), math.atan2(a, zz), a, b, zz)):
                        q.append(v)
            return [v for q in rows for v in q]

        return run.approx(ctx, [t for q in (lat, lon, x, y, z) for t in ctx.flat(q)], oracle, rg, "orthographic grid", tol=1e-7, need=1, allow_nan=True)

    for res in (2, 3, 5, 8):
        run.ob(f"ortho_grid[{res}]", lambda res=res: grid(res), "sky coordinates, latitude and longitude of the pixels")

    # -- construction
    def normalisation(deg, udeg, amp):
        k = {"amplitude": ctx.V("amp")} if amp else {}
        y = mk_ylm(ctx, deg)
        s = ctx.call(ctx.get(SURF), y=y, u=[ctx.V(f"u{i}") for i in range(udeg)], **k)
        Y = [V(f"Y[{i}]") for i in range((deg + 1) ** 2)]
        dom = Dom(ranges=surf_ranges(deg, udeg))
        d = ctx.flat(ctx.meth(ctx.attr(s, "y"), "todense"))
        A = ctx.flat(ctx.attr(s, "amplitude"))[0]
        run.equal(ctx, d[:1], [tm.ONE], dom, "normalised map has Y00 = 1")
        st = run.equal(ctx, [tm.mul(A, t) for t in d], Y, dom, "amplitude times the normalised map is the given map")
        run.equal(ctx, ctx.meth(y, "todense"), Y, dom, "the Ylm handed in is not modified")
        run.equal(ctx, [u for q in ctx.attr(s, "u") for u in ctx.flat(q)], [V(f"u{i}") for i in range(udeg)], dom, "limb darkening is kept")
        return st

    for deg in (0, 1, 2) if quick else range(5):
        for udeg in (0, 2):
            for amp in (0, 1):
                run.ob(f"normalize[{deg},{udeg}|amp={amp}]", lambda a=(deg, udeg, amp): normalisation(*a), "normalize=True keeps the map as a function")

    def renorm():
        # normalising the map of an already normalised surface changes nothing about it
        s = ctx.call(ctx.get(SURF), y=mk_ylm(ctx, 2), normalize=False, amplitude=ctx.V("amp"))
        dom = Dom(ranges={**surf_ranges(2, 0), "amp": (0.3, 3)})
        run.equal(ctx, ctx.attr(s, "amplitude"), [V("amp")], dom, "normalize=False keeps the amplitude")
        run.equal(ctx, ctx.meth(ctx.attr(s, "y"), "todense"), [V(f"Y[{i}]") for i in range(9)], dom, "normalize=False keeps the coefficients")
        d = ctx.call(ctx.get(SURF))
        run.equal(ctx, ctx.meth(ctx.attr(d, "y"), "todense"), [tm.ONE], dom, "default map is uniform")
        return run.equal(ctx, ctx.attr(d, "amplitude"), [tm.ONE], dom, "default amplitude is 1")

    run.ob("normalize-false", renorm, "normalize=False keeps amplitude and coefficients; defaults")

    def phase(period, ph):
        k = {}
        if period:
            k["period"] = ctx.V("P")
        if ph:
            k["phase"] = ctx.V("ph")
        s = ctx.call(ctx.get(SURF), y=mk_ylm(ctx, 1), normalize=False, **k)
        r = ctx.meth(s, "rotational_phase", ctx.V("t"))
        if not period:
            if r is not None:
                raise Refuted("a surface without a period has a rotational phase")
            return "holds"
        dom = Dom(ranges={"P": (0.3, 5), "ph": (-3, 3), "t": (-20, 20)})
        w = tm.mul(C(2), tm.mul(tm.PI, tm.div(V("t"), V("P")))) + (V("ph") if ph else tm.ZERO)
        run.equal(ctx, r, [w], dom, "rotational phase")
        v = ctx.meth(s, "rotational_phase", ctx.arr("t", (2,)))
        for tr in ((1e-5, 1e-2), (1e4, 1e5)):
            run.equal(ctx, r, [w], Dom(ranges={"P": (0.3, 5), "ph": (-1e-2, 1e-2), "t": tr}), "rotational phase near the origin of time and far from it")
            run.equal(ctx, r, [w], Dom(ranges={"P": (100, 1000), "ph": (-1e2, 1e2), "t": tr}), "rotational phase of a slow rotator")
        return run.equal(ctx, v, [tm.mul(C(2), tm.mul(tm.PI, tm.div(V(f"t[{q}]"), V("P")))) + (V("ph") if ph else tm.ZERO) for q in range(2)], Dom(ranges={"P": (0.3, 5), "ph": (-3, 3), "t[*": (-20, 20)}), "vectorised over time")

    for p in (0, 1):
        for ph in (0, 1):
            run.ob(f"rotational_phase[period={p},phase={ph}]", lambda a=(p, ph): phase(*a), "2 pi t / P + phase, None when not rotating")

    def attrs():
        s = mk_surface(ctx, 2, 3, "None", "None", period=ctx.V("P"), radius=ctx.V("R"))
        dom = Dom(ranges={"P": (0.3, 5), "R": (0.3, 5)})
        run.equal(ctx, ctx.attr(s, "inc"), [tm.ZERO], dom, "inc None is 0 (seen from the pole)")
        run.equal(ctx, ctx.attr(s, "obl"), [tm.ZERO], dom, "obl None is 0")
        run.equal(ctx, ctx.attr(s, "veq"), [tm.mul(C(2), tm.mul(tm.PI, tm.div(V("R"), V("P"))))], dom, "equatorial velocity")
        for n, w in (("udeg", 3), ("ydeg", 2), ("deg", 5)):
            if ctx.it.models.np.int_(ctx.attr(s, n)) != w:
                raise Refuted(f"{n} is {ctx.attr(s, n)}, expected {w}")
        s = mk_surface(ctx, 1, 0)
        run.equal(ctx, ctx.attr(s, "inc"), [V("inc")], Dom(), "inc")
        run.equal(ctx, ctx.attr(s, "obl"), [V("obl")], Dom(), "obl")
        if ctx.attr(s, "veq") is not None:
            raise Refuted("a surface that does not rotate has an equatorial velocity")
        d = ctx.call(ctx.get(SURF))
        return run.equal(ctx, ctx.attr(d, "inc"), [tm.div(tm.PI, C(2))], Dom(), "default inclination is edge-on")

    run.ob("attributes", attrs, "inc, obl, veq, degrees")
    run.absorb(ctx)


# ------------------------------------------------------------------ S07
def S07(run: Run):
    from .starry import KEPM
    from .system import MIXES, as_list, merged, mk, phys

    ctx = Ctx("kepler")
    quick = run.tier == "quick"
    SF, SBody, Body, OB = ctx.get(SURF), ctx.get(f"{SORB}:SurfaceBody"), ctx.get(f"{KEPM}:Body"), ctx.get(f"{KEPM}:OrbitalBody")
    SS = ctx.get(f"{SORB}:SurfaceSystem")

    def surf(tag):
        return ctx.call(SF, amplitude=ctx.V("A" + tag), normalize=False)

    # how one body enters a system: returns (args, kwargs) of add_body, the pair for
    # `bodies=`, and the surface it must carry
    HOW = {
        "kw+surface": lambda o, f, g: ((), {**o.kw, "surface": f}, (ctx.call(Body, **o.kw), f), f),
        "kw": lambda o, f, g: ((), dict(o.kw), (ctx.call(Body, **o.kw), None), None),
        "body+surface": lambda o, f, g: ((ctx.call(Body, **o.kw), f), {}, (ctx.call(Body, **o.kw), f), f),
        "body": lambda o, f, g: ((ctx.call(Body, **o.kw),), {}, (ctx.call(Body, **o.kw), None), None),
        "sbody": lambda o, f, g: ((b := ctx.call(SBody, **{**o.kw, "surface": f}),), {}, (b, None), f),
        "sbody-bare": lambda o, f, g: ((b := ctx.call(SBody, **o.kw),), {}, (b, None), None),
        "sbody-override": lambda o, f, g: ((b := ctx.call(SBody, **{**o.kw, "surface": g}), f), {}, (b, f), f),
    }

    def verify(s, central, cs, orbs, want, d):
        if ctx.attr(s, "central") is not central:
            raise Refuted("the system's central body is not the one it was given")
        if ctx.attr(s, "central_surface") is not cs:
            raise Refuted("the system's central surface is not the one it was given")
        n = len(orbs)
        bodies, got = list(ctx.it.iterate(ctx.attr(s, "bodies"))), list(ctx.it.iterate(ctx.attr(s, "body_surfaces")))
        if len(bodies) != n or len(got) != n:
            raise Refuted(f"{len(bodies)} bodies and {len(got)} surfaces after adding {n} bodies")
        for i, (a, b) in enumerate(zip(got, want)):
            if (a is None) != (b is None):
                raise Refuted(f"body {i} carries {'no surface' if a is None else 'a surface'}, expected {'none' if b is None else 'the surface it was given'}")
            if a is not None:
                run.equal(ctx, ctx.attr(a, "amplitude"), ctx.flat(ctx.attr(b, "amplitude")), Dom(ranges={"A*": (0.3, 2)}), f"surface of body {i}")
        for o, b in zip(orbs, bodies):
            o.central = central
            ref = o.build(ctx)
            for nm in ("relative_position", "central_velocity"):
                for x, y in zip(as_list(ctx.meth(b, nm, ctx.Q("t", "d"))), as_list(ctx.meth(ref, nm, ctx.Q("t", "d")))):
                    run.equal(ctx, phys(ctx, x), phys(ctx, y), d, f"{nm} of a body of the system")
        if n:
            run.equal(ctx, ctx.mag(ctx.attr(s, "radius"), "R_sun"), [o.r for o in orbs], d, "radii in order")

    def chain(mix, hows, mode):
        orbs = mk(ctx, [{**c, "radius": "r"} for c in MIXES[mix][:len(hows)]])
        n = len(orbs)
        d = merged(*orbs) if n else Dom()
        d.ranges.update({"A*": (0.3, 2)})
        central = ctx.call(ctx.get(f"{KEPM}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
        cs = surf("c")
        fs, gs = [surf(str(i)) for i in range(n)], [surf(f"x{i}") for i in range(n)]
        spec = [HOW[h](o, f, g) for h, o, f, g in zip(hows, orbs, fs, gs)]
        want = [w for *_, w in spec]
        if mode == "add":
            stages = [ctx.call(SS, central, cs)]
            for a, k, _, _ in spec:
                stages.append(ctx.meth(stages[-1], "add_body", *a, **k))
            for q, s in enumerate(stages):  # every earlier system is still what it was
                verify(s, central, cs, orbs[:q], want[:q], d)
        elif mode == "bodies":
            verify(ctx.call(SS, central, cs, bodies=[p for _, _, p, _ in spec]), central, cs, orbs, want, d)
        elif mode == "orbital":
            b = [(ctx.call(OB, central, ctx.call(Body, **o.kw)), w) for o, w in zip(orbs, want)]
            verify(ctx.call(SS, central=central, central_surface=cs, bodies=iter(b) if False else tuple(b)), central, cs, orbs, want, d)
        else:  # some in the constructor, the rest added
            k = n // 2
            s = ctx.call(SS, central, cs, bodies=[p for _, _, p, _ in spec[:k]])
            for a, kw, _, _ in spec[k:]:
                s = ctx.meth(s, "add_body", *a, **kw)
            verify(s, central, cs, orbs, want, d)
        return "congruent"

    hs = list(HOW)
    combos = [(h,) for h in hs] + [(a, b) for a in hs for b in hs] + [(hs[i], hs[(i + 2) % 7], hs[(i + 5) % 7]) for i in range(7)]
    for i, hows in enumerate(combos):
        for mix in ("same3", "angles") if len(hows) == 3 else ("ecc+circ", "same"):
            for mode in ("add", "bodies", "orbital", "both"):
                if quick and len(hows) == 2 and (i + len(mix) + len(mode)) % 3:
                    continue
                run.ob(f"chain[{mix}|{'+'.join(hows)}|{mode}]", lambda a=(mix, hows, mode): chain(*a), "bodies, surfaces, order, central and central surface")

    def orbital_add():
        orbs = mk(ctx, [{**c, "radius": "r"} for c in MIXES["same"]])
        d = merged(*orbs)
        central = ctx.call(ctx.get(f"{KEPM}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
        cs, f = surf("c"), surf("0")
        s = ctx.call(SS, central, cs)
        s = ctx.meth(s, "add_body", ctx.call(OB, central, ctx.call(Body, **orbs[0].kw)), f)
        s = ctx.meth(s, "add_body", ctx.call(OB, central, ctx.call(Body, **orbs[1].kw)))
        verify(s, central, cs, orbs, [f, None], d)
        return "congruent"

    run.ob("add-orbital-body", orbital_add, "a body already in orbit can be added")

    def defaults():
        s = ctx.call(SS)
        dom = Dom(ranges={"A*": (0.3, 2)})
        cs = ctx.attr(s, "central_surface")
        run.equal(ctx, ctx.meth(ctx.attr(cs, "y"), "todense"), [tm.ONE], dom, "default central surface is uniform")
        run.equal(ctx, ctx.attr(cs, "amplitude"), [tm.ONE], dom, "default central surface has amplitude 1")
        c = ctx.attr(s, "central")
        for n in ("mass", "radius"):
            if ctx.attr(c, n) is None:
                raise Refuted(f"default central body without {n}")
        if len(list(ctx.it.iterate(ctx.attr(s, "bodies")))) or len(list(ctx.it.iterate(ctx.attr(s, "body_surfaces")))):
            raise Refuted("a new system has bodies")
        central = ctx.call(ctx.get(f"{KEPM}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
        s = ctx.call(SS, central)
        if ctx.attr(s, "central") is not central or ctx.attr(s, "central_surface") is None:
            raise Refuted("central given without a surface")
        f = surf("c")
        s = ctx.call(SS, central_surface=f)
        if ctx.attr(s, "central_surface") is not f:
            raise Refuted("central surface given without a central body is lost")
        return "holds"

    run.ob("defaults", defaults, "default central body and surface")

    # mapping over surfaces
    def smap(pattern, in_axes, out_axes):
        orbs = mk(ctx, [{"radius": "r"} for _ in pattern])
        central = ctx.call(ctx.get(f"{KEPM}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
        fs = [None if p == 0 else (surf(str(i)) if p == 1 else ctx.call(SF, amplitude=ctx.V(f"A{i}"), normalize=False, u=[ctx.V(f"u{i}")], period=ctx.V(f"P{i}"))) for i, p in enumerate(pattern)]
        s = ctx.call(SS, central, surf("c"), bodies=[(ctx.call(Body, **o.kw), f) for o, f in zip(orbs, fs)])
        n = len(pattern)
        f = ctx.client("""
            def f(surface, x, y):
                a = 3.5 if surface is None else surface.amplitude + 10 * len(surface.u)
                return a * x.sum() + y.sum(), a * x
            """)["f"]
        how = {"in_axes": in_axes, "out_axes": out_axes if out_axes == 0 else (0, out_axes)}
        if in_axes == "default":
            in_axes, out_axes, how = 0, 0, {}
        ax = in_axes if isinstance(in_axes, tuple) else (in_axes, in_axes)
        args = [ctx.arr(f"arg{k}", (2,) if a is None else ((n, 2) if a == 0 else (2, n))) for k, a in enumerate(ax)]
        r0, r1 = ctx.call(ctx.meth(s, "surface_vmap", f, **how), *args)
        A = [tm.lift(C(7) / C(2)) if p == 0 else V(f"A{i}") + C(10 if p == 2 else 0) for i, p in enumerate(pattern)]

        def pick(a, i, j):
            return args[a].d[j] if ax[a] is None else (args[a].d[i, j] if ax[a] == 0 else args[a].d[j, i])

        w0 = [A[i] * (pick(0, i, 0) + pick(0, i, 1)) + pick(1, i, 0) + pick(1, i, 1) for i in range(n)]
        d = Dom(ranges={"A*": (0.3, 2)}, default=(-1, 1))
        run.equal(ctx, r0, w0, d, "reduction over each surface")
        w1 = np.array([[A[i] * pick(0, i, j) for j in range(2)] for i in range(n)], dtype=object)
        w1 = w1.T if out_axes else w1
        if ctx.shape(r1) != w1.shape:
            raise Refuted(f"output shape {ctx.shape(r1)}, expected {w1.shape}")
        return run.equal(ctx, r1, list(w1.reshape(-1)), d, "array output for each surface")

    for pat in ((1, 1), (1, 0), (0, 1), (0, 0), (1, 2), (2, 2, 2), (0, 1, 2), (1, 0, 1), (2, 0, 0), (1,), (0,)):
        for ia, oa in ((0, 0), ("default", "default"), (None, 0), ((0, None), 0), ((1, 0), 0), (0, 1), ((None, 1), 1)):
            run.ob(f"surface_vmap[{''.join(map(str, pat))}|in={ia}|out={oa}]", lambda a=(pat, ia, oa): smap(*a), "maps over the surfaces, None where there is none")
    run.absorb(ctx)


# ------------------------------------------------------------------ S08
def S08(run: Run):
    ctx = Ctx()
    quick = run.tier == "quick"
    Y = ctx.get(YLM)
    LM = sph.lm
    dom = Dom(ranges={"Y[*": (-1, 1), "Z[*": (-1, 1)}, default=(0.3, 1.5))

    def key(k):
        return tuple(ctx.it.models.np.int_(i) for i in k)

    def dense(y):
        return ctx.flat(ctx.meth(y, "todense"))

    def ylm(keys, name):
        return ctx.call(Y, {k: ctx.V(f"{name}[{k[0]},{k[1]}]") for k in keys})

    def function(ts, P):
        """values of the map with these coefficients at the points"""
        n = math.isqrt(len(ts)) - 1
        if (n + 1) ** 2 != len(ts):
            raise Refuted(f"dense vector of length {len(ts)}")
        out = []
        B = np.stack([sph.evaluate(l, m, *P) for l, m in LM(n)])
        for q in range(B.shape[1]):
            r = tm.ZERO
            for t, b in zip(ts, B[:, q]):
                r = r + t * tm.lift(tm.const(float(b)))
            out.append(r)
        return out

    def index():
        n = 0
        for l in range(12 if quick else 40):
            for m in range(-l, l + 1):
                if ctx.it.models.np.int_(ctx.meth(Y, "index", l, m)) != n:
                    raise Refuted(f"index({l}, {m}) is not {n}")
                n += 1
        return "holds"

    run.ob("index", index, "n = l^2 + l + m")

    def roundtrip(deg):
        a = yvec(ctx, deg)
        n = (deg + 1) ** 2
        y = ctx.meth(Y, "from_dense", a, normalize=False)
        run.equal(ctx, dense(y), ctx.flat(a), dom, "todense(from_dense(y)) = y")
        run.equal(ctx, ctx.meth(ctx.meth(y, "tosparse"), "todense"), ctx.flat(a), dom, "tosparse")
        if ctx.it.models.np.int_(ctx.attr(y, "deg")) != deg or tuple(ctx.attr(y, "shape")) != (n,):
            raise Refuted(f"degree {ctx.attr(y, 'deg')}, shape {ctx.attr(y, 'shape')} for degree {deg}")
        if [key(k) for k in ctx.it.iterate(ctx.attr(y, "indices"))] != LM(deg):
            raise Refuted("indices are not the (l, m) in order")
        if bool(ctx.attr(y, "diagonal")) != (deg == 0):
            raise Refuted("diagonal")
        for q, k in enumerate(LM(deg)):
            run.equal(ctx, ctx.it.models.getitem(y, k), [ctx.flat(a)[q]], dom, f"y[{k}]")
        d = dom if False else Dom(ranges={"Y[0]": (0.4, 2), **{f"Y[{i}]": (-1, 1) for i in range(1, n)}})
        want = [t / V("Y[0]") for t in ctx.flat(a)]
        run.equal(ctx, dense(ctx.meth(y, "normalize")), want, d, "normalize divides by Y00")
        run.equal(ctx, dense(ctx.meth(Y, "from_dense", a)), want, d, "from_dense normalizes by default")
        return run.equal(ctx, dense(y), ctx.flat(a), dom, "normalize does not modify the map")

    for deg in range(5) if quick else range(9):
        run.ob(f"roundtrip[{deg}]", lambda deg=deg: roundtrip(deg), "dense, sparse and dictionary forms agree")

    SPARSE = [((0, 0),), ((2, 1),), ((0, 0), (3, -3)), ((2, 0), (1, 0)), ((4, 4), (0, 0), (2, -1)), ((3, 0), (0, 0), (1, 0)), ((1, -1), (1, 1)), ((5, -2),)]

    def sparse(keys):
        y = ylm(keys, "Y")
        deg = max(l for l, _ in keys)
        want = [V(f"Y[{l},{m}]") if (l, m) in keys else tm.ZERO for l, m in LM(deg)]
        run.equal(ctx, dense(y), want, dom, "dense form of a sparse map")
        run.equal(ctx, ctx.meth(ctx.meth(y, "tosparse"), "todense"), want, dom, "sparse form")
        if ctx.it.models.np.int_(ctx.attr(y, "deg")) != deg:
            raise Refuted(f"degree {ctx.attr(y, 'deg')}, expected {deg}")
        if bool(ctx.attr(y, "diagonal")) != all(m == 0 for _, m in keys):
            raise Refuted(f"diagonal is {ctx.attr(y, 'diagonal')} for orders {[m for _, m in keys]}")
        for k in LM(deg):
            run.equal(ctx, ctx.it.models.getitem(y, k), [want[LM(deg).index(k)]], dom, f"y[{k}]")
        for s, what in ((ctx.V("s"), "scaled"), (ctx.num(3, "py"), "scaled by a number")):
            t = V("s") if what == "scaled" else C(3)
            run.equal(ctx, dense(ctx.it.models.binop("Mult", y, s)), [w * t for w in want], dom, what)
            run.equal(ctx, dense(ctx.it.models.binop("Mult", s, y)), [w * t for w in want], dom, what + " from the left")
        return "proved"

    for k in SPARSE:
        run.ob(f"sparse[{k}]", lambda k=k: sparse(k), "missing coefficients are zero")

    def default():
        y = ctx.call(Y)
        run.equal(ctx, dense(y), [tm.ONE], dom, "default map")
        return "proved"

    run.ob("default", default, "the default map is uniform")

    def product(ka, kb):
        a, b = ylm(ka, "Y"), ylm(kb, "Z")
        r = dense(ctx.it.models.binop("Mult", a, b))
        n = max(l for l, _ in ka) + max(l for l, _ in kb)
        P = sph.points(max(8, 2 * (n + 1) ** 2))
        da, db = dense(a), dense(b)

        def oracle(e):
            va, vb = tm.Val(e), tm.Val(e)
            fa = sum(float(va(t)) * sph.evaluate(l, m, *P) for t, (l, m) in zip(da, LM(math.isqrt(len(da)) - 1)))
            fb = sum(float(vb(t)) * sph.evaluate(l, m, *P) for t, (l, m) in zip(db, LM(math.isqrt(len(db)) - 1)))
            B = np.stack([sph.evaluate(l, m, *P) for l, m in LM(math.isqrt(len(r)) - 1)]).T
            c, *_ = np.linalg.lstsq(B, fa * fb, rcond=None)
            if np.abs(B @ c - fa * fb).max() > 1e-9:
                raise Refuted(f"the product of degree {math.isqrt(len(r)) - 1} cannot represent the product of the two functions")
            return list(c)

        rg = {f"Y[{l},{m}]": (-1, 1) for l, m in ka} | {f"Z[{l},{m}]": (-1, 1) for l, m in kb}
        return run.approx(ctx, r, oracle, Dom(ranges=rg), "coefficients of the product of two maps", tol=1e-8, probes=2 if quick else 4, need=1)

    deg = [LM(d) for d in range(5)]
    prods = [(deg[0], deg[0]), (deg[0], deg[2]), (deg[1], deg[1]), (deg[2], deg[1]), (deg[1], deg[3]), (((2, 1),), ((2, -1),)), (((1, 1),), ((1, 1),)), (((3, -2), (0, 0)), ((2, 2), (1, 0)))]
    prods += [(((l1, m1),), ((l2, m2),)) for l1, m1 in LM(2) for l2, m2 in LM(1)] if quick else \
        [(deg[a], deg[b]) for a in range(5) for b in range(5) if a + b <= 6] + [(((l1, m1),), ((l2, m2),)) for l1, m1 in LM(3) for l2, m2 in LM(3)]
    for ka, kb in prods:
        nm = lambda k: f"deg{math.isqrt(len(k)) - 1}" if len(k) in (1, 4, 9, 16, 25) and list(k) == LM(math.isqrt(len(k)) - 1) else str(k)  # noqa: E731
        run.ob(f"product[{nm(ka)}|{nm(kb)}]", lambda a=(ka, kb): product(*a), "the product map is the product of the functions")

    # coupling coefficients
    def racah(j1, j2, j3, m1, m2, m3):
        if m1 + m2 + m3 or not abs(j2 - j3) <= j1 <= j2 + j3 or any(abs(m) > j for j, m in ((j1, m1), (j2, m2), (j3, m3))):
            return 0.0
        F = math.factorial
        t = sum(Fraction((-1) ** k, F(k) * F(j1 + j2 - j3 - k) * F(j1 - m1 - k) * F(j2 + m2 - k) * F(j3 - j2 + m1 + k) * F(j3 - j1 - m2 + k))
                for k in range(max(0, j2 - j3 - m1, j1 - j3 + m2), min(j1 + j2 - j3, j1 - m1, j2 + m2) + 1))
        d = Fraction(F(j1 + j2 - j3) * F(j1 - j2 + j3) * F(-j1 + j2 + j3), F(j1 + j2 + j3 + 1))
        for j, m in ((j1, m1), (j2, m2), (j3, m3)):
            d *= F(j + m) * F(j - m)
        return (-1) ** (j1 - j2 - m3) * math.copysign(math.sqrt(t * t * d), t)

    W = "jaxoplanet.starry.core.wigner3j"

    def calculator(j2, j3):
        calc = ctx.call(ctx.get(f"{W}:Wigner3jCalculator"), 6, 6)
        got, want = [], []
        for m2 in range(-j2, j2 + 1):
            for m3 in range(-j3, j3 + 1):
                r = ctx.flat(ctx.meth(calc, "calculate", j2, j3, m2, m3))
                lo, hi = max(abs(j2 - j3), abs(m2 + m3)), j2 + j3
                got += r[lo:hi + 1]
                want += [racah(j, j2, j3, -m2 - m3, m2, m3) for j in range(lo, hi + 1)]
        return run.approx(ctx, got, lambda e: want, Dom(), "3j symbols by recurrence", tol=1e-11, probes=1, need=1)

    def symbol(name, n, sel):
        f = ctx.get(f"{W}:{name}")
        got, want = [], []
        for j1, j2, j3 in sel:
            for m1 in range(-j1 - 1, j1 + 2):
                for m2 in range(-j2, j2 + 1):
                    for m3 in {-m1 - m2, m1 + m2, 0}:
                        if abs(m3) > j3 + 1:
                            continue
                        a = (j1, m1, j2, m2, j3, m3) if name == "clebsch_gordan" else (j1, j2, j3, m1, m2, m3)
                        got += ctx.flat(ctx.call(f, *a))
                        want.append((-1) ** (j1 - j2 + m3) * math.sqrt(2 * j3 + 1) * racah(j1, j2, j3, m1, m2, -m3) if name == "clebsch_gordan" else racah(j1, j2, j3, m1, m2, m3))
        return run.approx(ctx, got, lambda e: want, Dom(), name, tol=1e-11, probes=1, need=1)

    for j2 in range(5 if quick else 7):
        for j3 in range(5 if quick else 7):
            run.ob(f"wigner3j-recurrence[{j2}|{j3}]", lambda a=(j2, j3): calculator(*a), "the recurrence gives the 3j symbols of all orders and third degrees")
    for name in ("Wigner3j", "clebsch_gordan"):
        for n in range(3 if quick else 5):
            sel = [(a, b, c) for a in range(n + 1) for b in range(n + 1) for c in range(n + 1) if max(a, b, c) == n]
            run.ob(f"{name}[{n}]", lambda a=(name, n, sel): symbol(*a), "coupling coefficients, zero where the selection rules say so")

    def limbdark(n):
        u = [mpf(v) for v in (0.4, 0.25, -0.1, 0.07, 0.05, 0.03)[:n]]
        y = ctx.meth(Y, "from_limb_darkening", tuple(T_(tm.const(float(v)), "py") for v in u))
        d = dense(y)
        P = sph.points(60)
        P = P[:, P[2] > 0.05]
        L = disc.limbdark([float(v) for v in u])
        nrm = disc.integrate(L, 0.0, 0.0)

        def oracle(e):
            return list(L(*P) / nrm)

        got = [tm.mul(t, C(1)) for t in function(d, P)]
        k = 2 / math.sqrt(math.pi)
        return run.approx(ctx, [tm.mul(t, tm.const(k)) for t in got], oracle, Dom(), "limb darkened disc as a map", tol=1e-7, need=1)

    for n in range(1, 4) if quick else range(1, 7):
        run.ob(f"from_limb_darkening[{n}]", lambda n=n: limbdark(n), "the map is L(z) / integral of L over the disc, on the visible hemisphere")

    # spots
    def spot(ydeg, npts, fac, lat, lon, default=False):
        kw = {} if default else {"npts": npts, "spot_fac": fac}
        f = ctx.call(ctx.get("jaxoplanet.starry.ylm:ylm_spot"), ydeg, **kw)
        k = {}
        if lat is not None:
            k["lat"] = ctx.V("lat")
        if lon is not None:
            k["lon"] = ctx.V("lon")
        d = dense(ctx.call(f, ctx.V("c"), ctx.V("rad"), **k))
        if len(d) != (ydeg + 1) ** 2:
            raise Refuted(f"{len(d)} coefficients for degree {ydeg}")
        pts = 300 if default else npts
        fc = 300 if default else fac

        def oracle(e):
            th = np.linspace(0, np.pi, pts)
            B = np.stack([math.sqrt(2 * l + 1) * np.polynomial.legendre.Legendre.basis(l)(np.cos(th)) for l in range(ydeg + 1)], 1)
            z = fc * (th - float(e["rad"]))
            b = np.where(z > 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z)))) - 1
            s = np.linalg.solve(B.T @ B + 1e-9 * np.eye(ydeg + 1), B.T @ b)
            l = np.arange(ydeg + 1)
            s = s * np.exp(-0.5 * l * (l + 1) * (0.5 if ydeg < 4 else 2 / ydeg) ** 2) * float(e["c"])
            # zonal map about the direction of (lat, lon): addition theorem
            la = float(e["lat"]) if lat is not None else 0.0
            lo = float(e["lon"]) if lon is not None else 0.0
            v = (math.cos(la) * math.sin(lo), math.sin(la), math.cos(la) * math.cos(lo))
            out = []
            for l_, m_ in LM(ydeg):
                zon = sph.evaluate(l_, 0, 0.0, 0.0, 1.0)
                out.append(float(s[l_] * sph.evaluate(l_, m_, *v) / zon) + (1.0 if l_ == 0 else 0.0))
            return out

        R = {"generic": (-1.4, 1.4), None: (0, 0), "pole": [mpmath.pi / 2], "south": [-mpmath.pi / 2], "far": (-3, 3), "back": [+mpmath.pi],
             "near pole": (mpmath.pi / 2 - mpf("0.01"), mpmath.pi / 2 - mpf("0.002")), "near 0": (0.002, 0.01)}
        R.update(tiny=(-1.4, 1.4), huge=(-1.4, 1.4), faint=(-1.4, 1.4), bright=(-1.4, 1.4))
        rg = {"c": {"faint": (0.001, 0.01), "bright": (-3, -1)}.get(lat, (0.1, 1)), "rad": {"tiny": (0.01, 0.05), "huge": (1.5, 3.0)}.get(lat, (0.15, 0.9)), "lat": R[lat], "lon": R[lon]}
        return run.approx(ctx, d, oracle, Dom(ranges=rg), f"spot at {lat}, {lon}", tol=1e-5, probes=1 if quick else 4, need=1)

    for ydeg in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6, 8, 10):
        for lat, lon in ((None, None), ("generic", "far"), ("generic", None), (None, "far"), ("pole", "far"), ("south", None), (None, "back"), ("near pole", "near 0"), ("near 0", "near 0"), ("tiny", "far"), ("huge", "far"), ("faint", "far"), ("bright", "far")):
            run.ob(f"spot[{ydeg}|{lat}|{lon}]", lambda a=(ydeg, 30, 20, lat, lon): spot(*a), "zonal spot profile placed at the latitude and longitude")
    run.ob("spot-default", lambda: spot(3, 300, 300, "generic", "far", True), "default sampling")

    def uniform(ydeg):
        f = ctx.call(ctx.get("jaxoplanet.starry.ylm:ylm_spot"), ydeg, npts=30, spot_fac=20)
        d = dense(ctx.call(f, T_(tm.ZERO), ctx.V("rad"), lat=ctx.V("lat"), lon=ctx.V("lon")))
        return run.equal(ctx, d, [tm.ONE] + [tm.ZERO] * (len(d) - 1), Dom(ranges={"rad": (0.1, 1), "lat": (-1.4, 1.4), "lon": (-3, 3)}), "spot without contrast")

    for ydeg in (1, 3):
        run.ob(f"spot-uniform[{ydeg}]", lambda ydeg=ydeg: uniform(ydeg), "a spot without contrast leaves the map uniform")
    run.absorb(ctx)
