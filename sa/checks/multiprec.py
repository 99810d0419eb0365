"""The arbitrary precision twins of the map integrals, and the code paths that use them.

mpmath is modelled (sa/stubs/mpmath.py) as exact arithmetic with complex numbers and
matrices; the Python branches of these modules on values (`if abs(b) >= r + 1`,
`if theta == 0`) are decided per stratum: a branch is taken when its condition has the
same truth value in all of the stratum's samples, otherwise the obligation is undecided."""
from __future__ import annotations

import math
import random
from fractions import Fraction as Fr

import mpmath
import numpy as np

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run
from ..values import PyRaise, vecarr
from . import disc, sph
from .starry import MPB, PI, SB, SDP, SLC, T_, V, Placed, close, disc_moment, exps, flux_of, matrix, mk_surface, numbers, root, rv_of, sky, surf_env, surf_ranges, yenv, ylm_column, yvec

mpf = mpmath.mpf


def holds(t, v):
    """truth of a condition; numbers that agree up to rounding are equal"""
    if t.op == "not":
        return not holds(t.args[0], v)
    if t.op == "and":
        return all(holds(a, v) for a in t.args)
    if t.op == "or":
        return any(holds(a, v) for a in t.args)
    if t.op in ("lt", "le", "eq"):
        a, b = v(t.args[0]), v(t.args[1])
        if t.op != "eq" and tm.isc(t.args[1]) and 0 < b < mpf("1e-18"):
            return bool(a < mpf("1e-18"))  # a filter of rounding errors
        same = abs(a - b) <= mpf("1e-32") * (1 + abs(a))
        return same if t.op == "eq" else (t.op == "le") if same else bool(a < b)
    return bool(v(t))


def stratify(ctx, dom, n=5):
    """branches on symbolic values are decided by agreement over the stratum"""
    cache = {}

    def oracle(t):
        if t.id in cache:
            return cache[t.id]
        names = tm.free_vars(t) | {k for k in dom.ranges if not k.endswith("*")}
        rng = random.Random(5)
        vals = set()
        for _ in range(n):
            vals.add(holds(t, tm.Val(dom.sample(names, rng))))
        cache[t.id] = r = vals.pop() if len(vals) == 1 else None
        return r

    ctx.it.branch_oracle = oracle


def M01(run: Run):
    quick = run.tier == "quick"
    ctx = Ctx()

    def to_np(ctx, x):
        return ctx.call(ctx.get(f"{MPB}.utils:to_numpy"), x)

    def mpm(ctx, arr):
        return ctx.call(ctx.get(f"{MPB}.utils:to_mp"), arr)

    # ---- tables
    def a1(deg):
        N = (deg + 1) ** 2
        M = matrix(ctx, ctx.call(ctx.it.models.np.funcs["reshape"], to_np(ctx, ctx.call(ctx.get(f"{MPB}.basis:A1"), deg)), (N, N)), N, N)
        for n, (l, m) in enumerate(sph.lm(deg)):
            col = ylm_column(l, m)
            for q, e in enumerate(exps(deg)):
                close(M[q][n], col.get(e, mpf(0)), f"A1[{q},{n}] (x^{e[0]} y^{e[1]} z^{e[2]} in Y_{{{l},{m}}})", root(ctx, f"{MPB}.basis:Y"))
                run.comparisons += 1
        return "congruent"

    def a2(deg):
        N = (deg + 1) ** 2
        A2 = mpmath.matrix(matrix(ctx, ctx.call(ctx.it.models.np.funcs["reshape"], to_np(ctx, ctx.call(ctx.get(f"{MPB}.basis:A2"), deg)), (N, N)), N, N))
        core = mpmath.matrix(matrix(ctx, ctx.call(ctx.get(f"{SB}:A2_inv"), deg), N, N))
        own = mpmath.matrix(matrix(ctx, ctx.call(ctx.it.models.np.funcs["reshape"], to_np(ctx, ctx.call(ctx.get(f"{MPB}.basis:A2_inv"), deg)), (N, N)), N, N))
        for nm, inv in (("core A2_inv", core), ("A2_inv", own)):
            P = A2 * inv
            for i in range(N):
                for j in range(N):
                    close(P[i, j], mpf(i == j), f"(A2 @ {nm})[{i},{j}]", root(ctx, f"{MPB}.basis:_A2"), tol=1e-9)
                    run.comparisons += 1
        return "congruent"

    for d in (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4, 5):
        run.ob(f"A1[{d}]", lambda d=d: a1(d), "columns are the real spherical harmonics of an independent definition")
        run.ob(f"A2[{d}]", lambda d=d: a2(d), "the inverse of the Green's basis of the fast implementation")

    def rt(deg):
        f = numbers(ctx, to_np(ctx, ctx.call(ctx.get(f"{MPB}.solution:rT"), deg)))
        for n, e in enumerate(exps(deg)):
            close(f[n], disc_moment(*e), f"rT[{n}] = disc integral of x^{e[0]} y^{e[1]} z^{e[2]}", root(ctx, f"{MPB}.solution:rT"))
            run.comparisons += 1
        return "congruent" if len(f) == (deg + 1) ** 2 else close(len(f), (deg + 1) ** 2, "length of rT")

    for d in (0, 1, 2, 3, 5, 8) if quick else range(13):
        run.ob(f"rT[{d}]", lambda d=d: rt(d), "exact moments of the unit disc")

    # ---- occultation integrals
    from .lightcurves import STRATA

    def br(stratum):
        b, r = STRATA[stratum]
        return {"b": b, "r": r}

    OCC = ("inside", "ingress", "overlap-center", "overlap-large", "b=r-inside", "b=r-edge", "b=1", "r=1")

    def st(deg, stratum):
        c = Ctx()
        dom = Dom(ranges=br(stratum))
        stratify(c, dom)
        A2 = np.array([[float(v) for v in r] for r in matrix(c, c.call(c.get(f"{SB}:A2_inv"), deg), (deg + 1) ** 2, (deg + 1) ** 2)])
        g = to_np(c, c.call(c.get(f"{MPB}.solution:sT"), deg, c.V("b", kind="py"), c.V("r", kind="py")))
        ex = exps(deg)

        def oracle(env):
            b, r = float(env["b"]), float(env["r"])
            return list(np.array([disc.integrate(disc.poly(*e), b, r) for e in ex]) @ A2)

        res = run.approx(c, g, oracle, dom, f"s_n = integral of the n-th Green basis function, {stratum}", tol=5e-5, need=1, probes=2 if quick else 5)
        run.absorb(c)
        return res

    for d in (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4, 5):
        for s in OCC:
            if quick and d in (0, 3) and s not in ("inside", "ingress"):
                continue
            run.ob(f"sT[{d}|{s}]", lambda d=d, s=s: st(d, s), "Green's theorem boundary integrals = surface integrals")

    def ld(deg, stratum):
        c = Ctx()
        dom = Dom(ranges=br(stratum))
        stratify(c, dom)
        g = to_np(c, c.call(c.get(f"{MPB}.solution:solution_limb_dark"), deg, c.V("b", kind="py"), c.V("r", kind="py")))

        def term(n):
            return (lambda x, y, z: 1.0 + 0 * z) if n == 0 else (lambda x, y, z: z) if n == 1 else (lambda x, y, z: (n + 2) * z**n - n * z ** (n - 2))

        def oracle(env):
            return [disc.integrate(term(n), float(env["b"]), float(env["r"])) for n in range(deg + 1)]

        res = run.approx(c, g, oracle, dom, f"s_n = integral of the n-th limb darkening Green basis function, {stratum}", tol=5e-5, need=1, probes=2 if quick else 5)
        run.absorb(c)
        return res

    for d in (0, 1, 2, 5) if quick else (0, 1, 2, 3, 4, 5, 8):
        for s in ("inside", "ingress", "overlap-center", "overlap-large", "b=r-inside", "b=1"):
            run.ob(f"limb-dark[{d}|{s}]", lambda d=d, s=s: ld(d, s), "limb darkening integrals over the visible disc")

    # ---- rotations
    AX = {"generic": ("ax", "ay", "az"), "x": (1, 0, 0), "-x": (-1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1), "-z": (0, 0, -1), "long-z": (0, 0, 2.5), "xy": ("ax", "ay", 0)}
    TH = {"generic": (0.3, 2.8), "negative": (-2.8, -0.3), "zero": [mpf(0)], "pi/2": [mpmath.pi / 2, -mpmath.pi / 2]}

    def rdom(deg, th, **kw):
        rg = {f"Y[{i}]": (-1, 1) for i in range((deg + 1) ** 2)}
        rg.update(ax=(0.2, 0.9), ay=(-0.9, -0.2), az=(0.2, 0.9), th=TH[th], **kw)
        return Dom(ranges=rg)

    def rot(deg, ax, th):
        c = Ctx()
        dom = rdom(deg, th)
        stratify(c, dom)
        a = AX[ax]
        u = tuple(c.V(q, kind="py") if isinstance(q, str) else c.num(q) for q in a)
        f = c.call(c.get(f"{MPB}.rotation:dot_rotation_matrix"), deg, u, c.V("th", kind="py"))
        g = to_np(c, c.call(f, mpm(c, yvec(c, deg))))

        def oracle(env):
            S = sph.axis_rotation([float(env[q]) if isinstance(q, str) else float(q) for q in a], float(env["th"]))
            return list(sph.rotated_coef(yenv(env, deg), S))

        res = run.approx(c, g, oracle, dom, f"coefficients of the map rotated about {ax} by {th}", tol=1e-7, probes=2 if quick else 5, need=1)
        run.absorb(c)
        return res

    for d in (0, 1, 2) if quick else (0, 1, 2, 3):
        for ax in AX:
            for th in TH:
                if quick and d != 1 and (ax not in ("generic", "z") or th not in ("generic", "zero")):
                    continue
                run.ob(f"dot_rotation_matrix[{d}|{ax}|{th}]", lambda d=d, ax=ax, th=th: rot(d, ax, th), "I'(v) = I(S v) with S the rotation about the axis")

    def rz(deg):
        c = Ctx()
        dom = rdom(deg, "generic")
        g = to_np(c, c.call(c.call(c.get(f"{MPB}.rotation:dot_rz"), deg, c.V("th", kind="py")), mpm(c, yvec(c, deg))))
        res = run.approx(c, g, lambda env: list(sph.rotated_coef(yenv(env, deg), sph.axis_rotation([0, 0, 1], -float(env["th"])))), dom, "rotation about z (by the opposite angle)", tol=1e-8, need=1)
        run.absorb(c)
        return res

    for d in (0, 1, 2, 4) if quick else range(7):
        run.ob(f"dot_rz[{d}]", lambda d=d: rz(d), "closed form of the rotation about z")

    STR = {"generic": {}, "obl=0": {"obl": [mpf(0)]}, "theta=0": {"theta": [mpf(0)]}, "theta_z=0": {"theta_z": [mpf(0)]}, "inc=pi/2": {"inc": [mpmath.pi / 2]}}

    def project(deg, s):
        c = Ctx()
        rg = {"inc": (0.2, 1.4), "obl": (0.2, 2.8), "theta": (0.3, 2.8), "theta_z": (-2.8, -0.3), **STR[s]}
        dom = rdom(deg, "generic", **rg)
        stratify(c, dom)
        g = to_np(c, c.attr(c.call(c.get(f"{MPB}.rotation:left_project"), deg, *[c.V(n, kind="py") for n in ("inc", "obl", "theta", "theta_z")], mpm(c, yvec(c, deg))), "T"))
        res = run.approx(c, g, lambda env: list(sph.rotated_coef(yenv(env, deg), sky(None, *[float(env[n]) for n in ("inc", "obl", "theta", "theta_z")]))), dom,
                         f"left_project, {s}", tol=1e-6, need=1, probes=2 if quick else 5)
        run.absorb(c)
        return res

    for d in (1, 2) if quick else (0, 1, 2, 3):
        for s in STR:
            if quick and d == 2 and s != "generic":
                continue
            run.ob(f"left_project[{d}|{s}]", lambda d=d, s=s: project(d, s), "map seen on the sky at inclination, obliquity, phase")

    # ---- flux
    FST = dict(STRATA)

    def fcase(deg, udeg, stratum, rotate=True, phi=True, sign=1):
        c = Ctx()
        rg = surf_ranges(deg, udeg)
        rg.update(br(stratum), phi=(0.3, 2.8), inc=(0.3, 1.4), obl=(0.2, 2.8))
        dom = Dom(ranges=rg)
        stratify(c, dom)
        kw = {"ydeg": deg, "udeg": udeg}
        if deg:
            kw.update(inc=c.V("inc", kind="py"), obl=c.V("obl", kind="py"))
        f = c.call(c.get(f"{MPB}.flux:flux"), **kw)
        kw = {}
        if deg:
            kw["y"] = yvec(c, deg)
        if udeg:
            kw["u"] = [c.V(f"u{i}", kind="py") for i in range(udeg)]
        if phi:
            kw["phi"] = c.V("phi", kind="py")
        if not rotate:
            kw["rotate"] = False
        b = c.V("b", kind="py")
        if sign < 0:
            b = c.it.models.binop("Mult", c.num(-1), b)
        g = c.call(f, b, c.V("r", kind="py"), **kw)

        def oracle(e):
            s = surf_env({"Y[0]": 1.0, **e, "A": 1.0}, deg, udeg)
            th = float(e["phi"]) if phi else 0.0
            if not rotate:
                s["inc"], s["obl"], th = math.pi / 2, 0.0, 0.0
            if not deg:
                s["Y"] = [1.0]
            return [flux_of(s, 0.0, sign * float(e["b"]), 1.0, float(e["r"]), th)]

        res = run.approx(c, g, oracle, dom, f"flux, occultor in stratum {stratum}", tol=1e-4, need=1, probes=1 if quick else 3)
        run.absorb(c)
        return res

    for d, ud in ((0, 0), (0, 2), (1, 0), (1, 1)) if quick else ((0, 0), (0, 1), (0, 2), (0, 4), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1)):
        for s in ("inside", "ingress", "none", "full") + (() if quick else ("overlap-center", "overlap-large", "b=1")):
            run.ob(f"flux[{d},{ud}|{s}]", lambda a=(d, ud, s): fcase(*a), "integral of the map over the unocculted disc")
        run.ob(f"flux[{d},{ud}|ingress|phi=0]", lambda a=(d, ud, "ingress"): fcase(*a, phi=False), "integral of the map over the unocculted disc")
        if d:
            for s in ("ingress", "none"):
                run.ob(f"flux[{d},{ud}|{s}|as given]", lambda a=(d, ud, s): fcase(*a, rotate=False), "rotate=False takes the map as it is on the sky")
            run.ob(f"flux[{d},{ud}|ingress|below]", lambda a=(d, ud, "ingress"): fcase(*a, sign=-1), "occultor below the centre")

    # ---- history: results do not depend on what was computed before
    def history(deg, udeg):
        c = Ctx()
        rg = surf_ranges(deg, udeg)
        rg.update(br("ingress"))
        rg.update({"b2": (0.2, 0.5), "r2": (0.1, 0.3)})
        dom = Dom(ranges=rg)
        stratify(c, dom)
        seq = [(Fr("0.75"), Fr("0.5"), "b", "r"), (Fr("1.25"), Fr("0.5"), "b", "r"), (Fr("1.25"), Fr("-0.75"), "b2", "r"), (Fr("0.75"), Fr("0.5"), "b2", "r2"), (Fr("0.75"), Fr("-0.75"), "b", "r"), (Fr("0.75"), Fr("0.5"), "b", "r")]
        rg["b2"] = (0.3, 0.5)
        for d in (deg, deg + 1):
            c.call(c.get(f"{MPB}.basis:A1"), d)
        if deg > 1:
            f = c.call(c.get(f"{MPB}.flux:flux"), ydeg=deg - 1, udeg=udeg + 1, inc=c.num(Fr("0.75")), obl=c.num(Fr("0.5")))
            c.call(f, c.V("b", kind="py"), c.V("r", kind="py"), y=yvec(c, deg - 1), u=[c.V("u0", kind="py")] * (udeg + 1), phi=c.num(Fr("0.5")))
        for k, (inc, obl, b, r) in enumerate(seq):
            f = c.call(c.get(f"{MPB}.flux:flux"), ydeg=deg, udeg=udeg, inc=c.num(inc), obl=c.num(obl))
            g = c.call(f, c.V(b, kind="py"), c.V(r, kind="py"), y=yvec(c, deg), u=[c.V(f"u{i}", kind="py") for i in range(udeg)], phi=c.num(Fr("0.5")))

            def oracle(e, inc=inc, obl=obl, b=b, r=r):
                s = surf_env({**e, "A": 1.0, "inc": float(inc), "obl": float(obl)}, deg, udeg)
                return [flux_of(s, 0.0, float(e[b]), 1.0, float(e[r]), 0.5)]

            run.approx(c, g, oracle, dom, f"flux {k} of a sequence", tol=1e-4, need=1, probes=1)
        run.absorb(c)
        return "congruent"

    for d, ud in ((1, 0),) if quick else ((1, 0), (1, 1), (2, 0)):
        run.ob(f"history[{d},{ud}]", lambda d=d, ud=ud: history(d, ud), "memoised tables belong to the arguments they were computed for")

    # ---- precision reports: the difference between the two implementations
    def precision(f, *a):
        c = Ctx()
        stratify(c, Dom(), 1)
        g = c.call(c.get(f"{MPB}.precision:{f}"), *[c.num(Fr(x)) if isinstance(x, float) else x for x in a])
        res = run.approx(c, g, lambda e: [0.0], Dom(), f"difference reported by {f}{a}", tol=1e-5, probes=1, need=1)
        run.absorb(c)
        return res

    for a in ((1, 0, 0.25, 20), (1, 1, 0.25, 20), (1, 1, 0.25, 20, 0.5), (1, 0, 1.25, 20)):
        run.ob(f"precision.starry_light_curve{a}", lambda a=a: precision("starry_light_curve", *a), "the implementations agree")
    for a in ((0, 0.25, 20), (2, 0.25, 20), (2, 0.25, 20, 0.5), (2, 1.25, 20)):
        run.ob(f"precision.limb_dark_light_curve{a}", lambda a=a: precision("limb_dark_light_curve", *a), "the implementations agree")

    # ---- consumers
    def consumer(fn, deg, udeg, stratum):
        c = Ctx()
        rv = fn.endswith("velocity")
        rg = {**surf_ranges(deg, udeg, flat=0.5 if rv else 1.0), "theta": (-7, 7), "z": (0.5, 9), "P": (0.6, 4)}
        s = mk_surface(c, deg, udeg, **({"period": c.V("P")} if rv else {}))
        kw = dict(theta=c.V("theta"), higher_precision=True)
        if stratum:
            kw.update(r=c.V("r"), x=c.V("x"), y=c.V("y"), z=c.V("z"))
            dom = Placed(stratum, "generic", rg)
        else:
            dom = Dom(ranges=rg)
        g = c.call(c.get(fn), s, **kw)

        def oracle(e):
            S, th = surf_env(e, deg, udeg), float(e["theta"])
            a = (float(e["x"]), float(e["y"]), float(e["z"]), float(e["r"])) if stratum else (0, 0, None, None)
            return [rv_of(S, *a, th, float(e["P"])) if rv else flux_of(S, *a, th)]

        res = run.approx(c, g, oracle, dom, f"{'velocity' if rv else 'flux'}, {stratum}", tol=1e-4 if rv else 2e-5, need=1, probes=1 if quick else 3)
        run.absorb(c)
        return res

    for fn in (f"{SLC}:surface_light_curve", f"{SDP}:surface_radial_velocity"):
        for d, ud in ((0, 2), (1, 0), (1, 1), (2, 0)) if quick else ((0, 0), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 0)):
            for s in (None, "inside", "ingress", "none"):
                run.ob(f"{fn.split(':')[1]}[{d},{ud}|{s}]", lambda a=(fn, d, ud, s): consumer(*a), "higher_precision=True gives the same observable")
    run.absorb(ctx)
