"""Spherical-harmonic maps: bases, rotations, surfaces, light curves and radial velocities."""
from __future__ import annotations

import itertools
import math

import mpmath
import numpy as np

from .. import terms as tm
from ..harness import PROBES, Ctx, Dom, Refuted, Run, Undecided, expect_raise, raises
from ..values import Arr, Obj, PyRaise, Qty, scalar
from . import disc, sph
from .orbit_model import C, PI, V

mpf = mpmath.mpf
SB = "jaxoplanet.starry.core.basis"
SP = "jaxoplanet.starry.core.polynomials"
SR = "jaxoplanet.starry.core.rotation"
SS = "jaxoplanet.starry.core.solution"
SURF = "jaxoplanet.starry.surface:Surface"
YLM = "jaxoplanet.starry.ylm:Ylm"
SLC = "jaxoplanet.starry.light_curves"
SDP = "jaxoplanet.starry.doppler"
SORB = "jaxoplanet.starry.orbit"
MPB = "jaxoplanet.starry.multiprecision"


def T_(t, kind="jax"):
    return scalar(t, "f", kind, frozenset())


def numbers(ctx, x):
    """constant terms -> list of floats"""
    out = []
    for t in ctx.flat(x):
        if tm.free_vars(t):
            raise Refuted(f"entry depends on {sorted(tm.free_vars(t))[:3]}", site=t.site)
        v = tm.Val({})(t)
        out.append(v if not isinstance(v, bool) else mpf(int(v)))
    return out


def matrix(ctx, x, n, m):
    if ctx.shape(getattr(x, "arr", x)) != (n, m):
        raise Refuted(f"matrix of shape {ctx.shape(getattr(x, 'arr', x))}, expected {(n, m)}")
    f = numbers(ctx, x)
    return [f[i * m:(i + 1) * m] for i in range(n)]


def close(got, want, what, site=None, tol=1e-11):
    if mpmath.isnan(got) or abs(got - want) > tol * (1 + abs(want)):
        raise Refuted(f"{what}: the code computes {mpmath.nstr(mpf(got), 12)} where the property requires {mpmath.nstr(mpf(want), 12)}", site=site)


def root(ctx, f):
    fn = ctx.get(f)
    d = getattr(fn, "node", None)
    return (getattr(fn, "module", None).rel, d.lineno, fn.name) if d is not None and getattr(fn, "module", None) is not None else None


def exps(deg):
    return disc.basis_exponents(deg)


def disc_moment(i, j, k):
    """integral of x^i y^j z^k over the unit disc, exact Gamma formula"""
    if i % 2 or j % 2:
        return mpf(0)
    g = mpmath.gamma
    ang = 2 * g(mpf(i + 1) / 2) * g(mpf(j + 1) / 2) / g(mpf(i + j + 2) / 2)
    n = i + j
    rad = mpf(1) / (n + 2) if k == 0 else g(mpf(n + 2) / 2) * g(mpf(3) / 2) / (2 * g(mpf(n + 5) / 2))
    return ang * rad


def ylm_column(l, m):
    """2/sqrt(pi) Y_lm in the polynomial basis {(i,j,k): mpf}"""
    n2 = sph.norm2(l, m)
    N = mpmath.sqrt(mpf(n2.numerator) / n2.denominator / (4 * mpmath.pi)) * 2 / mpmath.sqrt(mpmath.pi)
    return {k: N * mpf(c.numerator) / c.denominator for k, c in sph.reduce_z(sph.poly(l, m)).items()}


# ------------------------------------------------------------------ S01
def S01(run: Run):
    ctx = Ctx()
    quick = run.tier == "quick"
    degs = (0, 1, 2, 3, 5) if quick else (0, 1, 2, 3, 4, 5, 6, 8, 10)

    def pbasis(deg):
        f = ctx.call(ctx.get(f"{SB}:poly_basis"), deg)
        x, y, z = V("x"), V("y"), V("z")
        want = [x ** i * y ** j * z ** k if False else tm.mul(tm.mul(tm.pow_(x, C(i)), tm.pow_(y, C(j))), tm.pow_(z, C(k))) for i, j, k in exps(deg)]
        g = ctx.call(f, ctx.V("x"), ctx.V("y"), ctx.V("z"))
        if ctx.shape(g) != ((deg + 1) ** 2,):
            raise Refuted(f"shape {ctx.shape(g)} for degree {deg}")
        st = run.equal(ctx, g, want, Dom(default=(-1, 1)), "basis terms x^i y^j z^k in (l, m) order")
        # off the disc z is nan and so must be every term
        g = ctx.flat(ctx.call(f, ctx.V("x"), ctx.V("y"), T_(tm.NAN)))
        for n, t in enumerate(g):
            v = tm.Val({"x": mpf("0.9"), "y": mpf("0.8")})(t)
            if not (v != v):
                raise Refuted(f"term {n} is {mpmath.nstr(v, 5)} off the disc (z = nan)", site=t.site)
        g = ctx.call(f, ctx.arr("x", (3,)), ctx.arr("y", (3,)), ctx.arr("z", (3,)))
        if ctx.shape(g) != (3, (deg + 1) ** 2):
            raise Refuted(f"shape {ctx.shape(g)} for three points")
        w = [tm.mul(tm.mul(tm.pow_(V(f"x[{q}]"), C(i)), tm.pow_(V(f"y[{q}]"), C(j))), tm.pow_(V(f"z[{q}]"), C(k))) for q in range(3) for i, j, k in exps(deg)]
        run.equal(ctx, g, w, Dom(default=(-1, 1)), "vectorised over points")
        return st

    for d in degs:
        run.ob(f"poly_basis[{d}]", lambda d=d: pbasis(d), "n-th term is x^i y^j z^k, nan off the disc")

    def a1(deg):
        N = (deg + 1) ** 2
        M = matrix(ctx, ctx.call(ctx.get(f"{SB}:A1"), deg), N, N)
        ex = exps(deg)
        for n, (l, m) in enumerate(sph.lm(deg)):
            col = ylm_column(l, m)
            for q, e in enumerate(ex):
                close(M[q][n], col.get(e, mpf(0)), f"A1[{q},{n}] (x^{e[0]} y^{e[1]} z^{e[2]} in Y_{{{l},{m}}})", root(ctx, f"{SB}:Ylm"))
                run.comparisons += 1
        return "congruent"

    def ylm_terms(deg):
        f = ctx.get(f"{SB}:Ylm")
        for l, m in sph.lm(deg):
            if l != deg:
                continue
            r = ctx.call(f, l, m)
            n2 = sph.norm2(l, m)
            N = mpmath.sqrt(mpf(n2.numerator) / n2.denominator / (4 * mpmath.pi))
            col = {k: N * mpf(c.numerator) / c.denominator for k, c in sph.reduce_z(sph.poly(l, m)).items()}
            got = {tuple(ctx.it.models.np.int_(i) for i in k): numbers(ctx, v)[0] for k, v in r.items()}
            for k in set(col) | set(got):
                close(got.get(k, mpf(0)), col.get(k, mpf(0)), f"coefficient of {k} in Y_{{{l},{m}}}", root(ctx, f"{SB}:Ylm"))
                run.comparisons += 1
        return "congruent"

    for d in degs:
        run.ob(f"A1[{d}]", lambda d=d: a1(d), "columns are the real spherical harmonics of an independent definition")
        run.ob(f"Ylm[{d}]", lambda d=d: ylm_terms(d), "terms of the spherical harmonics of this degree")

    def rt(deg):
        f = numbers(ctx, ctx.call(ctx.get(f"{SS}:rT"), deg))
        if len(f) != (deg + 1) ** 2:
            raise Refuted(f"rT has {len(f)} entries for degree {deg}")
        for n, e in enumerate(exps(deg)):
            close(f[n], disc_moment(*e), f"rT[{n}] = disc integral of x^{e[0]} y^{e[1]} z^{e[2]}", root(ctx, f"{SS}:rT"))
            run.comparisons += 1
        return "congruent"

    for d in degs + ((8,) if quick else (12, 16, 20)):
        run.ob(f"rT[{d}]", lambda d=d: rt(d), "exact moments of the unit disc")

    def a2(deg):
        """A2_inv is non-singular and basis() solves A2_inv @ basis = A1"""
        N = (deg + 1) ** 2
        A2 = matrix(ctx, ctx.call(ctx.get(f"{SB}:A2_inv"), deg), N, N)
        if abs(mpmath.det(mpmath.matrix(A2))) < mpf("1e-6"):
            raise Refuted("the Green's basis of this degree is not a basis (A2_inv is singular)", site=root(ctx, f"{SB}:gtilde"))
        A1 = matrix(ctx, ctx.call(ctx.get(f"{SB}:A1"), deg), N, N)
        B = matrix(ctx, ctx.call(ctx.get(f"{SB}:basis"), deg), N, N)
        P = mpmath.matrix(A2) * mpmath.matrix(B)
        for i in range(N):
            for j in range(N):
                close(P[i, j], A1[i][j], f"(A2_inv @ basis)[{i},{j}] = A1[{i},{j}]", root(ctx, f"{SB}:basis"), tol=1e-9)
                run.comparisons += 1
        return "congruent"

    for d in (0, 1, 2, 3, 4) if quick else (0, 1, 2, 3, 4, 5, 6):
        run.ob(f"A2[{d}]", lambda d=d: a2(d), "Green's basis invertible; basis = A2 A1")

    # sT A2: with the Green basis expansion in the polynomial basis, s_n must be the
    # integral of g_n over the visible part of the disc
    def green(deg, stratum, order):
        from .lightcurves import STRATA

        N = (deg + 1) ** 2
        A2 = matrix(ctx, ctx.call(ctx.get(f"{SB}:A2_inv"), deg), N, N)
        A2 = np.array([[float(v) for v in r] for r in A2])
        f = ctx.call(ctx.get(f"{SS}:solution_vector"), deg, **({} if order is None else {"order": order}))
        g = ctx.call(f, ctx.V("b"), ctx.V("r"))
        if ctx.shape(g) != (N,):
            raise Refuted(f"solution vector of shape {ctx.shape(g)}")
        ex = exps(deg)

        def oracle(env):
            b, r = float(env["b"]), float(env["r"])
            mom = np.array([disc.integrate(disc.poly(*e), b, r) for e in ex])
            return list(mom @ A2)

        b, r = STRATA[stratum]
        sc = float(np.abs(A2).sum(0).max())
        tol = {"inside": 1e-5, "b=r-edge": 1e-4}.get(stratum, 1e-5)
        return run.approx(ctx, g, oracle, Dom(ranges={"b": b, "r": r}), f"s_n = integral of the n-th Green basis function, stratum {stratum}",
                          tol=max(2e-5, tol) * max(1, sc / 10), need=1, probes=2 if quick else 6)

    strata = ("inside", "ingress", "overlap-center", "overlap-large", "full", "b=0", "b=r-inside", "b=r-edge", "b=1", "r=1", "b=0,r>1")
    from .lightcurves import NEAR

    for d in (1, 2, 3, 5) if quick else (1, 2, 3, 4, 5, 6, 8):
        for s in strata + tuple(x for x in NEAR if x not in ("before first contact", "far")):
            if s in NEAR and d > 2 and (quick or d > 4):
                continue
            run.ob(f"green[{d}|{s}]", lambda d=d, s=s: green(d, s, 30), "Green's theorem boundary integrals = surface integrals")

    def even_b():
        f = ctx.call(ctx.get(f"{SS}:solution_vector"), 3, order=10)
        a = ctx.call(f, ctx.V("b"), ctx.V("r"))
        dom = Dom(ranges={"b": (0.1, 1.0), "r": (0.05, 0.4)})
        run.equal(ctx, ctx.call(f, T_(-V("b")), ctx.V("r")), ctx.flat(a), dom, "even in b")
        run.equal(ctx, ctx.call(f, ctx.V("b"), T_(-V("r"))), ctx.flat(a), dom, "even in r")
        v = ctx.call(f, ctx.arr("b", (2,)), ctx.V("r"))
        if ctx.shape(v) != (2, 16):
            raise Refuted(f"shape {ctx.shape(v)} for two impact parameters")
        w = [t for q in range(2) for t in ctx.flat(ctx.call(f, ctx.V(f"b[{q}]"), ctx.V("r")))]
        return run.equal(ctx, v, w, Dom(ranges={"b[*": (0.1, 1.0), "r": (0.05, 0.4)}), "vectorised over b")

    run.ob("solution-even-vectorised", even_b, "depends on |b|, |r|; vectorised")

    # limb darkening polynomials
    def ld(udeg):
        U = matrix(ctx, ctx.call(ctx.get(f"{SB}:U"), udeg), udeg + 1, (udeg + 1) ** 2)
        x, y = mpf("0.31"), mpf("-0.47")
        ex = exps(udeg)
        for x, y in ((mpf("0.31"), mpf("-0.47")), (mpf("-0.6"), mpf("0.05")), (mpf("0.02"), mpf("0.9"))):
            z = mpmath.sqrt(1 - x * x - y * y)
            for n in range(udeg + 1):
                got = sum(c * x ** i * y ** j * z ** k for c, (i, j, k) in zip(U[n], ex))
                close(got, mpf(1) if n == 0 else -(1 - z) ** n, f"limb darkening term {n} at ({mpmath.nstr(x, 3)}, {mpmath.nstr(y, 3)})", root(ctx, f"{SB}:U"))
                run.comparisons += 1
        return "congruent"

    for d in range(0, 6 if quick else 11):
        run.ob(f"U[{d}]", lambda d=d: ld(d), "(1, u) @ U is 1 - sum u_n (1 - z)^n")

    _pijk(run, ctx, quick)

    run.absorb(ctx)


def _pijk(run, ctx, quick):
    P = lambda: ctx.get(f"{SP}:Pijk")  # noqa: E731

    def dense(a, deg):
        return ctx.meth(P(), "from_dense", a, degree=deg)

    def polyval(ts, deg, x, y, z):
        r = tm.ZERO
        for t, (i, j, k) in zip(ts, exps(deg)):
            r = r + t * tm.pow_(x, C(i)) * tm.pow_(y, C(j)) * tm.pow_(z, C(k))
        return r

    x, y = V("x"), V("y")
    z = tm.sqrt(C(1) - x * x - y * y)
    dom = Dom(ranges={"x": (-0.7, 0.7), "y": (-0.7, 0.7)}, default=(-2, 2))

    def val(p, what):
        d = ctx.meth(p, "todense")
        n = ctx.shape(d)[0]
        deg = math.isqrt(n) - 1
        if (deg + 1) ** 2 != n:
            raise Refuted(f"{what}: dense vector of length {n}")
        return polyval(ctx.flat(d), deg, x, y, z)

    def indices():
        N = 400 if quick else 2500
        p = P()
        for n in range(N):
            l = math.isqrt(n)
            m = n - l * l - l
            got = ctx.meth(p, "n2lm", n)
            if tuple(ctx.it.models.np.int_(v) for v in got) != (l, m):
                raise Refuted(f"n2lm({n}) = {got}, expected {(l, m)}")
            if ctx.it.models.np.int_(ctx.meth(p, "lm2n", l, m)) != n:
                raise Refuted(f"lm2n{(l, m)} != {n}")
        ex = exps(math.isqrt(N) - 1)
        for n, e in enumerate(ex):
            l = math.isqrt(n)
            m = n - l * l - l
            for got, name in ((ctx.meth(p, "n2ijk", n), "n2ijk"), (ctx.meth(p, "lm2ijk", l, m), "lm2ijk"), (ctx.call(ctx.get(f"{SB}:ptilde"), n), "ptilde")):
                if tuple(ctx.it.models.np.int_(v) for v in got) != e:
                    raise Refuted(f"{name} of term {n} is {got}, expected {e}")
            if tuple(ctx.it.models.np.int_(v) for v in ctx.meth(p, "ijk2lm", *e)) != (l, m):
                raise Refuted(f"ijk2lm{e} is not {(l, m)}")
            run.comparisons += 5
        return "holds"

    run.ob("pijk-indices", indices, "n <-> (l, m) <-> (i, j, k) are mutually inverse bijections")

    def roundtrip(deg):
        a = ctx.arr("p", ((deg + 1) ** 2,))
        p = dense(a, deg)
        if ctx.it.models.np.int_(ctx.attr(p, "degree")) != deg:
            raise Refuted(f"degree {ctx.attr(p, 'degree')} of a vector of degree {deg}")
        d = ctx.meth(p, "todense")
        if ctx.shape(d) != ((deg + 1) ** 2,):
            raise Refuted(f"todense has shape {ctx.shape(d)}")
        run.equal(ctx, d, ctx.flat(a), dom, "todense(from_dense(p)) = p")
        for n, e in enumerate(exps(deg)):
            run.equal(ctx, ctx.it.models.getitem(p, e), [ctx.flat(a)[n]], dom, f"p[{e}]")
        if not deg:
            return "proved"
        # sparse construction, explicit degree larger than the highest term
        q = ctx.call(P(), {(0, 0, 0): ctx.V("c0"), (1, 0, 0): ctx.V("c1")}, degree=deg)
        w = [tm.ZERO] * (deg + 1) ** 2
        w[0], w[exps(deg).index((1, 0, 0))] = V("c0"), V("c1")
        return run.equal(ctx, ctx.meth(q, "todense"), w, dom, "sparse construction")

    for d in (0, 1, 3) if quick else (0, 1, 2, 3, 4, 5):
        run.ob(f"pijk-roundtrip[{d}]", lambda d=d: roundtrip(d), "dense and sparse forms agree")

    def algebra(da, db):
        pa, pb = dense(ctx.arr("p", ((da + 1) ** 2,)), da), dense(ctx.arr("q", ((db + 1) ** 2,)), db)
        va, vb = val(pa, "p"), val(pb, "q")
        run.equal(ctx, [val(ctx.it.models.binop("Mult", pa, pb), "product")], [va * vb], dom, "product of polynomials on the sphere")
        run.equal(ctx, [val(ctx.it.models.binop("Add", pa, pb), "sum")], [va + vb], dom, "sum of polynomials")
        run.equal(ctx, [val(ctx.it.models.binop("Mult", pa, ctx.V("s")), "scaled")], [va * V("s")], dom, "scaled")
        run.equal(ctx, [val(ctx.it.models.binop("Mult", ctx.V("s"), pa), "scaled")], [va * V("s")], dom, "scaled from the left")
        M = ctx.call(ctx.get(f"{SP}:polynomial_product_matrix"), ctx.arr("p", ((da + 1) ** 2,)), db)
        n = (da + db + 1) ** 2
        if ctx.shape(M) != (n, (db + 1) ** 2):
            raise Refuted(f"polynomial_product_matrix of degrees {da}, {db} has shape {ctx.shape(M)}, expected {(n, (db + 1) ** 2)}", site=root(ctx, f"{SP}:polynomial_product_matrix"))
        r = ctx.call(ctx.it.models.np.funcs["matmul"], M, ctx.arr("q", ((db + 1) ** 2,)))
        return run.equal(ctx, [polyval(ctx.flat(r), da + db, x, y, z)], [va * vb], dom, "polynomial_product_matrix @ q")

    for da, db in ((0, 0), (0, 2), (1, 1), (2, 1), (1, 3)) if quick else itertools.product(range(4), range(4)):
        run.ob(f"pijk-algebra[{da}|{db}]", lambda da=da, db=db: algebra(da, db), "products, sums and the product matrix represent the functions")


# ------------------------------------------------------------------ S02
def sky(coef_env, inc, obl, theta, theta_z):
    """matrix S with v_map = S v_sky: rows are the map axes (x: lon 90, y: pole, z: lon 0)"""
    ci, si, co, so = math.cos(inc), math.sin(inc), math.cos(obl), math.sin(obl)
    p = np.array([0, si, ci])
    e0 = np.array([0, -ci, si])
    e9 = np.array([1.0, 0, 0])
    Rz = lambda a: np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])  # noqa: E731
    W = Rz(theta_z) @ Rz(obl)
    p, e0, e9 = W @ p, W @ e0, W @ e9
    z = math.cos(theta) * e0 + math.sin(theta) * e9  # where lon 0 has moved to
    x = math.cos(theta) * e9 - math.sin(theta) * e0
    return np.stack([x, p, z])


def coef_dom(deg, **kw):
    return {"Y[*": (-1, 1), **kw}


def yvec(ctx, deg, name="Y"):
    return ctx.arr(name, ((deg + 1) ** 2,))


def yenv(env, deg, name="Y"):
    if isinstance(deg, Keys):
        d = {l * l + l + m for l, m in deg}
        return [float(env[f"{name}[{i}]"]) if i in d else 0.0 for i in range((max(l for l, _ in deg) + 1) ** 2)]
    return [float(env[f"{name}[{i}]"]) for i in range((deg + 1) ** 2)]


def S02(run: Run):
    ctx = Ctx()
    quick = run.tier == "quick"
    degs = (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4, 5, 6)
    np_ = 2 if quick else 5

    AX = {
        "generic": ("ax", "ay", "az"), "x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1), "-z": (0, 0, -1), "-x": (-1, 0, 0), "xy": ("ax", "ay", 0),
        "only-x": (1.0, None, None), "only-y": (None, 1.0, None), "only-z": (None, None, 1.0), "only--z": (None, None, -1.0), "long-z": (None, None, 2.5), "yz": (None, "ay", "az"),
        "near z": ("sx", "sy", 1), "near -z": ("sx", "sy", -1), "near x": (1, "sx", "sy"), "near y": ("sx", 1, "sy"), "short": ("sx", "sy", "sz"),
    }
    NEARAX = {k: mpf(v) for k, v in {"near z": "0.01", "near -z": "0.01", "near x": "0.01", "near y": "0.01", "short": "0.002"}.items()}
    TH = {"generic": (-6, 6), "zero": [mpf(0)], "pi": [+mpmath.pi], "pi/2": [mpmath.pi / 2, -mpmath.pi / 2], "small": (1e-4, 1e-3),
          "smallish": (0.005, 0.02), "near pi": (mpmath.pi - mpf("0.01"), mpmath.pi - mpf("0.002")), "near 2pi": (2 * mpmath.pi - mpf("0.01"), 2 * mpmath.pi - mpf("0.002"))}

    def val(ctx, a):
        return ctx.V(a) if isinstance(a, str) else (None if a is None else ctx.num(float(a)) if False else T_(tm.const(a), "py"))

    def num(env, a):
        return float(env[a]) if isinstance(a, str) else (0.0 if a is None else float(a))

    def rot(deg, ax, th, impl="dot"):
        a = AX[ax]
        args = [val(ctx, q) for q in a]
        M = yvec(ctx, deg)
        if impl == "dot":
            g = ctx.call(ctx.call(ctx.get(f"{SR}:dot_rotation_matrix"), deg, *args, ctx.V("th")), M)
        else:
            mats = ctx.call(ctx.get(f"{SR}:compute_rotation_matrices"), deg, *args, ctx.V("th"))
            mats = list(ctx.it.iterate(mats))
            out = []
            for l, R in enumerate(mats):
                r = ctx.call(ctx.it.models.np.funcs["matmul"], T_arr(ctx.flat(M)[l * l:(l + 1) ** 2]), R)
                out += ctx.flat(r)
            g = out
        n = NEARAX.get(ax, mpf(1))
        rg = coef_dom(deg, th=TH[th], ax=(-1, 1), ay=(-1, 1), az=(-1, 1), sx=(n / 3, n), sy=(-n, n), sz=(-n, n))
        for i in range((deg + 1) ** 2):
            rg[f"Y[{i}]"] = (-1, 1)

        def oracle(env):
            S = sph.axis_rotation([num(env, q) for q in a], float(env["th"]))
            return list(sph.rotated_coef(yenv(env, deg), S))

        g = g if isinstance(g, list) else ctx.flat(g)
        if len(g) != (deg + 1) ** 2:
            raise Refuted(f"{len(g)} rotated coefficients for degree {deg}")
        return run.approx(ctx, g, oracle, Dom(ranges=rg), f"coefficients of the map rotated about {ax} by {th}", tol=1e-7, probes=np_, need=1)

    def T_arr(ts):
        from ..values import vecarr

        return vecarr(ts, "f", "jax", frozenset())

    for d in degs:
        for ax in AX:
            for th in TH:
                if quick and d != 2 and (ax not in ("generic", "z", "only-z", "only-x") or th not in ("generic", "zero", "pi")):
                    continue
                run.ob(f"dot_rotation_matrix[{d}|{ax}|{th}]", lambda d=d, ax=ax, th=th: rot(d, ax, th), "I'(v) = I(S v) with S the rotation about the axis")
    for d in degs:
        for ax in ("generic", "x", "y", "z", "-z", "xy", *NEARAX):
            for th in ("generic", "pi", "pi/2", "smallish", "near pi"):
                if ax in ("z", "-z") and th == "pi":
                    continue
                if quick and d != 2 and (ax in NEARAX or th in ("smallish", "near pi")):
                    continue
                run.ob(f"compute_rotation_matrices[{d}|{ax}|{th}]", lambda d=d, ax=ax, th=th: rot(d, ax, th, "mat"), "recurrence-based rotation matrices")

    def identity():
        M = yvec(ctx, 2)
        r = ctx.call(ctx.call(ctx.get(f"{SR}:dot_rotation_matrix"), 2, T_(tm.ONE), None, None, None), M)
        run.equal(ctx, r, ctx.flat(M), Dom(default=(-1, 1)), "angle None leaves the map unchanged")
        for a in ((None, None, None),):
            expect_raise(lambda: ctx.call(ctx.get(f"{SR}:dot_rotation_matrix"), 2, *a, ctx.V("th")), ("ValueError",), "no rotation axis at all")
        for i in range(4):
            a = [T_(tm.ONE), T_(tm.ZERO), T_(tm.ZERO), ctx.V("th")]
            a[i] = ctx.arr("bad", (2,))
            expect_raise(lambda: ctx.call(ctx.get(f"{SR}:dot_rotation_matrix"), 2, *a), ("ValueError",), f"non scalar argument {i}")
        f = ctx.call(ctx.get(f"{SR}:dot_rotation_matrix"), 2, ctx.V("ax"), ctx.V("ay"), ctx.V("az"), ctx.V("th"))
        expect_raise(lambda: ctx.call(f, yvec(ctx, 1)), ("ValueError",), "map of the wrong degree")
        b = ctx.call(f, ctx.arr("Y", (2, 9)))
        if ctx.shape(b) != (2, 9):
            raise Refuted(f"a stack of two maps gives shape {ctx.shape(b)}")
        from ..values import vecarr

        w = [t for q in range(2) for t in ctx.flat(ctx.call(f, vecarr([V(f"Y[{q},{i}]") for i in range(9)], "f", "jax", frozenset())))]
        return run.equal(ctx, b, w, Dom(default=(-1, 1)), "stack of maps")

    run.ob("interface", identity, "angle None, missing axis, shapes, stacks")

    def rz(deg, th):
        g = ctx.call(ctx.call(ctx.get(f"{SR}:dot_rz"), deg, ctx.V("th")), yvec(ctx, deg))
        rg = coef_dom(deg, th=TH[th])
        for i in range((deg + 1) ** 2):
            rg[f"Y[{i}]"] = (-1, 1)
        return run.approx(ctx, g, lambda env: list(sph.rotated_coef(yenv(env, deg), sph.axis_rotation([0, 0, 1], float(env["th"])))), Dom(ranges=rg),
                          "rotation about z", tol=1e-8, probes=np_, need=1)

    for d in (0, 1, 2, 4) if quick else range(9):
        for th in TH:
            run.ob(f"dot_rz[{d}|{th}]", lambda d=d, th=th: rz(d, th), "closed form of the rotation about z")

    STR = {"generic": {"inc": (0.1, 3.0), "obl": (-3, 3)}, "inc=pi/2": {"inc": [mpmath.pi / 2], "obl": (-3, 3)}, "inc=0": {"inc": [mpf(0)], "obl": (-3, 3)},
           "obl=0": {"inc": (0.1, 3.0), "obl": [mpf(0)]}, "inc=0,obl=0": {"inc": [mpf(0)], "obl": [mpf(0)]}, "inc=pi": {"inc": [+mpmath.pi], "obl": (-3, 3)},
           "retrograde": {"inc": (1.7, 3.1), "obl": (-3, 3)}, "obl=pi": {"inc": (0.1, 3.0), "obl": [+mpmath.pi]}, "inc<0": {"inc": (-3, -0.1), "obl": (-3, 3)}}

    e = mpf("0.004")
    for k, d in {"inc near 0": {"inc": (e / 2, e), "obl": (-3, 3)}, "obl near 0": {"inc": (0.1, 3.0), "obl": (e / 2, e)}, "inc near pi": {"inc": (mpmath.pi - e, mpmath.pi - e / 2), "obl": (-3, 3)},
                 "inc near pi/2": {"inc": (mpmath.pi / 2 - e, mpmath.pi / 2 - e / 2), "obl": (-3, 3)},
                 "near face-on": {"inc": (mpmath.pi / 2 + e / 2, mpmath.pi / 2 + e), "obl": (-e, e), "theta": (-e, e), "theta_z": (-e, e)}}.items():
        STR[k] = d

    def project(deg, which, s, nones=()):
        names = ("inc", "obl", "theta", "theta_z")
        args = [None if n in nones else ctx.V(n) for n in names]
        M = yvec(ctx, deg)
        g = ctx.call(ctx.get(f"{SR}:{which}"), deg, *args, M)
        rg = coef_dom(deg, **{"theta": (-7, 7), "theta_z": (-3, 3), **STR[s]})
        for i in range((deg + 1) ** 2):
            rg[f"Y[{i}]"] = (-1, 1)

        def oracle(env):
            a = [0.0 if n in nones else float(env[n]) for n in names]
            S = sky(None, *a)
            if which == "right_project":
                S = S.T
            return list(sph.rotated_coef(yenv(env, deg), S))

        return run.approx(ctx, g, oracle, Dom(ranges=rg), f"{which}, {s}", tol=1e-6, probes=np_, need=1)

    NONES = [c for n in range(5) for c in itertools.combinations(("inc", "obl", "theta", "theta_z"), n)]
    for d in degs:
        for which in ("left_project", "right_project", "fast_direct_left_project"):
            for s in STR:
                if quick and d != 1 and s not in ("generic", "inc=pi/2", "inc=0,obl=0"):
                    continue
                if which.startswith("fast") and s in ("inc=0,obl=0",):
                    pass
                run.ob(f"{which}[{d}|{s}]", lambda d=d, which=which, s=s: project(d, which, s), "map seen on the sky at inclination, obliquity, phase")
        for n in NONES:
            if n and d in (1, 2):
                for which in ("left_project", "right_project"):
                    run.ob(f"{which}[{d}|None:{'+'.join(n)}]", lambda d=d, n=n, which=which: project(d, which, "generic", n), "None means 0")

    def axis_angle(which, s, nones):
        """the matrix of an (axis, angle) pair; a missing component is zero"""
        names = ("inc", "obl", "theta", "theta_z") if which == "full_rotation_axis_angle" else ("inc", "obl")
        r = list(ctx.it.iterate(ctx.call(ctx.get(f"{SR}:{which}"), *[None if n in nones else ctx.V(n) for n in names])))
        x, y, z, th = [tm.ZERO if q is None else ctx.flat(q)[0] for q in r]
        c, si = tm.fn("cos", th), tm.fn("sin", th)
        k = (x, y, z)
        K = ((tm.ZERO, -z, y), (z, tm.ZERO, -x), (-y, x, tm.ZERO))
        got = [(c if i == j else tm.ZERO) + si * K[i][j] + (tm.ONE - c) * k[i] * k[j] for i in range(3) for j in range(3)]

        def oracle(env):
            a = {n: 0.0 if n in nones else float(env[n]) for n in names}
            R = sph.axis_rotation
            if which == "full_rotation_axis_angle":
                M = R([0, 0, 1], a["obl"] + a["theta_z"]) @ R([1, 0, 0], -a["inc"]) @ R([0, 0, 1], a["theta"]) @ R([1, 0, 0], math.pi / 2)
            else:
                M = R([1, 0, 0], a["inc"]) @ R([0, 0, 1], -a["obl"])
            return [float(v) for v in M.ravel()]

        rg = {"theta": (-7, 7), "theta_z": (-3, 3), **STR[s]}
        if s == "no rotation":
            rg = {n: [mpf(0)] for n in names}
            if which == "full_rotation_axis_angle":
                rg["inc"] = [mpmath.pi / 2]
        if s in NEARLY:
            e = NEARLY[s]
            rg = {n: (-e, e) for n in names}
            if which == "full_rotation_axis_angle":
                rg["inc"] = (mpmath.pi / 2 + e / 2, mpmath.pi / 2 + e)
        return run.approx(ctx, got, oracle, Dom(ranges=rg), f"{which}, {s}", tol=1e-7, probes=np_, need=1)

    STR["no rotation"] = {}
    NEARLY = {"nearly no rotation": mpf("0.004"), "almost no rotation": mpf("1e-4")}  # where a tolerance could hide a small rotation
    STR.update(dict.fromkeys(NEARLY, {}))
    for which, names in (("full_rotation_axis_angle", ("inc", "obl", "theta", "theta_z")), ("sky_projection_axis_angle", ("inc", "obl"))):
        for s in STR:
            run.ob(f"{which}[{s}]", lambda a=(which, s, ()): axis_angle(*a), "axis and angle of the rotation to the sky")
        for n in NONES:
            if n and set(n) <= set(names):
                run.ob(f"{which}[None:{'+'.join(n)}]", lambda a=(which, "generic", n): axis_angle(*a), "None means 0")
    for n in NONES[1:]:
        run.ob(f"fast_direct_left_project[1|None:{'+'.join(n)}]", lambda n=n: project(1, "fast_direct_left_project", "generic", n), "None means 0")

    def tabulated(L):
        MOD = "jaxoplanet.starry.core.s2fft_rotation"
        f, gen = ctx.get(f"{MOD}:rotate_flms"), ctx.get(f"{MOD}:_generate_rotate_dls")
        F = ctx.arr("F", (L, 2 * L - 1))
        rot_ = (ctx.V("a"), ctx.V("b"), ctx.V("g"))
        return run.equal(ctx, ctx.call(f, F, L, rot_, ctx.call(gen, L, ctx.V("b"))), ctx.call(f, F, L, rot_), Dom(ranges={"a": (-3, 3), "b": (0.1, 3), "g": (-3, 3)}, default=(-1, 1)), "rotation with precomputed Wigner matrices")

    for L in (2, 3) if quick else (2, 3, 4, 5):
        run.ob(f"rotate_flms-tabulated[{L}]", lambda L=L: tabulated(L), "precomputed and recomputed Wigner matrices agree")
    run.absorb(ctx)


# ------------------------------------------------------------------ S03
def mk_ylm(ctx, deg, name="Y"):
    if isinstance(deg, Keys):
        return ctx.call(ctx.get(YLM), {(l, m): ctx.V(f"{name}[{l * l + l + m}]") for l, m in deg})
    return ctx.meth(ctx.get(YLM), "from_dense", yvec(ctx, deg, name), normalize=False)


class Keys(tuple):
    """a map given by a dictionary that only has some of the coefficients (in this order)"""

    def __repr__(self):
        return "{" + " ".join(f"{l},{m}" for l, m in self) + "}"


SPARSE = tuple(Keys(k) for k in (((0, 0), (1, 0)), ((2, 0), (0, 0)), ((0, 0), (1, -1)), ((0, 0), (2, -2), (1, 1)), ((0, 0), (3, 0), (1, 0))))


INCS = {"V": "inc", "None": None, "default": "default", "pi/2": mpmath.pi / 2}


def mk_surface(ctx, deg, udeg, inc="V", obl="V", sfx="", **kw):
    k = {"y": mk_ylm(ctx, deg, "Y" + sfx), "u": [ctx.V(f"u{i}{sfx}") for i in range(udeg)], "amplitude": ctx.V("A" + sfx), "normalize": False}
    if inc == "V":
        k["inc"] = ctx.V("inc" + sfx)
    elif inc == "None":
        k["inc"] = None
    if obl == "V":
        k["obl"] = ctx.V("obl" + sfx)
    k.update(kw)
    return ctx.call(ctx.get(SURF), **k)


def surf_env(env, deg, udeg, inc="V", obl="V", sfx=""):
    return dict(
        Y=yenv(env, deg, "Y" + sfx), u=[float(env[f"u{i}{sfx}"]) for i in range(udeg)], A=float(env["A" + sfx]),
        inc=float(env["inc" + sfx]) if inc == "V" else (0.0 if inc == "None" else math.pi / 2), obl=float(env["obl" + sfx]) if obl == "V" else 0.0)


def surf_ranges(deg, udeg, sfx="", flat=1.0):
    rg = {f"Y{sfx}[{i}]": ((0.6, 1.4) if i == 0 else (-0.3 * flat, 0.3 * flat)) for i in ([l * l + l + m for l, m in deg] if isinstance(deg, Keys) else range((deg + 1) ** 2))}
    rg.update({f"u{i}{sfx}": (-0.2, 0.4) for i in range(udeg)})
    rg.update({"A" + sfx: (0.4, 2.0), "inc" + sfx: (0.2, 2.9), "obl" + sfx: (-3, 3)})
    return rg


def visible(s, x, y, r, theta, field=None):
    """integrals of I L [* field] and of L over the visible hemisphere not covered by the occultor at (x, y)"""
    S = sky(None, s["inc"], s["obl"], theta, 0.0)
    a = math.atan2(x, y)
    b = math.hypot(x, y)
    ca, sa_ = math.cos(a), math.sin(a)
    L = disc.limbdark(s["u"])

    def f(X, Y, Z):
        sx, sy = X * ca + Y * sa_, -X * sa_ + Y * ca
        v = np.stack([sx, sy, Z])
        m = np.tensordot(S, v, 1)
        val = sph.intensity(s["Y"], *m) * L(X, Y, Z)
        return val if field is None else val * field(sx, sy, Z)

    return disc.integrate(f, b, r)


def flux_of(s, x, y, z, r, theta):
    if r is None or z is None or z <= 0:
        x = y = 0.0
        r = 0.0
    norm = math.pi / disc.integrate(disc.limbdark(s["u"]), 0.0, 0.0)
    return s["A"] * norm * visible(s, x, y, r, theta)


def place(stratum, where):
    """x, y drawn at separation b from the stratum, at a position angle"""
    from .lightcurves import STRATA

    b, r = STRATA[stratum]
    rg = {"@b": b, "r": r}
    ang = {"generic": lambda e, g: mpf(g.random()) * 2 * mpmath.pi, "+y": lambda e, g: mpf(0), "-y": lambda e, g: +mpmath.pi, "+x": lambda e, g: mpmath.pi / 2, "-x": lambda e, g: -mpmath.pi / 2}[where]
    return b, r, ang


class Placed(Dom):
    """domain with an occultor at polar position (b, phi): x = b sin phi, y = b cos phi"""

    def __init__(self, stratum, where, ranges):
        from .lightcurves import STRATA

        b, r = STRATA[stratum]
        super().__init__(ranges={**ranges, "b": b, "r": r})
        self.where = where

    def sample(self, names, rng):
        env = super().sample(set(names) | {"b", "r"}, rng)
        b = env.pop("b")
        w = self.where
        if w == "generic":
            ph = mpf(rng.random()) * 2 * mpmath.pi
            s, c = mpmath.sin(ph), mpmath.cos(ph)
        else:
            s, c = {"+y": (0, 1), "-y": (0, -1), "+x": (1, 0), "-x": (-1, 0)}[w.lstrip("~")]
            if w[0] == "~":  # almost there
                d = mpf("0.003") + mpf("0.004") * mpf(rng.random())
                s, c = s * mpmath.cos(d) + c * mpmath.sin(d), c * mpmath.cos(d) - s * mpmath.sin(d)
        env["x"], env["y"] = b * s, b * c
        return env


OMITTED = (("x", "ingress", "+y"), ("x", "ingress", "-y"), ("y", "ingress", "+x"), ("y", "ingress", "-x"), ("xy", "b=0", "+y"), ("r", "ingress", "generic"))


# orientations, phases and coefficients that a tolerance could snap to a special value
_e = mpf("0.006")
SNAP = {"nearly pole-on": {"inc": (_e / 2, _e)}, "nearly edge-on": {"inc": (mpmath.pi / 2 - _e, mpmath.pi / 2 - _e / 2)}, "nearly upright": {"obl": (_e / 2, _e)},
        "nearly face-on": {"inc": (_e / 2, _e), "obl": (-_e, _e), "theta": (-_e, _e)}, "small phase": {"theta": (_e / 2, _e)},
        "one turn": {"theta": (2 * mpmath.pi - _e, 2 * mpmath.pi - _e / 2)}, "many turns": {"theta": (600, 900)}, "negative inclination": {"inc": (-2, -0.3)},
        "faint": {"A": (0.004, 0.02)}, "bright": {"A": (50, 90)}, "weak limb darkening": {"u*": (0.002, 0.008)}, "weak map": {"Y[*": (0.002, 0.008), "Y[0]": (0.9, 1.1)}}


def snap_ranges(base, snap):
    out = dict(base)
    for k, v in SNAP.get(snap, {}).items():
        if k.endswith("*"):
            out.update({n: v for n in base if n.startswith(k[:-1])})
    out.update({k: v for k, v in SNAP.get(snap, {}).items() if not k.endswith("*")})
    return out


def S03(run: Run):
    ctx = Ctx()
    quick = run.tier == "quick"
    slc = ctx.get(f"{SLC}:surface_light_curve")
    cases = ((0, 0), (0, 2), (1, 0), (1, 1), (2, 0), (2, 2), (3, 1)) if quick else ((0, 0), (0, 1), (0, 2), (0, 4), (1, 0), (1, 1), (1, 3), (2, 0), (2, 2), (3, 0), (3, 1), (4, 0), (4, 2), (5, 1), (6, 0))
    from .lightcurves import NEAR, STRATA

    def unocculted(deg, udeg, inc, obl, theta, snap=None):
        s = mk_surface(ctx, deg, udeg, inc, obl)
        th = {"V": ctx.V("theta"), "None": None, "zero": T_(tm.ZERO)}[theta]
        g = ctx.call(slc, s, **({} if theta == "omitted" else {"theta": th}))
        dom = Dom(ranges=snap_ranges({**surf_ranges(deg, udeg), "theta": (-7, 7)}, snap))
        return run.approx(ctx, g, lambda e: [flux_of(surf_env(e, deg, udeg, inc, obl), 0, 0, None, None, float(e["theta"]) if theta == "V" else 0.0)], dom,
                          "flux of the whole visible hemisphere", tol=1e-7, probes=2 if quick else 6, need=1)

    for deg, udeg in cases:
        for inc in ("V", "None", "default"):
            for obl in ("V", "None"):
                for theta in ("V", "None"):
                    if quick and deg != 2 and (inc, obl, theta) not in (("V", "V", "V"), ("None", "None", "V"), ("default", "None", "None")):
                        continue
                    run.ob(f"unocculted[{deg},{udeg}|inc={inc}|obl={obl}|theta={theta}]", lambda a=(deg, udeg, inc, obl, theta): unocculted(*a), "integral of the map over the visible hemisphere")

    def occulted(deg, udeg, stratum, where, inc="V", obl="V", theta="V", sign=1, omit="", zr=None, snap=None, **opt):
        s = mk_surface(ctx, deg, udeg, inc, obl)
        z = {1: ctx.V("z"), 0: T_(tm.ZERO), -1: ctx.V("z"), None: None}[sign]
        kw = {c: t for c, t in dict(r=ctx.V("r"), x=ctx.V("x"), y=ctx.V("y"), z=z).items() if c not in omit}
        if theta == "V":
            kw["theta"] = ctx.V("theta")
        g = ctx.call(slc, s, **kw, **opt)
        dom = Placed(stratum, where, {**snap_ranges({**surf_ranges(deg, udeg), "theta": (-7, 7)}, snap), "z": zr or ((0.5, 9) if sign == 1 else (-9, -0.5))})

        def oracle(e):
            zz = float(e["z"]) if sign in (1, -1) else 0.0
            return [flux_of(surf_env(e, deg, udeg, inc, obl), float(e["x"]), float(e["y"]), zz, None if "r" in omit else float(e["r"]), float(e["theta"]) if theta == "V" else 0.0)]

        tol = 1e-4 if stratum == "b=r-edge" else 5e-6 if stratum in NEAR else 2e-5
        return run.approx(ctx, g, oracle, dom, f"flux with the occultor in stratum {stratum}, at {where}", tol=tol, probes=1 if quick else 3, need=1)

    for deg, udeg in cases:
        for st in STRATA:
            if quick and (deg == 3 and st not in ("inside", "ingress") or st in NEAR and (deg, udeg) not in ((0, 2), (1, 1), (2, 0))):
                continue
            run.ob(f"occulted[{deg},{udeg}|{st}]", lambda a=(deg, udeg, st, "generic"): occulted(*a), "integral of the map over the unocculted part of the disc")
        for sn in SNAP:
            if (not quick or (deg, udeg) in ((1, 1), (2, 0), (2, 2))) and (udeg or "limb" not in sn):
                run.ob(f"unocculted[{deg},{udeg}|{sn}]", lambda a=(deg, udeg, "V", "V", "V", sn): unocculted(*a), "integral of the map over the visible hemisphere")
                run.ob(f"occulted[{deg},{udeg}|{sn}]", lambda a=(deg, udeg, "ingress", "generic"), sn=sn: occulted(*a, snap=sn), "integral of the map over the unocculted part of the disc")
        for w in ("+y", "-y", "+x", "-x", "~+y", "~-y", "~+x", "~-x"):
            run.ob(f"occulted[{deg},{udeg}|{w}]", lambda a=(deg, udeg, "ingress", w): occulted(*a), "integral of the map over the unocculted part of the disc")
        for sg in (0, -1, None):
            run.ob(f"behind[{deg},{udeg}|z={sg}]", lambda a=(deg, udeg, "ingress", "generic"), sg=sg: occulted(*a, sign=sg), "an occultor that is not in front does not occult")
        for zr in ((0.004, 0.02), (-0.02, -0.004), (100, 1000)):
            run.ob(f"front[{deg},{udeg}|z={zr}]", lambda a=(deg, udeg, "ingress", "generic"), zr=zr: occulted(*a, sign=1 if zr[0] > 0 else -1, zr=zr), "an occultor occults exactly when it is in front")
        for st in ("ingress", "none"):
            run.ob(f"higher-precision[{deg},{udeg}|{st}]", lambda a=(deg, udeg, st, "generic"): occulted(*a, higher_precision=True), "the change-of-basis matrices of the multiprecision path")
        if not quick or udeg != 2:
            for om, st, w in OMITTED:
                run.ob(f"omitted[{deg},{udeg}|{om}|{w}]", lambda a=(deg, udeg, st, w), om=om: occulted(*a, omit=om), "an omitted coordinate is zero; with no radius there is no occultor")
        for inc, obl, th in (("None", "V", "V"), ("default", "None", "None"), ("None", "None", "V"), ("V", "None", "None")):
            run.ob(f"occulted[{deg},{udeg}|inc={inc}|obl={obl}|theta={th}]", lambda a=(deg, udeg, "ingress", "generic", inc, obl, th): occulted(*a), "integral of the map over the unocculted part of the disc")
    for k in SPARSE:
        for udeg in (0,) if quick else (0, 1, 3):
            run.ob(f"unocculted[{k!r},{udeg}]", lambda a=(k, udeg, "V", "V", "V"): unocculted(*a), "a map given by some of its coefficients")
            run.ob(f"occulted[{k!r},{udeg}]", lambda a=(k, udeg, "ingress", "generic"): occulted(*a), "a map given by some of its coefficients")
    run.absorb(ctx)


# ------------------------------------------------------------------ S04
SO = "jaxoplanet.starry.system_observable:system_observable"


def surface_fn(ctx, name="F"):
    """an uninterpreted surface observable F(surface; r, x, y, z, theta)"""

    def f(surface, r=None, x=None, y=None, z=None, theta=None, order=20, **kw):
        if surface is None:
            raise PyRaise("AttributeError", "no surface", None)
        tag = ctx.flat(ctx.attr(surface, "amplitude"))
        if r is None:
            args = [C(-1)]
        else:
            args = []
            for q, n in ((r, "radius"), (x, "x"), (y, "y"), (z, "z")):
                if isinstance(q, Qty):
                    raise Refuted(f"the {n} of the occultor is passed with units")
                args += ctx.flat(q)
            if len(args) != 4:
                raise Refuted(f"an occultor is described by {len(args)} numbers instead of four scalars")
        th = [C(-77)] if theta is None else ctx.flat(theta)
        if len(th) != 1:
            raise Refuted("the rotation angle is not a scalar")
        t = tm.fn(f"{name}{len(args)}_{order}", *tag, *args, *th)
        return scalar(t, "f", "jax", frozenset())

    return f


def surf_system2(ctx, orbs, pattern, how, period=True, central_period=True):
    central = ctx.call(ctx.get(f"{KEPM}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
    SF, SBody, Body = ctx.get(SURF), ctx.get(f"{SORB}:SurfaceBody"), ctx.get(f"{KEPM}:Body")

    def surf(tag, per):
        kw = dict(period=ctx.V("Ps" + tag), phase=ctx.V("ph" + tag)) if per else {}
        return ctx.call(SF, amplitude=ctx.V("A" + tag), normalize=False, **kw)

    cs = surf("c", central_period)
    ss = [surf(str(i), period and p != "static") if p else None for i, p in enumerate(pattern)]
    S = ctx.get(f"{SORB}:SurfaceSystem")
    if how == "add":
        s = ctx.call(S, central, cs)
        for o, f in zip(orbs, ss):
            s = ctx.meth(s, "add_body", **{**o.kw, "surface": f})
    elif how == "surfacebody":
        s = ctx.call(S, central, cs)
        for o, f in zip(orbs, ss):
            s = ctx.meth(s, "add_body", ctx.call(SBody, **{**o.kw, "surface": f}))
    elif how == "orbital":
        OB = ctx.get(f"{KEPM}:OrbitalBody")
        s = ctx.call(S, central, cs, bodies=[(ctx.call(OB, central, ctx.call(Body, **o.kw)), f) for o, f in zip(orbs, ss)])
    else:
        s = ctx.call(S, central, cs, bodies=tuple((ctx.call(Body, **o.kw), f) for o, f in zip(orbs, ss)))
    return central, s, cs, ss


KEPM = "jaxoplanet.orbits.keplerian"


def th_of(tag, t, per):
    return C(2) * PI * t / V("Ps" + tag) + V("ph" + tag) if per else C(-77)


def S04(run: Run):
    from .lightcurves import close_dom
    from .system import MIXES, merged, mk

    ctx = Ctx("kepler")
    quick = run.tier == "quick"
    so = ctx.get(SO)

    def geometry(ctx, s, orbs, tq):
        R = V("Rc")
        out = []
        for i, o in enumerate(orbs):
            ob = ctx.attr(s, "bodies")[i]
            out.append([ctx.mag(q, "R_sun")[0] for q in ctx.meth(ob, "relative_position", tq)])
        return R, out

    def compose(F, ctx, s, orbs, pattern, tq, t, cper, bper, order):
        R, pos = geometry(ctx, s, orbs, tq)
        Fn = lambda tag, a, th: tm.fn(f"{F}{len(a)}_{order}", V("A" + tag), *a, th)  # noqa: E731
        thc = th_of("c", t, cper)
        ph = tm.fn(f"{F}1_20", V("Ac"), C(-1), thc)
        if order != 20:
            ph_alt = tm.fn(f"{F}1_{order}", V("Ac"), C(-1), thc)
        n = len(orbs)
        tot = ph
        tot2 = ph if order == 20 else ph_alt
        per = []
        base, base2 = tot, tot2
        for i, (o, (x, y, z)) in enumerate(zip(orbs, pos)):
            occ = Fn("c", [o.r / R, x / R, y / R, z / R], thc)
            tot = tot + (occ - base)
            tot2 = tot2 + (occ - base2)
            if pattern[i]:
                per.append(Fn(str(i), [R / o.r, -x / o.r, -y / o.r, -z / o.r], th_of(str(i), t, bper and pattern[i] != "static")))
            else:
                per.append(tm.ZERO)
        return [tot, *per], [tot2, *per]

    MIX = {**MIXES, "single": [{}], "single-ecc": [{"ecc": "w", "inc": "i"}], "none": []}
    TM = ("scalar", "vector", "hours", "matrix")

    def go(name, how, pattern, tmode, cper=True, bper=True, order=20):
        orbs = mk(ctx, [{**c, "radius": "r"} for c in MIX[name]])
        central, s, cs, ss = surf_system2(ctx, orbs, pattern, how, bper, cper)
        n = len(orbs)
        kw = {} if order == 20 else {"order": order}
        f = ctx.call(ctx.call(so, surface_fn(ctx), **kw), s)
        if tmode == "scalar":
            ts, arg, sh = [V("t")], ctx.V("t"), ()
        elif tmode == "vector":
            ts, arg, sh = [V("t[0]"), V("t[1]")], ctx.arr("t", (2,)), (2,)
        elif tmode == "matrix":
            ts, arg, sh = [V(f"t[{i},{j}]") for i in range(2) for j in range(2)], ctx.arr("t", (2, 2)), (2, 2)
        else:
            k = ctx.table.ratio(ctx.unit("hour"), ctx.unit("d"))
            ts, arg, sh = [V("t[0]") * k], Qty(ctx.arr("t", (1,)), ctx.unit("hour")), (1,)
        r = ctx.call(f, arg)
        if isinstance(r, Qty):
            r = r.m
        if ctx.shape(r) != sh + (1 + n,):
            raise Refuted(f"observable of shape {ctx.shape(r)}, expected {sh + (1 + n,)}")
        if n:
            d = close_dom(merged(*orbs))
            for j in range(n):
                d.ranges.update({f"r{j}": (0.3, 0.9), f"a{j}": (2, 3), f"P{j}": (1.2, 3)})
        else:
            d = Dom(ranges={"t*": (-3, 3)})
        d.ranges.update({"A*": (0.5, 2), "Ps*": (0.7, 3), "ph*": (-3, 3)})
        want, alt = [], []
        for t in ts:
            a, b = compose("F", ctx, s, orbs, pattern, ctx.Q(T_(t), "d"), t, cper, bper, order)
            want += a
            alt += b
        try:
            return run.equal(ctx, r, want, d, "observable of the central and of each body")
        except Refuted:
            if order == 20:
                raise
            return run.equal(ctx, r, alt, d, "observable of the central and of each body")

    for name, mix in MIX.items():
        n = len(mix)
        pats = [[1] * n] + ([[(i + k) % 2 for i in range(n)] for k in (0, 1)] + [[0] * n, [1 if i else "static" for i in range(n)]] if n else [])
        for how in ("add", "surfacebody", "bodies", "orbital"):
            for k, pat in enumerate(pats):
                for tmode in TM:
                    if quick and (k + len(how) + len(tmode)) % 2 and tmode != "scalar":
                        continue
                    run.ob(f"compose[{name}|{how}|{''.join(map(str, pat))}|{tmode}]", lambda a=(name, how, pat, tmode): go(*a), "sum over occultors; bodies occulted by the central; order of bodies")
    for name in ("single", "same", "none"):
        n = len(MIX[name])
        for cper in (True, False):
            for bper in (True, False):
                run.ob(f"rotation[{name}|central={cper}|bodies={bper}]", lambda a=(name, "add", [1] * n, "vector", cper, bper): go(*a), "each surface rotates with its own period and phase")
        run.ob(f"order[{name}]", lambda a=(name, "add", [1] * n, "scalar", True, True, 7): go(*a), "options reach the surface observable")

    def bad():
        orbs = mk(ctx, [{"radius": "r"}])
        _, s, _, _ = surf_system2(ctx, orbs, [1], "add")
        f = ctx.call(ctx.call(so, surface_fn(ctx)), s)
        return expect_raise(lambda: ctx.call(f, ctx.Q("t", "m")), ("DimensionalityError",), "a time in metres")

    run.ob("time-dimension", bad, "times of the wrong dimension are rejected")

    # the public entry points
    def entry(which, name, order=None):
        orbs = mk(ctx, [{**c, "radius": "r"} for c in MIX[name]])
        n = len(orbs)
        central = ctx.call(ctx.get(f"{KEPM}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
        cs = mk_surface(ctx, 1, 1, sfx="c", period=ctx.V("Psc"), phase=ctx.V("phc"))
        ss = [mk_surface(ctx, i % 2, 1 - i % 2, sfx=str(i), period=ctx.V(f"Ps{i}"), phase=ctx.V(f"ph{i}"), radius=ctx.V(f"r{i}")) for i in range(n)]
        S = ctx.get(f"{SORB}:SurfaceSystem")
        s = ctx.call(S, central, cs, bodies=[(ctx.call(ctx.get(f"{KEPM}:Body"), **o.kw), f) for o, f in zip(orbs, ss)])
        kw = {} if order is None else {"order": order}
        if which == "lc":
            fn = ctx.get(f"{SLC}:surface_light_curve")
            r = ctx.call(ctx.call(ctx.get(f"{SLC}:light_curve"), s, **kw), ctx.arr("t", (1,)))
        else:
            fn = ctx.get(f"{SDP}:surface_radial_velocity")
            r = ctx.call(ctx.call(ctx.get(f"{SDP}:radial_velocity"), s, **kw), ctx.arr("t", (1,)))
        if isinstance(r, Qty):
            r = r.m
        t = V("t[0]")
        tq = ctx.Q(T_(t), "d")
        if ctx.shape(r) != (1, 1 + n):
            raise Refuted(f"shape {ctx.shape(r)}, expected {(1, 1 + n)}")
        R, pos = geometry(ctx, s, orbs, tq)
        okw = {"order": order} if order else {}
        one = lambda *a, **k: ctx.flat(ctx.call(fn, *a, **k, **okw))[0]  # noqa: E731
        thc = T_(th_of("c", t, True))
        ph = one(cs, theta=thc)
        tot, per = ph, []
        for i, (o, (x, y, z)) in enumerate(zip(orbs, pos)):
            tot = tot + one(cs, T_(o.r / R), T_(x / R), T_(y / R), T_(z / R), thc) - ph
            per.append(one(ss[i], T_(R / o.r), T_(-x / o.r), T_(-y / o.r), T_(-z / o.r), T_(th_of(str(i), t, True))))
        if which == "rv":
            for i in range(n):
                tot = tot + ctx.mag(ctx.meth(ctx.attr(s, "bodies")[i], "radial_velocity", tq), "R_sun/d")[0]
        if n:
            d = close_dom(merged(*orbs))
            for j in range(n):
                d.ranges.update({f"r{j}": (0.3, 0.9), f"a{j}": (2, 3), f"P{j}": (1.2, 3)})
        else:
            d = Dom(ranges={"t*": (-3, 3)})
        for sfx, deg, ud in [("c", 1, 1)] + [(str(i), i % 2, 1 - i % 2) for i in range(n)]:
            d.ranges.update(surf_ranges(deg, ud, sfx))
        d.ranges.update({"Ps*": (0.7, 3), "ph*": (-3, 3)})
        return run.equal(ctx, r, [tot, *per], d, f"{which} of the system", probes=4 if quick else 12)

    for which in ("lc", "rv"):
        for name in ("none", "single", "same", "ecc+circ"):
            run.ob(f"{which}[{name}]", lambda which=which, name=name: entry(which, name), "system observable from the surface observables")
        run.ob(f"{which}[single|order]", lambda which=which: entry(which, "single", 6), "quadrature order reaches the surface observable")
    run.absorb(ctx)


# ------------------------------------------------------------------ S05
def rv_of(s, x, y, z, r, theta, P, radius=1.0, al=0.0):
    """flux weighted mean of the receding velocity over the visible surface"""
    if P is None:
        return 0.0
    if r is None or z is None or z <= 0:
        x = y = 0.0
        r = 0.0
    ve = 2 * math.pi * radius / P
    si, ci, co, so_ = math.sin(s["inc"]), math.cos(s["inc"]), math.cos(s["obl"]), math.sin(s["obl"])

    def field(X, Y, Z):
        # -(omega x r)_z with the pole (-sin obl sin inc, cos obl sin inc, cos inc)
        return ve * si * (co * X + so_ * Y) * (1 - al * (-so_ * si * X + co * si * Y + ci * Z) ** 2)

    return visible(s, x, y, r, theta, field) / visible(s, x, y, r, theta)


def S05(run: Run):
    ctx = Ctx()
    quick = run.tier == "quick"
    srv = ctx.get(f"{SDP}:surface_radial_velocity")
    cases = ((0, 0), (0, 2), (1, 0), (1, 1), (2, 0), (2, 1)) if quick else ((0, 0), (0, 1), (0, 2), (0, 4), (1, 0), (1, 1), (1, 3), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (4, 0), (4, 2), (5, 1))
    from .lightcurves import NEAR, STRATA

    def case(deg, udeg, stratum=None, where="generic", inc="V", obl="V", theta="V", sign=1, period=True, radius=False, shear=False, omit="", zr=None, snap=None, **opt):
        kw = {"shear": ctx.V("al")} if shear else {}
        if period:
            kw["period"] = ctx.V("P")
        if radius:
            kw["radius"] = ctx.V("Rs")
        s = mk_surface(ctx, deg, udeg, inc, obl, **kw)
        k = {"theta": ctx.V("theta"), **opt} if theta == "V" else {**opt}
        base = {**surf_ranges(deg, udeg, flat=0.5), "theta": (-7, 7), "P": (0.6, 4), "Rs": (0.5, 2), "al": (0.1, 0.9), "z": zr or ((0.5, 9) if sign == 1 else (-9, -0.5))}
        base = {**snap_ranges(base, snap), **{"slow": {"P": (20, 60)}, "fast": {"P": (0.02, 0.05)}, "weak shear": {"al": (0.01, 0.03)}, "strong shear": {"al": (0.97, 1.0)}, "antisolar shear": {"al": (-0.9, -0.1)}}.get(snap, {})}
        if stratum:
            z = {1: ctx.V("z"), 0: T_(tm.ZERO), -1: ctx.V("z"), None: None}[sign]
            k.update({c: t for c, t in dict(r=ctx.V("r"), x=ctx.V("x"), y=ctx.V("y"), z=z).items() if c not in omit})
            dom = Placed(stratum, where, base)
        else:
            dom = Dom(ranges=base)
        g = ctx.call(srv, s, **k)

        def oracle(e):
            th = float(e["theta"]) if theta == "V" else 0.0
            P = float(e["P"]) if period else None
            rad = float(e["Rs"]) if radius else 1.0
            al = float(e["al"]) if shear else 0.0
            S = surf_env(e, deg, udeg, inc, obl)
            if stratum is None:
                return [rv_of(S, 0, 0, None, None, th, P, rad, al)]
            return [rv_of(S, float(e["x"]), float(e["y"]), float(e["z"]) if sign else 0.0, None if "r" in omit else float(e["r"]), th, P, rad, al)]

        return run.approx(ctx, g, oracle, dom, f"flux-weighted line of sight velocity, {stratum}", tol=3e-4 if stratum in ("b=r-edge", "overlap-center", "overlap-large") else 1e-5 if stratum in NEAR else 1e-4,
                          probes=1 if quick else 3, need=1)

    for deg, udeg in cases:
        for inc in ("V", "None", "default"):
            for obl in ("V", "None"):
                for theta in ("V", "None"):
                    if quick and deg != 1 and (inc, obl, theta) not in (("V", "V", "V"), ("None", "None", "V"), ("default", "None", "None")):
                        continue
                    run.ob(f"unocculted[{deg},{udeg}|inc={inc}|obl={obl}|theta={theta}]", lambda a=(deg, udeg, None, "generic", inc, obl, theta): case(*a), "flux-weighted velocity of the visible hemisphere")
        for st in STRATA:
            if st in ("full", "b=0,r>1", "b=r-1", "b=0,r=1", "before totality", "after totality", "near b=0,r=1"):
                continue  # no visible flux
            if quick and (deg == 2 and st not in ("inside", "ingress", "none") or st in NEAR and (deg, udeg) not in ((0, 2), (1, 1))):
                continue
            run.ob(f"occulted[{deg},{udeg}|{st}]", lambda a=(deg, udeg, st): case(*a), "flux-weighted velocity of the unocculted part")
        for sn in (*SNAP, "slow", "fast"):
            if (not quick or (deg, udeg) in ((0, 2), (1, 1))) and (udeg or "limb" not in sn):
                run.ob(f"unocculted[{deg},{udeg}|{sn}]", lambda a=(deg, udeg), sn=sn: case(*a, snap=sn), "flux-weighted velocity of the visible hemisphere")
                run.ob(f"occulted[{deg},{udeg}|{sn}]", lambda a=(deg, udeg, "ingress"), sn=sn: case(*a, snap=sn), "flux-weighted velocity of the unocculted part")
        for w in ("+y", "-y", "+x", "-x", "~+y", "~-y", "~+x", "~-x"):
            run.ob(f"occulted[{deg},{udeg}|{w}]", lambda a=(deg, udeg, "ingress", w): case(*a), "flux-weighted velocity of the unocculted part")
        for sg in (0, -1, None):
            run.ob(f"behind[{deg},{udeg}|z={sg}]", lambda a=(deg, udeg, "ingress"), sg=sg: case(*a, sign=sg), "an occultor that is not in front does not occult")
        for zr in ((0.004, 0.02), (-0.02, -0.004), (100, 1000)):
            run.ob(f"front[{deg},{udeg}|z={zr}]", lambda a=(deg, udeg, "ingress"), zr=zr: case(*a, sign=1 if zr[0] > 0 else -1, zr=zr), "an occultor occults exactly when it is in front")
        if not quick or deg > 0:
            run.ob(f"higher-precision[{deg},{udeg}]", lambda a=(deg, udeg, "ingress"): case(*a, higher_precision=True), "the change-of-basis matrices of the multiprecision path")
        if not quick or deg < 2:
            for om, st, w in OMITTED:
                run.ob(f"omitted[{deg},{udeg}|{om}|{w}]", lambda a=(deg, udeg, st, w), om=om: case(*a, omit=om), "an omitted coordinate is zero; with no radius there is no occultor")
        for inc, obl, th in (("None", "V", "V"), ("default", "None", "None"), ("None", "None", "V"), ("V", "None", "None")):
            run.ob(f"occulted[{deg},{udeg}|inc={inc}|obl={obl}|theta={th}]", lambda a=(deg, udeg, "ingress", "generic", inc, obl, th): case(*a), "flux-weighted velocity of the unocculted part")
        run.ob(f"static[{deg},{udeg}]", lambda a=(deg, udeg): case(*a, period=False), "a surface that does not rotate has no velocity")
        run.ob(f"static-occulted[{deg},{udeg}]", lambda a=(deg, udeg, "ingress"): case(*a, period=False), "a surface that does not rotate has no velocity")
        if quick and (deg, udeg) not in ((0, 0), (0, 2), (1, 1), (2, 0)):
            continue
        for st in (None, "inside", "ingress"):
            run.ob(f"shear[{deg},{udeg}|{st}]", lambda a=(deg, udeg, st): case(*a, shear=True), "differential rotation v sin i (1 - shear sin^2 lat)")
        for sn in ("weak shear", "strong shear", "antisolar shear", "nearly pole-on", "nearly edge-on", "nearly upright"):
            run.ob(f"shear[{deg},{udeg}|{sn}]", lambda a=(deg, udeg, "ingress"), sn=sn: case(*a, shear=True, snap=sn), "differential rotation v sin i (1 - shear sin^2 lat)")
        run.ob(f"shear-static[{deg},{udeg}]", lambda a=(deg, udeg, "ingress"): case(*a, shear=True, period=False), "a surface that does not rotate has no velocity")
        run.ob(f"radius[{deg},{udeg}]", lambda a=(deg, udeg, "ingress"): case(*a, radius=True), "equatorial velocity 2 pi R / P")

    for k in SPARSE:
        for st in (None, "ingress"):
            run.ob(f"map[{k!r}|{st}]", lambda a=(k, 0 if quick else 2, st): case(*a), "a map given by some of its coefficients")

    # the velocity map, with and without differential rotation
    def vmap_(inc, obl, alpha, veq=True):
        kw = {}
        if veq:
            kw["veq"] = ctx.V("ve")
        if inc:
            kw["inc"] = ctx.V("inc")
        if obl:
            kw["obl"] = ctx.V("obl")
        if alpha:
            kw["alpha"] = ctx.V("al")
        g = ctx.call(ctx.get(f"{SDP}:rv_map_expansion"), **kw)
        n = ctx.shape(g)[0]
        if n != (16 if alpha and veq else 4):
            raise Refuted(f"{n} coefficients")

        def oracle(e):
            i = float(e["inc"]) if inc else 0.0
            o = float(e["obl"]) if obl else 0.0
            a = float(e["al"]) if alpha else 0.0
            v = float(e["ve"]) if veq else 0.0
            S = sky(None, i, o, 0.0, 0.0)
            P = sph.points(200)
            deg = 3 if n == 16 else 1
            B = np.stack([sph.evaluate(l, m, *P) for l, m in sph.lm(deg)]).T * (2 / math.sqrt(math.pi))
            pole = S[1] @ P
            f = v * math.sin(i) * (math.cos(o) * P[0] + math.sin(o) * P[1]) * (1 - a * pole**2)
            return list(np.linalg.lstsq(B, f, rcond=None)[0])

        return run.approx(ctx, g, oracle, Dom(ranges={"ve": (0.5, 3), "inc": (0.1, 3), "obl": (-3, 3), "al": (0.1, 0.9)}), "velocity map", tol=1e-9, need=1)

    for inc in (0, 1):
        for obl in (0, 1):
            for al in (0, 1):
                run.ob(f"velocity-map[inc={inc},obl={obl},alpha={al}]", lambda a=(inc, obl, al): vmap_(*a), "v sin i (cos obl x + sin obl y) (1 - alpha sin^2 lat)")
    run.ob("velocity-map[static]", lambda: vmap_(1, 1, 0, False), "no rotation, no velocity")
    run.absorb(ctx)
