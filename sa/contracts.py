"""Modular summaries (contracts) used at call boundaries.

Each summary replaces the *body* of one numerical kernel by its mathematical
contract, so that the rest of the repository can be analysed against it.  The
kernels' own numerics are outside this framework (see DESIGN.md, trusted base).
A summary is keyed by (module, qualified name): if the function disappears the
caller's obligations fall back to the interpreted body."""
from __future__ import annotations

from . import terms as tm
from .values import Arr, obj_array, scalar, vecarr


def _bound(f, args, kwargs, interp):
    from .interp import Env

    env = Env(f.module, f.env, f)
    interp.bind_args(f, args, kwargs, env)
    return env.vars


def kepler(interp, f, args, kwargs):
    """(sin f, cos f) of the true anomaly at mean anomaly M, eccentricity e"""
    np_ = interp.models.np
    a = list(args) + list(kwargs.values())
    if len(a) != 2:
        return NotImplemented
    M, e = np_.A(a[0]), np_.A(a[1])
    s = np_.map(lambda x, y: tm.fn("kep_sin", x, y), M, e)
    c = np_.map(lambda x, y: tm.fn("kep_cos", x, y), M, e)
    return (s, c)


def rotation_matrices(interp, f, args, kwargs):
    """Real spherical-harmonic rotation matrices of the rotation about the axis
    (x, y, z) by theta, for degrees 0, 1, 2 (the faithful representations)."""
    v = _bound(f, args, kwargs, interp)
    deg = v["deg"]
    if not isinstance(deg, int) or deg > 2 or v.get("homogeneous"):
        return NotImplemented
    np_ = interp.models.np
    xyz = [np_.A(v[k]) for k in ("x", "y", "z")]
    tr = frozenset().union(*[a.tr or frozenset() for a in xyz + [np_.A(v["theta"])]])
    x, y, z = [a.item_t() for a in xyz]
    th = np_.A(v["theta"]).item_t()
    n = tm.sqrt(x * x + y * y + z * z)
    k = [x / n, y / n, z / n]
    s, c = tm.fn("sin", th), tm.fn("cos", th)
    one = tm.ONE
    K = [[tm.ZERO, -k[2], k[1]], [k[2], tm.ZERO, -k[0]], [-k[1], k[0], tm.ZERO]]
    S = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            t = k[i] * k[j] * (one - c) + K[i][j] * s
            S[i][j] = t + c if i == j else t
    out = []

    def mat(rows):
        d = obj_array((len(rows), len(rows)))
        for i, r in enumerate(rows):
            for j, t in enumerate(r):
                d[i, j] = tm.lift(t)
        return Arr(d, "f", "jax", tr)

    out.append(mat([[one]]))
    if deg >= 1:
        p = (1, 2, 0)
        out.append(mat([[S[p[i]][p[j]] for j in range(3)] for i in range(3)]))
    if deg >= 2:
        r3 = tm.sqrt(tm.const(3))
        h = r3 / tm.const(2)
        Z = tm.ZERO
        half = tm.const(1) / tm.const(2)
        sym = [
            [[Z, h, Z], [h, Z, Z], [Z, Z, Z]],
            [[Z, Z, Z], [Z, Z, h], [Z, h, Z]],
            [[-half, Z, Z], [Z, -half, Z], [Z, Z, one]],
            [[Z, Z, h], [Z, Z, Z], [h, Z, Z]],
            [[h, Z, Z], [Z, -h, Z], [Z, Z, Z]],
        ]

        def acc(ts):
            r = tm.ZERO
            for t in ts:
                r = r + t
            return r

        rows = []
        for a in sym:
            m = [[acc(S[p][i] * a[p][q] * S[q][j] for p in range(3) for q in range(3)) for j in range(3)] for i in range(3)]
            rows.append([
                acc(m[i][j] * b[i][j] for i in range(3) for j in range(3)) / acc(b[i][j] * b[i][j] for i in range(3) for j in range(3))
                for b in sym
            ])
        out.append(mat(rows))
    return out


def solution_vector_opaque(interp, f, args, kwargs):
    """s^T(b, r) as uninterpreted functions of (b, r)"""
    v = _bound(f, args, kwargs, interp)
    l_max = v["l_max"]
    order = v["order"]
    n = (l_max + 1) ** 2
    np_ = interp.models.np

    def impl(b, r):
        b, r = np_.A(b), np_.A(r)
        t = [tm.fn(f"sT{l_max}_{i}_{order}", b.item_t(), r.item_t()) for i in range(n)]
        return vecarr(t, "f", "jax", (b.tr or frozenset()) | (r.tr or frozenset()))

    return impl


def limb_dark_light_curve(interp, f, args, kwargs):
    """relative flux of a limb-darkened disc: an uninterpreted function of (u, |b|, |r|)
    that vanishes exactly when the discs do not overlap (the contract decided by L01)"""
    v = _bound(f, args, kwargs, interp)
    np_ = interp.models.np
    b, r, order = np_.A(v["b"]), np_.A(v["r"]), v["order"]
    u = np_.A(v["u"])
    if u.ndim > 1:
        return NotImplemented
    us = u.flat()
    while us and us[-1] is tm.ZERO:
        us.pop()

    def one(x, y):
        x, y = tm.abs_(x), tm.abs_(y)
        return tm.ite(tm.le(tm.ONE + y, x), tm.ZERO, tm.fn(f"LC{order}", x, y, *us))

    res = np_.map(one, b, r)
    res.tr = (b.tr or frozenset()) | (r.tr or frozenset()) | (u.tr or frozenset())
    res.kind = "jax"
    res.dt = "f"
    return res


LC = ("jaxoplanet.core.limb_dark", "light_curve")
KEPLER = ("jaxoplanet.core.kepler", "kepler")
ROT = ("jaxoplanet.starry.core.s2fft_rotation", "compute_rotation_matrices")
ST = ("jaxoplanet.starry.core.solution", "solution_vector")


def use(interp, *which):
    table = {"lc": (LC, limb_dark_light_curve), "kepler": (KEPLER, kepler), "rot": (ROT, rotation_matrices), "sT": (ST, solution_vector_opaque)}
    for w in which:
        k, f = table[w]
        interp.summaries[k] = f
