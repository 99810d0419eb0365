"""What show_surface and graticule draw (S09), read off a recording model of the axes."""
from __future__ import annotations

import math
import random

import mpmath
import numpy as np

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, Undecided, expect_raise, seed_for
from ..values import Arr
from . import disc, sph
from .starry import SORB, SURF, mk_surface, mk_ylm, sky, surf_env, surf_ranges, yvec

KEPM = "jaxoplanet.orbits.keplerian"
UTI = "jaxoplanet.starry.utils"
VIS = "jaxoplanet.starry.visualization"
DRAW = """
import matplotlib.pyplot as plt

def draw(f, where, *args, **kwargs):
    '''f draws on the axes `where`: those it is given, or the current ones'''
    if where == "given":
        ax, other = plt.axes(), plt.axes()
        return f(*args, ax=ax, **kwargs), ax, other
    other, ax = plt.axes(), plt.axes()
    if where == "none":
        return f(*args, ax=None, **kwargs), ax, other
    return f(*args, **kwargs), ax, other

def positional(f, *args, **kwargs):
    ax, other = plt.axes(), plt.axes()
    return f(*args, **kwargs), ax, other

def share(data):
    data = jnp.asarray(data)
    c = data.shape[0] // 2
    return data / data[c, c]
"""


class Figure:
    """numbers recorded on an axes, at one valuation"""

    def __init__(self, ctx, ax, env):
        v = tm.Val(env)
        num = lambda t: (lambda x: float(int(x)) if isinstance(x, bool) else (math.nan if isinstance(x, mpmath.mpc) and x.imag else float(mpmath.re(x))))(v(t))  # noqa: E731
        arr = lambda a: np.array([num(t) for t in ctx.flat(a)])  # noqa: E731
        self.num = lambda a: float(arr(a)[0])  # noqa: E731
        un = ctx.attr(ax, "unknown")
        if un:
            raise Undecided(f"axes methods without a model: {un}")
        self.curves = []
        for l in ctx.attr(ax, "lines"):
            k = dict(ctx.attr(l, "kwargs"))
            if ctx.attr(l, "fmt") is not None:
                raise Undecided("format string")
            k = {{"color": "c", "linewidth": "lw"}.get(a, a): b for a, b in k.items()}
            self.curves.append((arr(ctx.attr(l, "x")), arr(ctx.attr(l, "y")), k))
        self.limits = {a: tuple(self.num(x) for x in b) for a, b in ctx.attr(ax, "limits").items()}


def lines_of(S, R, lats, lons, curves, what, reach, skip=lambda x, y: False):
    """the curves are exactly the visible parts of these parallels and meridians"""
    found = {("lat", i): [] for i in range(len(lats))} | {("lon", i): [] for i in range(len(lons))}
    for x, y, k in curves:
        ok = np.isfinite(x) & np.isfinite(y)
        if not ok.any():
            continue
        r2 = (x * x + y * y) / R**2
        if (r2[ok] > 1 + 1e-9).any():
            raise Refuted(f"{what}: a line leaves the disc of radius {R}: it reaches {math.sqrt(r2[ok].max()) * R:.6g}")
        z = np.sqrt(np.clip(1 - np.where(ok, r2, 1), 0, None))
        use = ok & (z > 1e-3)
        m = S @ np.array([x[use] / R, y[use] / R, z[use]])
        hit = None
        for i, la in enumerate(lats):
            if (abs(m[1] - math.sin(la)) < 1e-6).all():
                hit = ("lat", i)
                found[hit].append((x, y, ok))
        for i, lo in enumerate(lons):
            e = np.array([math.sin(lo), 0, math.cos(lo)])  # body direction of the meridian on the equator
            f = np.array([math.cos(lo), 0, -math.sin(lo)])
            if (abs(f @ m) < 1e-6).all() and (e @ m > -1e-6).all():
                hit = ("lon", i)
                found[hit].append((x, y, ok))
        if hit is None:
            j = int(np.argmax(use))
            raise Refuted(f"{what}: a drawn line through ({x[j]:.6g}, {y[j]:.6g}) is no visible part of any of the parallels or meridians (there: latitude {math.degrees(math.asin(max(-1, min(1, m[1][0])))):.3f}, longitude {math.degrees(math.atan2(m[0][0], m[2][0])):.3f})")
    for key, parts in found.items():
        t = np.linspace(-math.pi, math.pi, 81) if key[0] == "lat" else np.linspace(-math.pi / 2, math.pi / 2, 41)
        la, lo = (np.full_like(t, lats[key[1]]), t) if key[0] == "lat" else (t, np.full_like(t, lons[key[1]]))
        v = S.T @ np.array([np.cos(la) * np.sin(lo), np.sin(la), np.cos(la) * np.cos(lo)])
        segs = []
        for x, y, ok in parts:
            for q in range(len(x) - 1):
                if ok[q] and ok[q + 1]:
                    segs.append((x[q], y[q], x[q + 1], y[q + 1]))
        segs = np.array(segs) / R if segs else np.zeros((0, 4))
        for px, py, pz in v.T[v.T[:, 2] > 2.2 * reach]:
            if len(segs):
                d = segs[:, 2:] - segs[:, :2]
                L = np.maximum((d * d).sum(1), 1e-30)
                w = np.clip(((px - segs[:, 0]) * d[:, 0] + (py - segs[:, 1]) * d[:, 1]) / L, 0, 1)
                dist = np.hypot(segs[:, 0] + w * d[:, 0] - px, segs[:, 1] + w * d[:, 1] - py).min()
            else:
                dist = math.inf
            if not dist < reach**2 / 4 + 1e-6:
                deg = math.degrees((lats if key[0] == "lat" else lons)[key[1]])
                raise Refuted(f"{what}: the visible {'parallel' if key[0] == 'lat' else 'meridian'} at {deg:.1f} degrees is not drawn through ({px * R:.6g}, {py * R:.6g})")


def is_circle(x, y, R):
    if not (np.isfinite(x).all() and np.isfinite(y).all()) or len(x) < 8:
        return False
    if (abs(np.hypot(x, y) - R) > 1e-6 * R).any():
        return False
    a = np.sort(np.unwrap(np.arctan2(y, x)))
    return a[-1] - a[0] > 2 * math.pi - 1.0 and np.diff(a).max() < 1.0


def S09(run: Run):
    ctx = Ctx()
    quick = run.tier == "quick"
    ns = ctx.client(DRAW)
    N = 1 if quick else 3
    graticule = lambda: ctx.get(f"{UTI}:graticule")  # noqa: E731
    show = lambda: ctx.get(f"{VIS}:show_surface")  # noqa: E731

    def at(name, dom, body):
        """body(env) on sampled valuations"""
        rng = random.Random(seed_for(run.prop, name))
        for _ in range(N):
            env = dom.sample(set(dom.ranges), rng)
            run.comparisons += 1
            try:
                body(env)
            except Refuted as e:
                e.valuation = {k: mpmath.nstr(mpmath.mpf(x), 12) for k, x in env.items()}
                raise
            run.probes += 1
        return "congruent"

    def equally(n):
        n_lat, n_lon = (n, 2 * n) if isinstance(n, int) else n
        return [math.pi / 2 - math.pi * i / n_lat for i in range(n_lat + 1)], [math.pi / 2 - 2 * math.pi * i / n_lon for i in range(n_lon)]

    def judge(fig, S, R, n, pts, white, style=None, others=0, what="graticule"):
        """curves of the axes: graticule, contour and white border"""
        black, border, limb = [], [], []
        for x, y, k in fig.curves:
            for a in ("lw", "alpha"):
                if isinstance(k.get(a), (int, float)) and not k[a] > 0:
                    raise Refuted(f"{what}: line drawn invisibly, {a}={k[a]}")
            if k.get("c") in ("w", "white") and (style or {}).get("c") not in ("w", "white"):
                border.append((x, y, k))
            else:
                for a, b in (style or {}).items():
                    if (fig.num(k[a]) if isinstance(k.get(a), Arr) else k.get(a)) != b:
                        raise Refuted(f"{what}: line drawn with {a}={k.get(a)}, asked for {b}")
                (limb if is_circle(x, y, R) else black).append((x, y, k))
        if n is None:
            if fig.curves:
                raise Refuted(f"{what}: lines drawn though none were asked for")
            return
        if not limb:
            raise Refuted(f"{what}: the contour of the body (radius {R}) is not drawn")
        if white and not any(is_circle(x, y, R) for x, y, k in border):
            raise Refuted(f"{what}: no white border of radius {R}")
        if not white and border:
            raise Refuted(f"{what}: white border drawn though not asked for")
        lats, lons = equally(n)
        lines_of(S, R, lats, lons, black, what, 2 * math.pi / (pts - 2))

    def clean(ctx, other):
        if ctx.attr(other, "lines") or ctx.attr(other, "images") or ctx.attr(other, "limits"):
            raise Refuted("drawn on other axes than those asked for")

    # -- the graticule alone
    strata = {
        "generic": {"inc": (0.2, 2.9), "obl": (-3, 3), "theta": (-7, 7)},
        "edge-on": {"inc": [mpmath.pi / 2], "obl": (-3, 3), "theta": (-7, 7)},
        "upright": {"inc": (0.2, 2.9), "obl": [mpmath.mpf(0)], "theta": (-7, 7)},
        "face-on": {"inc": [mpmath.mpf(0)], "obl": (-3, 3), "theta": (-7, 7)},
        "from below": {"inc": [+mpmath.pi], "obl": (-3, 3), "theta": (-7, 7)},
        "at rest": {"inc": [mpmath.pi / 2], "obl": [mpmath.mpf(0)], "theta": [mpmath.mpf(0)]},
        "half turn": {"inc": (0.2, 2.9), "obl": [+mpmath.pi], "theta": [+mpmath.pi]},
    }

    def grid(stratum, n=3, pts=60, R="V", where="given", white=True, style=None, theta=True):
        k = {"n": n, "pts": pts, "white_contour": white}
        rg = dict(strata[stratum])
        if R == "V":
            k["radius"] = ctx.V("R")
            rg["R"] = (0.1, 4)
        if style:
            k.update(style)
        if n == "default":
            k.pop("n")
        if pts == "default":
            k.pop("pts")
        n, pts = (6 if n == "default" else n), (100 if pts == "default" else pts)
        a = [ctx.V("inc"), ctx.V("obl")] + ([ctx.V("theta")] if theta else [])
        _, ax, other = ctx.call(ns["draw"], graticule(), where, *a, **k)
        clean(ctx, other)
        if ctx.attr(ax, "images"):
            raise Refuted("a graticule is lines only")

        def body(e):
            fig = Figure(ctx, ax, e)
            S = sky(None, float(e["inc"]), float(e["obl"]), float(e["theta"]) if theta else 0.0, 0.0)
            st = {{"color": "c", "linewidth": "lw"}.get(a, a): b for a, b in (style or {}).items()}
            judge(fig, S, float(e["R"]) if R == "V" else 1.0, n, pts, white, st)

        return at(f"{stratum}{n}{pts}{where}", Dom(ranges=rg), body)

    rule = "the lines drawn are the visible parts of the body's equally spaced parallels and meridians, and its contour"
    for st in strata:
        run.ob(f"graticule[{st}]", lambda st=st: grid(st), rule)
        if not quick:
            run.ob(f"graticule[{st}|n=6]", lambda st=st: grid(st, n=6, pts=100), rule)
    for n in (1, 2, 4, 5, (3, 4), (4, 3), (1, 5)) + (() if quick else (7, 8, 12, (2, 9))):
        run.ob(f"graticule[n={n}]", lambda n=n: grid("generic", n=n), rule)
    for pts in (24, 41, 150):
        run.ob(f"graticule[pts={pts}]", lambda pts=pts: grid("generic", pts=pts), rule)
    run.ob("graticule[defaults]", lambda: grid("generic", n="default", pts="default", R="1"), rule)
    run.ob("graticule[default rotation]", lambda: grid("generic", theta=False), rule)
    for w in ("current", "none"):
        run.ob(f"graticule[{w} axes]", lambda w=w: grid("generic", where=w), "drawn on the current axes when none are given")
    run.ob("graticule[no border]", lambda: grid("generic", white=False), "white_contour=False")
    for i, s in enumerate(({"color": "r"}, {"c": "r"}, {"linewidth": 3}, {"lw": 2, "color": "b"}, {"alpha": 0.7}, {"linestyle": "--"}, {"zorder": 4})):
        run.ob(f"graticule[{s}]", lambda s=s: grid("generic", style=s), "line properties apply to every line of the graticule")

    # -- line helpers
    def plotted(axis, shape=(2, 3, 4)):
        L = ctx.arr("L", shape, kind="np")
        _, ax, other = ctx.call(ns["draw"], ctx.get(f"{UTI}:plot_lines"), "given", L, axis=axis)
        clean(ctx, other)
        hid = [i for i in range(3) if i not in axis][0]

        def body(e):
            fig = Figure(ctx, ax, e)
            if len(fig.curves) != shape[0]:
                raise Refuted(f"{len(fig.curves)} curves drawn for {shape[0]} lines")
            for i, (x, y, _) in enumerate(fig.curves):
                for j in range(shape[2]):
                    w = [float(e[f"L[{i},{c},{j}]"]) for c in range(3)]
                    want = (math.nan, math.nan) if w[hid] < 0 else (w[axis[0]], w[axis[1]])
                    for g, t in zip((x[j], y[j]), want):
                        if (g == g) != (t == t) or (g == g and abs(g - t) > 1e-9):
                            raise Refuted(f"axes {axis}: point {w} drawn at ({x[j]:.6g}, {y[j]:.6g})")

        rg = {f"L[{i},{c},{j}]": (-1, 1) for i in range(shape[0]) for c in range(3) for j in range(shape[2])}
        return at(f"plot{axis}", Dom(ranges=rg), body)

    for axis in ((0, 1), (0, 2), (1, 2), (1, 0), (2, 1)):
        run.ob(f"plot_lines[{axis}]", lambda axis=axis: plotted(axis), "projection on two axes, hidden where the third is negative")

    def rotated(stratum, shape=(2, 3, 3)):
        L = ctx.arr("L", shape, kind="np")
        g = ctx.call(ctx.get(f"{UTI}:rotate_lines"), L, ctx.V("inc"), ctx.V("obl"), ctx.V("theta"))
        if ctx.shape(g) != shape:
            raise Refuted(f"lines of shape {shape} become {ctx.shape(g)}")

        def oracle(e):
            S = sky(None, float(e["inc"]), float(e["obl"]), float(e["theta"]), 0.0)
            out = np.zeros(shape)
            for i in range(shape[0]):
                for j in range(shape[2]):
                    # line coordinates: the third axis is the south pole, the second at longitude 0
                    a, b, c = (float(e[f"L[{i},{q},{j}]"]) for q in range(3))
                    out[i, :, j] = S.T @ np.array([a, -c, b])
            return list(out.ravel())

        rg = {f"L[{i},{c},{j}]": (-1, 1) for i in range(shape[0]) for c in range(3) for j in range(shape[2])}
        return run.approx(ctx, g, oracle, Dom(ranges={**rg, **strata[stratum]}), "rotated lines", probes=N, need=1)

    for st in strata:
        run.ob(f"rotate_lines[{st}]", lambda st=st: rotated(st), "lines turn with the body")

    # -- show_surface
    def intensity(Y, S, u, A, x, y):
        r2 = x * x + y * y
        if r2 > 1 + 1e-12:
            return math.nan
        z = math.sqrt(max(0.0, 1 - r2))
        return float(A * sph.intensity(Y, *(S @ np.array([x, y, z]))) * disc.limbdark(u)(x, y, z))

    def picture(kind, deg=1, udeg=1, inc="V", obl="V", n=3, res=5, radius=None, where="given", white=True, phase=True, include=None, rv=False, ret=False, theta=True, style=None, Rbody=None):
        k = dict(style or {})
        if theta == "V" or theta is True:
            k["theta"] = ctx.V("theta")
        if n != "default":
            k["n"] = n
        if res != "default":
            k["res"] = res
        if white is not True:
            k["white_contour"] = white
        if radius is not None:
            k["radius"] = ctx.num(radius)
        if include is not None:
            k["include_phase"] = include
        if rv:
            k["rv"] = True
        if ret:
            k["return_im"] = True
        res_, n_ = (150 if res == "default" else res), (6 if n == "default" else n)
        extra = {}
        if phase:
            extra["phase"] = ctx.V("ph")
        if rv:
            extra["period"] = ctx.V("P")
        whole = kind in ("surface", "body")
        R = 1.0 if radius is None else radius
        if whole:
            o = mk_surface(ctx, deg, udeg, inc, obl, **extra)
            if kind == "body":
                kk = {"surface": o, "period": ctx.num(1.0)}
                if Rbody is not None:
                    kk["radius"] = ctx.num(Rbody)
                    R = Rbody
                o = ctx.call(ctx.get(f"{SORB}:SurfaceBody"), **kk)
        elif kind == "ylm":
            o = mk_ylm(ctx, deg)
        elif kind == "pijk":
            o = ctx.meth(ctx.get("jaxoplanet.starry.core.polynomials:Pijk"), "from_dense", yvec(ctx, deg, "p"), degree=deg)
        else:
            o = ctx.arr("Y", ((deg + 1) ** 2,), kind="np" if kind == "numpy" else "jax")
        im, ax, other = ctx.call(ns["draw"], show(), where, o, **k)
        clean(ctx, other)
        imgs = ctx.attr(ax, "images")
        if len(imgs) != 1:
            raise Refuted(f"{len(imgs)} images drawn")
        if ret and im is not imgs[0]:
            raise Refuted("return_im=True does not return the image")
        if not ret and im is not None:
            raise Refuted("returns something though return_im is False")
        data, kw = ctx.attr(imgs[0], "data"), dict(ctx.attr(imgs[0], "kwargs"))
        if ctx.shape(data) != (res_, res_):
            raise Refuted(f"image of shape {ctx.shape(data)} for res={res_}")
        flip = kw.get("origin") != "lower"
        for a, b in (style or {}).items():
            if kw.get(a) != b:
                raise Refuted(f"imshow was not given {a}={b}")
        if rv and not style and kw.get("cmap") is None:
            raise Refuted("no diverging colours for velocities")
        if ctx.attr(ax, "visible"):
            raise Refuted("axis frame left on")

        def surf(e):
            if whole:
                s = surf_env(e, deg, udeg, inc, obl)
            else:
                s = {"inc": math.pi / 2, "obl": 0.0, "u": [], "A": 1.0, "Y": None}
                if kind == "pijk":
                    s["p"] = [float(e[f"p[{i}]"]) for i in range((deg + 1) ** 2)]
                else:
                    s["Y"] = [float(e[f"Y[{i}]"]) for i in range((deg + 1) ** 2)]
            th = float(e["theta"]) if theta else 0.0
            if whole and phase and include is not False:
                th += float(e["ph"])
            return s, sky(None, s["inc"], s["obl"], th, 0.0)

        def image(e):
            s, S = surf(e)
            out = []
            for y in np.linspace(-1, 1, res_):
                for x in np.linspace(-1, 1, res_):
                    if kind == "pijk":
                        v = math.nan if x * x + y * y > 1 + 1e-12 else poly(s["p"], deg, S, x, y)
                    else:
                        v = intensity(s["Y"], S, s["u"], s["A"], x, y)
                    if rv:
                        v *= 2 * math.pi / float(e["P"]) * math.sin(s["inc"]) * (math.cos(s["obl"]) * x + math.sin(s["obl"]) * y)
                    out.append(v)
            a = np.array(out).reshape(res_, res_)
            if not whole:
                a = a / a[res_ // 2, res_ // 2]
            return list((a[::-1] if flip else a).ravel())

        rg = surf_ranges(deg, udeg if whole else 0, flat=0.5)
        if kind == "pijk":
            rg.update({f"p[{i}]": ((0.8, 1.4) if i == 0 else (-0.15, 0.15)) for i in range((deg + 1) ** 2)})
        rg.update(theta=(-7, 7), ph=(-3, 3), P=(0.5, 5))
        dom = Dom(ranges=rg)
        g = data if whole else ctx.call(ns["share"], data)
        if res_ <= 9:
            run.approx(ctx, g, image, dom, f"image of a {kind}", tol=1e-7, probes=N, need=1, allow_nan=True)
        extent = kw.get("extent")

        def body(e):
            fig = Figure(ctx, ax, e)
            s, S = surf(e)
            if not whole and fig.num(centre(data)) <= 0:
                raise Refuted("bright and dark are exchanged")
            if extent is None:
                raise Refuted("image without extent")
            ex = [fig.num(t) for t in (extent if isinstance(extent, (tuple, list)) else [extent])] if not isinstance(extent, Arr) else [float(mpmath.re(tm.Val(e)(t))) for t in ctx.flat(extent)]
            if any(abs(a - b) > 1e-6 * R for a, b in zip(ex, (-R, R, -R, R))) or len(ex) != 4:
                raise Refuted(f"image spans {ex} for a body of radius {R}")
            for a in "xy":
                lo, hi = fig.limits.get(a, (-R, R))
                if not (lo <= -R * (1 - 1e-9) and hi >= R * (1 - 1e-9)):
                    raise Refuted(f"{a} limits ({lo}, {hi}) cut or mirror a body of radius {R}")
            if kind != "body" or n_ is None:
                judge(fig, S, R, n_, 100, white, what=f"show_surface({kind})")
                return
            # the number of lines is scaled with the size of the body
            err = None
            for q in range(1, 3 * n_ + 8):
                try:
                    judge(fig, S, R, q, 100, white, what="show_surface(body)")
                    return
                except Refuted as x:
                    err = x
            raise Refuted(f"show_surface(body): the lines are no graticule of the body with any number of lines ({err.msg})")

        return at(f"show{kind}{n}{radius}{Rbody}{where}", dom, body)

    def centre(data):
        from ..values import scalar

        c = data.shape[0] // 2
        return scalar(data.d[c, c], "f", "jax")

    def poly(p, deg, S, x, y):
        z = math.sqrt(max(0.0, 1 - x * x - y * y))
        X = S @ np.array([x, y, z])
        n, tot = 0, 0.0
        for l in range(deg + 1):
            for m in range(-l, l + 1):
                mu, nu = l - m, l + m
                i, j, kk = (mu // 2, nu // 2, 0) if nu % 2 == 0 else ((mu - 1) // 2, (nu - 1) // 2, 1)
                tot += p[n] * X[0] ** i * X[1] ** j * X[2] ** kk
                n += 1
        return tot

    rule = "the image is the intensity of the map over the disc of the body's radius, under the graticule of the same orientation"
    for kind in ("surface", "body", "ylm", "pijk", "numpy", "jax"):
        for deg in (0, 1, 2) if quick else (0, 1, 2, 3, 4):
            run.ob(f"show[{kind}|{deg}]", lambda kind=kind, deg=deg: picture(kind, deg), rule)
        run.ob(f"show[{kind}|no theta]", lambda kind=kind: picture(kind, theta=False), rule)
        run.ob(f"show[{kind}|no graticule]", lambda kind=kind: picture(kind, n=None), "n=None draws no lines")
        run.ob(f"show[{kind}|defaults]", lambda kind=kind: picture(kind, 0 if quick else 1, n="default", res="default" if not quick else 6, theta=False, where="current"), rule)
        for w in ("current", "none"):
            run.ob(f"show[{kind}|{w} axes]", lambda kind=kind, w=w: picture(kind, 0, where=w), "drawn on the current axes when none are given")
        if kind != "body":
            for R in (0.3, 1.0, 2.5):
                run.ob(f"show[{kind}|radius={R}]", lambda kind=kind, R=R: picture(kind, 0, radius=R), "the asked radius")
        run.ob(f"show[{kind}|no border]", lambda kind=kind: picture(kind, 0, white=False), "white_contour=False")
        run.ob(f"show[{kind}|returned]", lambda kind=kind: picture(kind, 0, ret=True, style={"cmap": "magma", "vmin": 0.1}), "return_im and imshow options")
    for kind in ("surface", "body"):
        for inc, obl in (("V", "None"), ("None", "V"), ("default", "V"), ("default", "None"), ("None", "None")):
            run.ob(f"show[{kind}|inc={inc}|obl={obl}]", lambda kind=kind, inc=inc, obl=obl: picture(kind, 1, inc=inc, obl=obl), rule)
        for udeg in (0, 2):
            run.ob(f"show[{kind}|udeg={udeg}]", lambda kind=kind, udeg=udeg: picture(kind, 2, udeg), rule)
        run.ob(f"show[{kind}|no phase]", lambda kind=kind: picture(kind, 1, phase=False), rule)
        run.ob(f"show[{kind}|include_phase=False]", lambda kind=kind: picture(kind, 1, include=False), "phase left out when asked")
        run.ob(f"show[{kind}|include_phase=True]", lambda kind=kind: picture(kind, 1, include=True), "phase added")
    for R in (None, 0.1, 0.7, 1.0, 2.0):
        run.ob(f"show[body|R={R}]", lambda R=R: picture("body", 1, Rbody=R), "radius of the body")
    run.ob("show[body|default radius|radius=1.7]", lambda: picture("body", 0, radius=1.7), "a body without radius is drawn with the given one")
    for deg in (0, 1, 2):
        run.ob(f"show-rv[{deg}]", lambda deg=deg: picture("surface", deg, 1, rv=True, res=4), "velocity map")
    run.ob("show-rv[cmap]", lambda: picture("surface", 1, 0, rv=True, res=4, style={"cmap": "viridis"}), "the asked colours")
    run.ob("show-rv[no phase]", lambda: picture("surface", 1, 1, rv=True, res=4, include=False), "velocity map")
    for kind in ("ylm", "numpy"):
        run.ob(f"show-rv-rejects[{kind}]", lambda kind=kind: expect_raise(lambda: picture(kind, 1, rv=True), ("AssertionError", "TypeError", "ValueError"), "rv of something without a rotation"), "rv only of surfaces")
    for res in (3, 4, 8):
        run.ob(f"show[res={res}]", lambda res=res: picture("surface", 1, 0, res=res), "any resolution")
    run.absorb(ctx)
