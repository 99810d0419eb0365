"""Oracle for a Keplerian orbit: textbook two-body geometry, written from the
documented conventions (not from the implementation), over value-graph terms in
canonical units (R_sun, M_sun, day, radian)."""
from __future__ import annotations

import itertools
import random
from fractions import Fraction

import mpmath

from .. import terms as tm
from ..harness import seed_for

V = tm.var
C = tm.const
PI = tm.PI
KEP = "jaxoplanet.orbits.keplerian"


def sin(x):
    return tm.fn("sin", x)


def cos(x):
    return tm.fn("cos", x)


AXES = {
    "size": ("P", "a"),
    "time": (None, "tt", "tp"),
    "inc": (None, "b", "i"),
    "ecc": (None, "w", "sc"),
    "asc": (None, "W", "sc"),
    "mass": ("m", None),
    "radius": ("r", None),
    "K": (None, "K"),
    "par": (None, "px"),
}


def configs(fix=None, tier="quick", limit=None, key=""):
    """the configuration partition: every (thorough) or a pairwise-covering
    (quick) set of nullness patterns of the Body arguments"""
    fix = fix or {}
    axes = {k: ((fix[k],) if k in fix and not isinstance(fix[k], (list, tuple)) else fix.get(k, v)) for k, v in AXES.items()}
    names = list(axes)
    full = [dict(zip(names, c)) for c in itertools.product(*axes.values())]
    if tier == "thorough" and limit is None:
        return full
    # greedy pairwise cover
    rng = random.Random(7)
    pairs = set()
    for a, b in itertools.combinations(names, 2):
        for x in axes[a]:
            for y in axes[b]:
                pairs.add((a, x, b, y))
    out = []
    pool = list(full)
    rng.shuffle(pool)
    pool = pool[:400]
    while pairs:
        best, bc = None, -1
        for c in pool:
            n = sum(1 for a, b in itertools.combinations(names, 2) if (a, c[a], b, c[b]) in pairs)
            if n > bc:
                best, bc = c, n
        if bc <= 0:
            # take one config per remaining pair
            a, x, b, y = next(iter(pairs))
            best = next(c for c in full if c[a] == x and c[b] == y)
        out.append(best)
        for a, b in itertools.combinations(names, 2):
            pairs.discard((a, best[a], b, best[b]))
    return out


def label(c):
    return ",".join(f"{k}={v}" for k, v in c.items() if v is not None) or "none"


class Orb:
    def __init__(self, ctx, cfg, suffix="", central=None, kind="jax"):
        self.cfg = cfg
        x = suffix
        self.x = x
        kw = {}

        def val(n):
            return ctx.V(n + x, kind=kind)

        def term(t):
            from ..values import scalar

            return scalar(t, "f", kind, frozenset())

        self.Mc, self.Rc = V("Mc"), V("Rc")
        self.m = V("m" + x) if cfg["mass"] else tm.ZERO
        self.G = ctx.table.ratio(ctx.unit("G"), ctx.unit("R_sun^3/M_sun/d^2"))
        Mt = self.Mt = self.Mc + self.m
        if cfg["size"] == "P":
            kw["period"] = val("P")
            self.P = V("P" + x)
            self.a = tm.fn("cbrt", self.G * Mt * self.P * self.P / (C(4) * PI * PI))
        else:
            kw["semimajor"] = val("a")
            self.a = V("a" + x)
            self.P = C(2) * PI * tm.sqrt(self.a * self.a * self.a / (self.G * Mt))
        e = cfg["ecc"]
        self.circular = e is None
        if e:
            self.e = V("e" + x)
            kw["eccentricity"] = val("e")
            w = V("w" + x)
            self.sw, self.cw = sin(w), cos(w)
            if isinstance(e, tuple):  # an exactly degenerate argument of periastron
                self.sw, self.cw = C(e[0]), C(e[1])
            if e == "w":
                kw["omega_peri"] = val("w")
            else:
                kw["sin_omega_peri"] = term(self.sw)
                kw["cos_omega_peri"] = term(self.cw)
        else:
            self.e, self.sw, self.cw = tm.ZERO, tm.ZERO, tm.ONE
        e_ = self.e
        ome2 = tm.ONE - e_ * e_
        self.ome2 = ome2
        # mean anomaly at inferior conjunction f = pi/2 - omega
        if self.circular:
            self.M0 = PI / C(2)
        else:
            E0 = C(2) * tm.fn("arctan2", tm.sqrt(tm.ONE - e_) * self.cw, tm.sqrt(tm.ONE + e_) * (tm.ONE + self.sw))
            if isinstance(e, tuple) and e[0] == -1:
                self.M0 = PI  # conjunction at apastron
            else:
                self.M0 = E0 - e_ * sin(E0)
        # separation on the sky at conjunction: r = a(1-e^2)/(1+e sin w)
        self.rconj = self.a * ome2 / (tm.ONE + e_ * self.sw)
        i = cfg["inc"]
        if i == "b":
            kw["impact_param"] = val("b")
            self.b = V("b" + x)
            self.ci = self.b * self.Rc / self.rconj
            self.si = tm.sqrt(tm.ONE - self.ci * self.ci)
        elif i == "i":
            kw["inclination"] = val("i")
            self.ci, self.si = cos(V("i" + x)), sin(V("i" + x))
            self.b = self.rconj * self.ci / self.Rc
        else:
            self.ci, self.si, self.b = tm.ZERO, tm.ONE, tm.ZERO
        if cfg["asc"]:
            W = V("W" + x)
            self.sW, self.cW = sin(W), cos(W)
            if cfg["asc"] == "W":
                kw["asc_node"] = val("W")
            else:
                kw["sin_asc_node"] = term(self.sW)
                kw["cos_asc_node"] = term(self.cW)
        else:
            self.sW, self.cW = tm.ZERO, tm.ONE
        if cfg["mass"]:
            kw["mass"] = val("m")
        if cfg["radius"]:
            kw["radius"] = val("r")
        self.r = V("r" + x)
        # time of inferior conjunction / periastron
        per0 = self.M0 * self.P / (C(2) * PI)
        if cfg["time"] == "tt":
            kw["time_transit"] = val("tt")
            self.tt = V("tt" + x)
            self.tp = self.tt - per0
        elif cfg["time"] == "tp":
            kw["time_peri"] = val("tp")
            self.tp = V("tp" + x)
            self.tt = self.tp + per0
        else:
            self.tt = tm.ZERO
            self.tp = self.tt - per0
        if cfg["K"]:
            kw["radial_velocity_semiamplitude"] = val("K")
            self.K = V("K" + x)
        else:
            # reflex semi-amplitude of the central body
            self.K = C(2) * PI * self.a * self.m * self.si / (Mt * self.P * tm.sqrt(ome2))
        if cfg["par"]:
            kw["parallax"] = val("px")
        self.px = V("px" + x)
        self.kw = kw
        self.central = central

    def build(self, ctx):
        if self.central is None:
            self.central = ctx.call(ctx.get(f"{KEP}:Central"), mass=ctx.V("Mc"), radius=ctx.V("Rc"))
        self.body = ctx.call(ctx.get(f"{KEP}:Body"), **self.kw)
        self.ob = ctx.call(ctx.get(f"{KEP}:OrbitalBody"), self.central, self.body)
        return self.ob

    # ---- textbook kinematics
    def anomaly(self, t):
        M = C(2) * PI * (t - self.tt) / self.P + self.M0
        if self.circular:
            return sin(M), cos(M)
        return tm.fn("kep_sin", M, self.e), tm.fn("kep_cos", M, self.e)

    def rel(self, t):
        """position of the body relative to the central, R_sun; +z to the observer"""
        sf, cf = self.anomaly(t)
        r = self.a * self.ome2 / (tm.ONE + self.e * cf)
        cu = self.cw * cf - self.sw * sf  # cos(omega + f)
        su = self.sw * cf + self.cw * sf
        X = -r * (self.cW * cu - self.sW * su * self.ci)
        Y = -r * (self.sW * cu + self.cW * su * self.ci)
        Z = r * su * self.si
        return [X, Y, Z]

    def relv(self, t_name="t"):
        t = V(t_name)
        return [tm.diff(q, t) for q in self.rel(t)]

    def dom(self):
        from ..harness import Dom

        s = self.x
        return Dom(
            ranges={
                "Mc": (0.5, 1.5), "Rc": (0.3, 0.6), "m" + s: (0.05, 0.6), "P" + s: (4, 9), "a" + s: (2.5, 6), "e" + s: _ecc,
                "w" + s: (-3, 3), "W" + s: (-3, 3), "i" + s: _inc, "b" + s: _imp, "tt" + s: (-2, 2), "tp" + s: (-2, 2),
                "t": _time, "K" + s: (0.2, 2), "px" + s: (0.2, 2), "r" + s: (0.05, 0.2),
                "u:G": (0.9, 1.3), "u:R_sun": (0.2, 0.3),
            },
        )


def _pick(*boxes):
    def draw(env, rng):
        lo, hi = boxes[rng.randrange(len(boxes))]
        return mpmath.mpf(lo) + mpmath.mpf(hi - lo) * mpmath.mpf(rng.random())

    return draw


# prograde, retrograde and out of the principal range; impact parameters of both signs
_inc = _pick((0.7, 1.5), (0.7, 1.5), (1.6, 2.6), (-1.5, -0.4), (3.4, 6.0))
# nearly circular and very eccentric; a long time before and after the reference time
_ecc = _pick((0.05, 0.7), (0.05, 0.7), (0.05, 0.7), (0.001, 0.02), (0.7, 0.95))
_time = _pick((-9, 9), (-9, 9), (-9, 9), (20000, 90000), (-90000, -20000))
_imp = _pick((0.1, 0.6), (0.1, 0.6), (-0.6, -0.1))


def neg(v):
    return [-x for x in v]


def scale(v, k):
    return [x * k for x in v]
