"""Abstract values: arrays of terms, quantities, units, objects, exceptions."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import T


class AnalysisError(Exception):
    """the analyser cannot interpret a construct (never a verdict)"""


class PyRaise(Exception):
    """the analysed program raises"""

    def __init__(self, exc, site=None):
        self.exc = exc
        self.site = site
        super().__init__(f"{exc_name(exc)}: {exc_msg(exc)} at {site}")

    @property
    def name(self):
        return exc_name(self.exc)

    @property
    def msg(self):
        return exc_msg(self.exc)


def exc_name(exc):
    return exc.cls.name if isinstance(exc, Obj) else getattr(exc, "name", str(exc))


def exc_msg(exc):
    if isinstance(exc, Obj):
        a = exc.attrs.get("args", ())
        return " ".join(str(x) for x in a)
    return ""


class Opaque:
    """a value the analyser knows nothing about"""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"<opaque {self.why}>"


class OStr(str):
    """string whose content is not tracked"""


class HostObj:
    """base of model objects: attributes are resolved with host getattr"""


class Obj:
    __slots__ = ("cls", "attrs", "frozen", "origin", "__weakref__")

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.frozen = False
        self.origin = None

    def __repr__(self):
        return f"<{self.cls.name} {list(self.attrs)}>"


class PyClass:
    def __init__(self, name, bases, ns, module=None, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = _c3(self)
        self.fields = None  # ordered name -> FieldSpec (equinox / dataclass)
        self.builtin = None

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def subclass_of(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class {self.name}>"


def _c3(cls):
    out = [cls]
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise AnalysisError("mro")
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class FieldSpec:
    def __init__(self, default=None, has_default=False, converter=None, static=False, factory=None, init=True):
        self.default = default
        self.has_default = has_default
        self.converter = converter
        self.static = static
        self.factory = factory


# ------------------------------------------------------------------ arrays
class Arr:
    """abstract array: concrete shape, symbolic elements"""

    __slots__ = ("d", "dt", "kind", "tr", "origin", "dtt")

    def __init__(self, d, dt="f", kind="jax", tr=False, origin=None):
        if not (isinstance(d, np.ndarray) and d.dtype == object):
            a = np.empty((), dtype=object)
            if isinstance(d, np.ndarray):
                a = np.empty(d.shape, dtype=object)
                for i in np.ndindex(d.shape):
                    a[i] = tm.lift(d[i])
            else:
                a[()] = tm.lift(d)
            d = a
        self.d = d
        self.dt = dt
        self.kind = kind
        self.tr = tr
        self.origin = origin
        self.dtt = None

    @property
    def shape(self):
        return self.d.shape

    @property
    def ndim(self):
        return self.d.ndim

    @property
    def size(self):
        return self.d.size

    def item_t(self):
        if self.d.size != 1:
            raise ValueError
        return self.d.reshape(())[()]

    def flat(self):
        return list(self.d.reshape(-1))

    def __repr__(self):
        return f"Arr{self.shape}{self.dt}{'*' if self.tr else ''}[{', '.join(tm.show(t, 3) for t in self.flat()[:4])}]"


def obj_array(shape, fill=None):
    a = np.empty(shape, dtype=object)
    if fill is not None:
        for i in np.ndindex(a.shape):
            a[i] = fill
    return a


def scalar(x, dt=None, kind="py", tr=False):
    t = tm.lift(x)
    if dt is None:
        dt = "b" if t.op in tm._BOOL else "f"
    a = np.empty((), dtype=object)
    a[()] = t
    return Arr(a, dt, kind, tr)


def vecarr(ts, dt="f", kind="jax", tr=False):
    a = np.empty((len(ts),), dtype=object)
    for i, t in enumerate(ts):
        a[i] = tm.lift(t)
    return Arr(a, dt, kind, tr)


# ------------------------------------------------------------------ units
class Unit:
    """a pint unit: product of registry symbols with rational powers"""

    __slots__ = ("u",)

    def __init__(self, u=None):
        self.u = {k: v for k, v in (u or {}).items() if v != 0}

    def __eq__(self, o):
        return isinstance(o, Unit) and self.u == o.u

    def __hash__(self):
        return hash(frozenset(self.u.items()))

    def mul(self, o, s=1):
        r = dict(self.u)
        for k, v in o.u.items():
            r[k] = r.get(k, 0) + s * v
        return Unit(r)

    def pow(self, p):
        return Unit({k: v * p for k, v in self.u.items()})

    def __repr__(self):
        return "*".join(f"{k}^{v}" if v != 1 else k for k, v in sorted(self.u.items())) or "dimensionless"


class Qty:
    __slots__ = ("m", "unit")

    def __init__(self, m, unit):
        self.m = m
        self.unit = unit

    def __repr__(self):
        return f"Q({self.m!r}, {self.unit!r})"


class UnitTable:
    """symbol -> (factor term, dimension dict). Factors of the base symbols are
    opaque positive atoms, so an identity that holds here holds for every
    numeric value of the constants."""

    BASE = {"m": "L", "s": "T", "kg": "M"}

    def __init__(self):
        self.t = {}
        pi = tm.PI
        c = tm.const
        F = Fraction

        def lin(names, base, k):
            fac = tm.mul(k if isinstance(k, T) else c(k), self.t[base][0]) if base else (k if isinstance(k, T) else c(k))
            dim = dict(self.t[base][1]) if base else {}
            for n in names.split():
                self.t[n] = (fac, dim)

        def base(names, atom, dim):
            v = tm.var(atom)
            for n in names.split():
                self.t[n] = (v, dim)

        base("m meter metre meters", "u:m", {"L": 1})
        base("s second seconds sec", "u:s", {"T": 1})
        base("kg kilogram", "u:kg", {"M": 1})
        base("K kelvin", "u:K", {"Th": 1})
        lin("km kilometer", "m", 1000)
        lin("cm centimeter", "m", F(1, 100))
        lin("mm millimeter", "m", F(1, 1000))
        lin("g gram", "kg", F(1, 1000))
        lin("ms millisecond", "s", F(1, 1000))
        lin("min minute minutes", "s", 60)
        lin("h hr hour hours", "s", 3600)
        lin("d day days", "s", 86400)
        lin("yr year a years julian_year", "s", F(36525 * 864))
        lin("week", "s", 86400 * 7)
        for n in ("dimensionless", "rad", "radian", "radians"):
            self.t[n] = (tm.ONE, {})
        lin("deg degree degrees arcdeg", None, tm.div(pi, c(180)))
        lin("arcmin arcminute", None, tm.div(pi, c(180 * 60)))
        lin("arcsec arcsecond arcseconds", None, tm.div(pi, c(180 * 3600)))
        lin("mas milliarcsecond", None, tm.div(pi, c(180 * 3600 * 1000)))
        lin("percent", None, c(F(1, 100)))
        # dimension table of the astronomical file's symbols is read from the
        # repository (see checks.constants); here they are opaque atoms
        base("R_sun R_solar solar_radius", "u:R_sun", {"L": 1})
        base("AU au astronomical_unit", "u:AU", {"L": 1})
        base("R_jupiter R_jup jupiter_radius", "u:R_jup", {"L": 1})
        base("R_earth earth_radius", "u:R_earth", {"L": 1})
        base("pc parsec", "u:pc", {"L": 1})
        base("M_sun M_solar solar_mass", "u:M_sun", {"M": 1})
        base("M_jupiter M_jup jupiter_mass", "u:M_jup", {"M": 1})
        base("M_earth earth_mass", "u:M_earth", {"M": 1})
        base("gravitational_constant G", "u:G", {"L": 3, "M": -1, "T": -2})
        base("GM_sun GM_solar solar_mass_parameter", "u:GM_sun", {"L": 3, "T": -2})
        base("L_sun L_solar solar_luminosity", "u:L_sun", {"M": 1, "L": 2, "T": -3})
        self.canon = {}
        for n, (f, dim) in self.t.items():
            key = (f.id, tuple(sorted(dim.items())))
            # pint canonicalises aliases to one name; rad/dimensionless differ
            if n == "dimensionless":
                continue
            self.canon.setdefault(key, n)
        self.alias = {}
        for n, (f, dim) in self.t.items():
            if n == "dimensionless":
                continue
            key = (f.id, tuple(sorted(dim.items())))
            self.alias[n] = self.canon[key]

    def add(self, name, factor, dim):
        self.t[name] = (factor, dim)
        self.alias[name] = name

    def unit(self, name):
        if name == "dimensionless" or name == "":
            return Unit()
        if name not in self.t:
            return None
        return Unit({self.alias[name]: Fraction(1)})

    def factor(self, u):
        f = tm.ONE
        for k, v in sorted(u.u.items()):
            f = tm.mul(f, tm.pow_(self.t[k][0], tm.const(Fraction(v))))
        return f

    def dim(self, u):
        d = {}
        for k, v in u.u.items():
            for kk, vv in self.t[k][1].items():
                d[kk] = d.get(kk, 0) + vv * v
        return {k: v for k, v in d.items() if v != 0}

    def ratio(self, a, b):
        """factor converting magnitudes from unit a to unit b"""
        if a == b:
            return tm.ONE
        r = a.mul(b, -1)
        return self.factor(r)
