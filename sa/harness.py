"""Obligation framework shared by the property checks.

A check is a list of obligations.  An obligation interprets some entry points of
/repo abstractly and compares the resulting value-graph nodes with the ones the
property demands.  Outcome per obligation:

  proved      both sides are the same value number / same canonical form
  congruent   not syntactically equal, no separating valuation among the probes
              of the random-interpretation domain (Gulwani & Necula)
  holds       a structural fact was established (effect, event, raise, shape)
  refuted     a separating valuation / offending construct was found
  undecided   the analysis lost precision; never reported as a violation
"""
from __future__ import annotations

import hashlib
import itertools
import os
import random
import traceback
from fractions import Fraction

import mpmath
import numpy as np

from . import terms as tm
from .interp import AbstractBranch, Interp, fmt_site
from .terms import T
from .values import AnalysisError, Arr, Obj, Opaque, PyRaise, Qty, Unit, scalar, vecarr

REL = mpmath.mpf(10) ** -9


class Refuted(Exception):
    def __init__(self, msg, site=None, sites=(), valuation=None):
        super().__init__(msg)
        self.msg = msg
        self.site = site
        self.sites = list(sites)
        self.valuation = valuation


class Undecided(Exception):
    pass


class Ctx:
    """one abstract state: an interpreter plus convenience constructors"""

    def __init__(self, *contracts):
        from . import contracts as c

        self.it = Interp()
        c.use(self.it, *contracts)

    # constructors
    def V(self, name, traced=False, kind="jax", dt="f"):
        return scalar(tm.var(name), dt, kind, frozenset({name}) if traced else frozenset())

    def vec(self, *names, traced=False, kind="jax"):
        ts = [tm.var(n) if isinstance(n, str) else tm.lift(n) for n in names]
        return vecarr(ts, "f", kind, frozenset(n for n in names if isinstance(n, str)) if traced else frozenset())

    def arr(self, name, shape, traced=False, kind="jax"):
        """array of distinct variables name[i,j]"""
        from .values import obj_array

        d = obj_array(tuple(shape))
        for idx in np.ndindex(*shape):
            d[idx] = tm.var(f"{name}[{','.join(map(str, idx))}]")
        return Arr(d, "f", kind, frozenset({name}) if traced else frozenset())

    def client(self, src):
        """interpret a piece of client code (a caller of the library) and return
        its namespace; the code is part of the property, not of /repo"""
        import ast
        import textwrap

        from .interp import Module

        m = Module("client", None)
        m.rel = "<client>"
        m.ns["__name__"] = "client"
        m.tree = ast.parse(textwrap.dedent("import jax\nimport jax.numpy as jnp\nimport numpy as np\nimport jpu.numpy as jnpu\n") + textwrap.dedent(src), "<client>")
        self.it.stack.append(("<client>", "<module>"))
        try:
            self.it.exec_block(m.tree.body, m.env)
        finally:
            self.it.stack.pop()
        return m.ns

    def num(self, x, kind="py"):
        return scalar(tm.const(x), "f", kind)

    def Q(self, m, unit):
        u = unit if isinstance(unit, Unit) else self.unit(unit)
        if isinstance(m, str):
            m = self.V(m)
        return Qty(m, u)

    def unit(self, spec):
        """'m/s' style: product of names with ^powers"""
        if isinstance(spec, Unit):
            return spec
        u = Unit()
        for part in spec.replace(" ", "").replace("/", "*/").split("*"):
            if not part:
                continue
            s = 1
            if part[0] == "/":
                s, part = -1, part[1:]
            p = 1
            if "^" in part:
                part, p = part.split("^")
                p = Fraction(p)
            if part == "1" or part == "dimensionless":
                continue
            w = self.table.unit(part)
            if w is None:
                raise KeyError(part)
            u = u.mul(w.pow(Fraction(p)), s)
        return u

    @property
    def table(self):
        return self.it.models.ut

    # operations
    def get(self, d):
        try:
            return self.it.get(d)
        except PyRaise as e:
            raise AnchorVanished(f"{d}: {e.name} {e.msg}")

    def call(self, f, *a, **k):
        return self.it.call(f, list(a), k)

    def attr(self, o, n):
        return self.it.getattr(o, n)

    def meth(self, o, n, *a, **k):
        return self.it.call(self.it.getattr(o, n), list(a), k)

    def fac(self, unit):
        return self.table.factor(self.unit(unit))

    # observation: physical terms (magnitude times unit factor)
    def phys(self, x, dim=None):
        """flat list of terms with units folded in"""
        if isinstance(x, Qty):
            if dim is not None and self.table.dim(x.unit) != self.table.dim(self.unit(dim)):
                raise Refuted(f"result has units {x.unit!r}, expected dimension of {dim}")
            f = self.table.factor(x.unit)
            return [tm.mul(t, f) for t in self.flat(x.m)]
        return self.flat(x)

    def mag(self, x, unit):
        if not isinstance(x, Qty):
            raise Refuted(f"result is not a Quantity (expected units {unit})")
        if self.table.dim(x.unit) != self.table.dim(self.unit(unit)):
            raise Refuted(f"result has units {x.unit!r}, expected {unit}")
        f = self.table.ratio(x.unit, self.unit(unit))
        return [tm.mul(t, f) for t in self.flat(x.m)]

    def flat(self, x):
        if isinstance(x, Arr):
            return x.flat()
        if isinstance(x, bool):
            return [tm.boolean(x) if False else tm.const(int(x))]
        if isinstance(x, (int, Fraction)):
            return [tm.const(x)]
        if isinstance(x, T):
            return [x]
        if isinstance(x, Qty):
            return self.phys(x)
        if isinstance(x, (tuple, list)):
            return [t for y in x for t in self.flat(y)]
        if x is None:
            raise Refuted("result is None where a number is required")
        if isinstance(x, Opaque):
            raise Undecided(f"value unknown to the analysis: {x}")
        if isinstance(x, np.ndarray):
            return [tm.lift(v) for v in x.reshape(-1)]
        from .npmodel import Sparse

        if isinstance(x, Sparse):
            return x.arr.flat()
        raise Undecided(f"cannot observe {type(x).__name__}")

    def shape(self, x):
        if isinstance(x, Qty):
            return self.shape(x.m)
        if isinstance(x, Arr):
            return x.shape
        return ()


class AnchorVanished(Exception):
    pass


# ------------------------------------------------------------------ oracles
_GL = {}


def gl_env(order):
    if order not in _GL:
        mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
        mp.dps = 40
        d = {}
        # nodes of the Legendre polynomial by Newton iteration from numpy's
        x0, _ = np.polynomial.legendre.leggauss(order)
        for i, x in enumerate(x0):
            x = mp.mpf(float(x))
            for _ in range(4):
                p0, p1 = mp.mpf(1), x
                for k in range(2, order + 1):
                    p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
                if order == 1:
                    p0, p1 = mp.mpf(1), x
                dp = order * (x * p1 - p0) / (x * x - 1)
                x = x - p1 / dp
            p0, p1 = mp.mpf(1), x
            for k in range(2, order + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = order * (x * p1 - p0) / (x * x - 1)
            d[f"gl:x{order}_{i}"] = x
            d[f"gl:w{order}_{i}"] = 2 / ((1 - x * x) * dp * dp)
        _GL[order] = d
    return _GL[order]


UNIT_ATOMS = ("u:m", "u:s", "u:kg", "u:K", "u:R_sun", "u:AU", "u:R_jup", "u:R_earth", "u:pc", "u:M_sun", "u:M_jup",
              "u:M_earth", "u:G", "u:GM_sun", "u:L_sun")


class Dom:
    """a box domain for the free variables with optional fixed strata"""

    def __init__(self, ranges=None, default=(0.2, 0.9), fixed=None, constraint=None, gl=()):
        self.ranges = dict(ranges or {})
        self.default = default
        self.fixed = dict(fixed or {})
        self.constraint = constraint
        self.gl = gl

    def sample(self, names, rng):
        env = {}
        for n in sorted(names):
            if n in self.fixed:
                v = self.fixed[n]
                env[n] = v
                continue
            if n == "@eps":
                env[n] = mpmath.mpf(2) ** -52
                continue
            if n.startswith("gl:"):
                o = int(n[4:].split("_")[0])
                env[n] = gl_env(o)[n]
                continue
            if n == "u:s" and n not in self.ranges:
                # the day is of order one in every canonical unit
                env[n] = (mpmath.mpf(9) / 10 + mpmath.mpf(rng.random()) / 5) / 86400
                continue
            if n.startswith("u:") and n not in self.ranges:
                env[n] = mpmath.mpf(rng.randint(700, 1500)) / 1000 + mpmath.mpf(rng.random()) * mpmath.mpf("1e-4")
                continue
            r = self.ranges.get(n)
            if r is None:
                for k, v in self.ranges.items():
                    if k.endswith("*") and n.startswith(k[:-1]):
                        r = v
                        break
            if r is None:
                r = self.default
            if callable(r):
                env[n] = r(env, rng)
                continue
            if isinstance(r, (list,)):
                env[n] = rng.choice(r)
                continue
            lo, hi = r
            env[n] = mpmath.mpf(lo) + (mpmath.mpf(hi) - mpmath.mpf(lo)) * mpmath.mpf(rng.random())
        return env


def seed_for(*key):
    s = os.environ.get("VERIF_SEED", "1")
    return int.from_bytes(hashlib.sha256(("|".join(map(str, key)) + s).encode()).digest()[:8], "big")


PROBES = {"quick": 6, "thorough": 24}
TIER = os.environ.get("VERIF_TIER", "quick")


def isnan(v):
    return (not isinstance(v, bool)) and v != v


def near(a, b, rel=REL):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if a == b:
        return True
    try:
        return abs(a - b) <= rel * (1 + max(abs(a), abs(b))) if max(abs(a), abs(b)) < mpmath.inf else False
    except TypeError:
        return False


def fmt(v):
    if isinstance(v, bool):
        return str(v)
    return mpmath.nstr(v, 12)


class Run:
    """collects the outcome of one property"""

    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.results = []  # dicts
        self.comparisons = 0
        self.probes = 0
        self.analysed = {}
        self.coverage = {}
        self.rules = {}
        self.only = None

    # -------------------------------------------------------- comparisons
    def equal(self, ctx, got, want, dom=None, what="value", rel=REL, probes=None, allow_nan=False, need=2):
        """got/want: lists of terms (or anything ctx.flat understands)"""
        g = got if isinstance(got, list) and all(isinstance(x, T) for x in got) else ctx.flat(got)
        w = want if isinstance(want, list) and all(isinstance(x, T) for x in want) else ctx.flat(want)
        if len(g) != len(w):
            if len(w) == 1 and len(g) > 1:
                w = w * len(g)
            elif len(g) == 1 and len(w) > 1:
                raise Refuted(f"{what}: got 1 element where {len(w)} are required")
            else:
                raise Refuted(f"{what}: {len(g)} elements, expected {len(w)}")
        status = "proved"
        todo = []
        for i, (a, b) in enumerate(zip(g, w)):
            self.comparisons += 1
            if a is b:
                continue
            todo.append((i, a, b))
        if not todo:
            return status
        dom = dom or Dom()
        ops = tm.opaques(*[t for _, a, b in todo for t in (a, b)])
        if ops and any(o.startswith("?") for o in ops):
            raise Undecided(f"{what}: opaque {sorted(ops)[:3]}")
        names = tm.free_vars(*[t for _, a, b in todo for t in (a, b)])
        n = probes or PROBES[self.tier]
        rng = random.Random(seed_for(self.prop, what))
        valid = 0
        tries = 0
        while valid < n and tries < 6 * n + 20:
            tries += 1
            env = dom.sample(names, rng)
            if dom.constraint is not None and not dom.constraint(env):
                continue
            v = tm.Val(env)
            ok = False
            for i, a, b in todo:
                vb = v(b)
                if isnan(vb) and not allow_nan:
                    continue
                va = v(a)
                ok = True
                if not near(va, vb, rel):
                    sites = tm.slice_sites(a)
                    raise Refuted(
                        f"{what}[{i}]: the code computes {fmt(va)} where the property requires {fmt(vb)}",
                        site=a.site,
                        sites=sites,
                        valuation={k: (str(x) if isinstance(x, bool) else mpmath.nstr(mpmath.mpf(x), 15)) for k, x in env.items() if not k.startswith("gl:")},
                    )
            valid += ok
            self.probes += ok
        if valid < need:
            raise Undecided(f"{what}: only {valid} valid probes")
        return "congruent"

    def approx(self, ctx, got, oracle, dom, what="value", tol=1e-7, probes=None, need=2, allow_nan=False):
        """got: terms; oracle(env) -> list of numbers (an independent numerical
        definition, evaluated by the analyser itself).  Refuted only when the two
        differ by more than tol, i.e. orders of magnitude above the error of both."""
        g = got if isinstance(got, list) and all(isinstance(x, T) for x in got) else ctx.flat(got)
        ops = tm.opaques(*g)
        if ops and any(o.startswith("?") for o in ops):
            raise Undecided(f"{what}: opaque {sorted(ops)[:3]}")
        names = tm.free_vars(*g) | set(dom.ranges) - {k for k in dom.ranges if k.endswith("*")}
        n = probes or PROBES[self.tier]
        rng = random.Random(seed_for(self.prop, what))
        valid = tries = 0
        while valid < n and tries < 6 * n + 20:
            tries += 1
            env = dom.sample(names, rng)
            if dom.constraint is not None and not dom.constraint(env):
                continue
            want = oracle(env)
            if len(want) != len(g):
                raise Refuted(f"{what}: {len(g)} elements, expected {len(want)}", site=g[0].site if g else None)
            v = tm.Val(env)
            for i, (a, w) in enumerate(zip(g, want)):
                self.comparisons += 1
                va = v(a)
                if isinstance(va, bool):
                    va = mpmath.mpf(int(va))
                if allow_nan and w != w and isnan(va):
                    continue
                if isnan(va) or not abs(va - w) <= tol * (1 + abs(w)):
                    raise Refuted(
                        f"{what}[{i}]: the code computes {fmt(va)} where the property requires {fmt(mpmath.mpf(w))} (tolerance {tol})",
                        site=a.site, sites=tm.slice_sites(a),
                        valuation={k: mpmath.nstr(mpmath.mpf(x), 15) for k, x in env.items() if not k.startswith("gl:") and not isinstance(x, bool)},
                    )
            valid += 1
            self.probes += 1
        if valid < need:
            raise Undecided(f"{what}: only {valid} valid probes")
        return "congruent"

    # -------------------------------------------------------- obligations
    def ob(self, name, fn, rule=""):
        if self.only and not name.startswith(self.only):
            return
        rec = {"obligation": name, "rule": rule}
        try:
            st = fn()
            rec["status"] = st if isinstance(st, str) else "holds"
        except Refuted as e:
            rec.update(status="refuted", detail=e.msg, site=fmt_site(e.site) if e.site else None,
                       sites=[fmt_site(s) for s in e.sites], valuation=e.valuation)
        except AbstractBranch as e:
            rec.update(status="undecided", detail=f"Python branch on abstract value: {e}")
        except PyRaise as e:
            rec.update(status="refuted", detail=f"the code raises {e.name}: {e.msg}", site=fmt_site(e.site) if e.site else None, sites=[])
        except (Undecided, AnalysisError) as e:
            rec.update(status="undecided", detail=f"{type(e).__name__}: {e}")
        except AnchorVanished as e:
            rec.update(status="anchor", detail=str(e))
        except RecursionError:
            rec.update(status="undecided", detail="recursion")
        except Exception as e:  # engine defect: lost precision, never an alarm
            rec.update(status="undecided", detail=f"engine: {type(e).__name__}: {e}", trace=traceback.format_exc(limit=-6))
        self.results.append(rec)
        return rec

    def absorb(self, ctx):
        for k, v in ctx.it.analysed.items():
            self.analysed[k] = self.analysed.get(k, 0) + v


def raises(fn, names=None):
    """True if the abstract execution definitely raises one of names"""
    try:
        fn()
    except PyRaise as e:
        if names is None or e.name in names:
            return e
        raise Refuted(f"raises {e.name} ({e.msg}) instead of {'/'.join(names)}", site=e.site)
    return None


def expect_raise(fn, names, what):
    e = raises(fn, names)
    if e is None:
        raise Refuted(f"{what}: accepted, but must be rejected with {'/'.join(names)}")
    return "holds"


def norm(vals):
    return vals
