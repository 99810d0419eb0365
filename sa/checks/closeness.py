"""The comparison helpers (U05): which pairs of values are compared, and within which
tolerance, read off a recording model of jax's check_close."""
from __future__ import annotations

from fractions import Fraction as Fr

import mpmath

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, Undecided, expect_raise
from ..values import Arr, Qty

TU = "jaxoplanet.test_utils"
SRC = """
import jax, jax.numpy as jnp, numpy as np, equinox as eqx
from jax._src.public_test_util import compared
from jaxoplanet.units import unit_registry as ureg

def run(f, *args, **kwargs):
    compared()
    r = f(*args, **kwargs)
    return r, compared()

class Pair(eqx.Module):
    a: object
    b: object
    label: str = eqx.field(static=True, default="x")
"""
REJECT = ("AssertionError", "ValueError", "TypeError", "AttributeError", "DimensionalityError", "UndefinedUnitError")


def U05(run: Run):
    ctx = Ctx()
    ns = ctx.client(SRC)
    plain = lambda: ctx.get(f"{TU}:assert_allclose")  # noqa: E731
    quantity = lambda: ctx.get(f"{TU}:assert_quantity_allclose")  # noqa: E731
    tree = lambda: ctx.get(f"{TU}:assert_quantity_pytree_allclose")  # noqa: E731
    V, Q = ctx.V, ctx.Q

    def number(x):
        if isinstance(x, Arr):
            x = x.item_t()
        if isinstance(x, tm.T):
            if not tm.isc(x):
                raise Undecided("tolerance that is not a constant")
            x = tm.cval(x)
        return None if x is None else float(x)

    def tolerances(rtol):
        """(single, double)"""
        if isinstance(rtol, dict):
            t = {str(getattr(k, "name", k)).split(".")[-1].strip("'>"): number(v) for k, v in rtol.items()}
            return t.get("float32", 1e-6), t.get("float64", 1e-15)
        n = number(rtol)
        return (1e-6, 1e-15) if n is None else (n, n)

    def compares(f, a, b, leaves, args=(), kw=None, atol=None, rtol=None, err=None):
        """f(a, b) compares exactly these leaves: pairs of (array or quantity)"""
        _, calls = ctx.call(ns["run"], f, a, b, *args, **(kw or {}))
        got = [(ctx.flat(c[0]), ctx.flat(c[1])) for c in calls]
        want = [(ctx.flat(x.m) if isinstance(x, Qty) else ctx.flat(x), ctx.flat(y.m) if isinstance(y, Qty) else ctx.flat(y), x, y) for x, y in leaves]
        if len(got) != len(want):
            raise Refuted(f"{len(got)} pairs of values compared out of {len(want)}")
        names = set()
        for g in got:
            for t in g[0] + g[1]:
                names |= set(tm.free_vars(t))
        for w in want:
            for t in w[0] + w[1]:
                names |= set(tm.free_vars(t))
        dom = Dom(ranges={n: (0.5, 3.0) for n in names})
        free = list(range(len(want)))
        # the order of the leaves of a dictionary is not part of the claim
        for gx, gy in got:
            hit = err_ = None
            for k in free:
                wx, wy, x, y = want[k]
                if len(gx) != len(wx) or len(gy) != len(wy):
                    continue
                ratio = Fr(1)
                if isinstance(x, Qty):
                    ratio = ctx.call(ctx.client("def r(y, x): return (1.0 * y.units).to(x.units).magnitude")["r"], y, x)
                    ratio = ratio.item_t() if isinstance(ratio, Arr) else tm.lift(ratio)
                else:
                    ratio = tm.ONE
                wy_ = [tm.mul(t, ratio) for t in wy]
                try:
                    # got = s * want with one constant s for both sides (or the sides exchanged)
                    import random

                    rng = random.Random(5)
                    ss = []
                    for _ in range(3):
                        e = dom.sample(set(dom.ranges), rng)
                        v = tm.Val(e)
                        for p, q in list(zip(gx, wx)) + list(zip(gy, wy_)):
                            ss.append(v(p) / v(q))
                        run.comparisons += 1
                    swapped = []
                    if max(ss) - min(ss) > mpmath.mpf(10) ** -18 * abs(ss[0]):
                        rng = random.Random(5)
                        for _ in range(3):
                            e = dom.sample(set(dom.ranges), rng)
                            v = tm.Val(e)
                            swapped += [v(p) / v(q) for p, q in list(zip(gx, wy_)) + list(zip(gy, wx))]
                        ss = swapped
                    if max(ss) - min(ss) > mpmath.mpf(10) ** -18 * abs(ss[0]) or not ss[0] > 0:
                        continue
                except (ZeroDivisionError, TypeError) as ex:
                    err_ = ex
                    continue
                hit = k
                break
            if hit is None:
                if err_ is not None:
                    raise Undecided(f"comparison of values: {err_}")
                raise Refuted("the values compared are not the given pair in one unit")
            free.remove(hit)
        for c in calls:
            lo, hi = tolerances(c[3])
            if rtol is None:
                if not (lo <= 1e-3 and hi <= 1e-6):
                    raise Refuted(f"default relative tolerance ({lo:.2g}, {hi:.2g}) in single and double precision accepts different values")
            elif (lo, hi) != (rtol, rtol):
                raise Refuted(f"compared within rtol=({lo:.3g}, {hi:.3g}), asked for {rtol}")
            A = number(c[2]) if not isinstance(c[2], dict) else max(tolerances(c[2]))
            if atol is None:
                if A is not None and A > 1e-6:
                    raise Refuted(f"default absolute tolerance {A:.2g}")
            elif A != atol:
                raise Refuted(f"compared within atol={A}, asked for {atol}")
            if err is not None and c[4] != err:
                raise Refuted("the message is lost")
        return "congruent"

    def rejects(f, a, b, **kw):
        def go():
            r, calls = ctx.call(ns["run"], f, a, b, **kw)
            if not calls:
                raise Refuted("accepted without comparing the values")
        return expect_raise(go, REJECT, "different values")

    shapes = {"scalar": lambda n: V(n), "vector": lambda n: ctx.vec(n + "0", n + "1", n + "2"), "matrix": lambda n: ctx.arr(n, (2, 2)), "numpy": lambda n: ctx.vec(n + "0", n + "1", kind="np"), "python": lambda n: ctx.num(1.5 if n == "a" else 2.5)}
    same = "every value is compared with its counterpart"
    for s, mk in shapes.items():
        for nm, f in (("plain", plain), ("quantity", quantity), ("pytree", tree)):
            run.ob(f"arrays[{nm}|{s}]", lambda mk=mk, f=f: compares(f(), mk("a"), mk("b"), [(mk("a"), mk("b"))]), same)
    run.ob("plain[tuple]", lambda: compares(plain(), (V("a"), ctx.vec("c", "d")), (V("b"), ctx.vec("e", "f")), [(V("a"), V("b")), (ctx.vec("c", "d"), ctx.vec("e", "f"))]), same)

    units = [("m", "m"), ("d", "d"), ("R_sun", "R_sun"), ("R_sun/d", "R_sun/d"), ("rad", "rad"), ("dimensionless", "dimensionless")]
    for conv in (None, False, True):
        kw = {} if conv is None else {"convert": conv}
        for u, w in units:
            for s in ("scalar", "vector"):
                mk = shapes[s]
                for nm, f in (("quantity", quantity), ("pytree", tree)):
                    run.ob(f"{nm}[{u}|{s}|convert={conv}]", lambda mk=mk, f=f, u=u, kw=kw: compares(f(), Q(mk("a"), u), Q(mk("b"), u), [(Q(mk("a"), u), Q(mk("b"), u))], kw=kw), same)
    other = [("m", "km"), ("km", "m"), ("d", "h"), ("au", "R_sun"), ("R_sun/d", "m/s"), ("rad", "deg"), ("M_sun", "kg"), ("g/cm^3", "M_sun/R_sun^3")]
    for u, w in other:
        for nm, f in (("quantity", quantity), ("pytree", tree)):
            run.ob(f"{nm}[{u}~{w}]", lambda f=f, u=u, w=w: compares(f(), Q("a", u), Q("b", w), [(Q("a", u), Q("b", w))], kw={"convert": True}), "compared in one unit when asked to convert")
            for kw in ({}, {"convert": False}):
                run.ob(f"{nm}[{u}!={w}|{kw}]", lambda f=f, u=u, w=w, kw=kw: rejects(f(), Q("a", u), Q("a", w), **kw), "different units are different unless conversion is asked for")
    for u, w in (("m", "s"), ("rad", "m"), ("M_sun", "R_sun"), ("m", "m^2"), ("d", "1/d")):
        for nm, f in (("quantity", quantity), ("pytree", tree)):
            for kw in ({}, {"convert": True}):
                run.ob(f"{nm}[{u}!~{w}|{kw}]", lambda f=f, u=u, w=w, kw=kw: rejects(f(), Q("a", u), Q("a", w), **kw), "different dimensions are never equal")
    for nm, f in (("quantity", quantity), ("pytree", tree)):
        for kw in ({}, {"convert": True}):
            run.ob(f"{nm}[with a plain number|{kw}]", lambda f=f, kw=kw: rejects(f(), Q("a", "m"), V("a"), **kw), "a quantity is not a number")
            run.ob(f"{nm}[plain with a quantity|{kw}]", lambda f=f, kw=kw: rejects(f(), V("a"), Q("a", "m"), **kw), "a number is not a quantity")
    for nm, f in (("plain", plain), ("quantity", quantity), ("pytree", tree)):
        run.ob(f"{nm}[shapes]", lambda f=f: rejects(f(), ctx.vec("a", "b"), ctx.vec("a", "b", "c")), "different shapes are different")
        run.ob(f"{nm}[scalar and vector]", lambda f=f: rejects(f(), V("a"), ctx.vec("a", "a")), "different shapes are different")
        for q in (False, True) if nm != "plain" else (False,):
            w = (lambda n: Q(n, "m")) if q else V
            pair = lambda w=w: [(w("a"), w("b"))]  # noqa: E731
            run.ob(f"{nm}[rtol|{q}]", lambda f=f, w=w, pair=pair: compares(f(), w("a"), w("b"), pair(), kw={"rtol": ctx.num(0.25)}, rtol=0.25), "the asked relative tolerance")
            run.ob(f"{nm}[atol|{q}]", lambda f=f, w=w, pair=pair: compares(f(), w("a"), w("b"), pair(), kw={"atol": ctx.num(0.125)}, atol=0.125), "the asked absolute tolerance")
            run.ob(f"{nm}[both|{q}]", lambda f=f, w=w, pair=pair: compares(f(), w("a"), w("b"), pair(), kw={"atol": ctx.num(0.125), "rtol": ctx.num(0.5)}, atol=0.125, rtol=0.5), "the asked tolerances")
            run.ob(f"{nm}[positional|{q}]", lambda f=f, w=w, pair=pair: compares(f(), w("a"), w("b"), pair(), args=(ctx.num(0.125),), atol=0.125), "the asked tolerances")
            run.ob(f"{nm}[message|{q}]", lambda f=f, w=w, pair=pair: compares(f(), w("a"), w("b"), pair(), kw={"err_msg": "hello"}, err="hello"), "the asked message")
            if nm != "plain":
                run.ob(f"{nm}[rtol convert|{q}]", lambda f=f, w=w, pair=pair: compares(f(), w("a"), w("b"), pair(), kw={"rtol": ctx.num(0.25), "convert": True} if w is not V else {"rtol": ctx.num(0.25)}, rtol=0.25), "the asked relative tolerance")

    P = ns["Pair"]
    trees = {
        "tuple": lambda n, u: (Q(n + "1", u), V(n + "2"), Q(ctx.vec(n + "3", n + "4"), "d")),
        "dict": lambda n, u: {"x": Q(n + "1", u), "y": V(n + "2")},
        "nested": lambda n, u: {"x": [Q(n + "1", u), (V(n + "2"), {"z": Q(n + "3", "d")})], "y": V(n + "4")},
        "module": lambda n, u: ctx.call(P, Q(n + "1", u), V(n + "2")),
        "list of modules": lambda n, u: [ctx.call(P, Q(n + "1", u), V(n + "2")), ctx.call(P, V(n + "3"), None)],
        "none": lambda n, u: (None, Q(n + "1", u), None),
        "one": lambda n, u: [V(n + "1")],
    }
    parts = {
        "tuple": lambda n, u: [Q(n + "1", u), V(n + "2"), Q(ctx.vec(n + "3", n + "4"), "d")],
        "dict": lambda n, u: [Q(n + "1", u), V(n + "2")],
        "nested": lambda n, u: [Q(n + "1", u), V(n + "2"), Q(n + "3", "d"), V(n + "4")],
        "module": lambda n, u: [Q(n + "1", u), V(n + "2")],
        "list of modules": lambda n, u: [Q(n + "1", u), V(n + "2"), V(n + "3")],
        "none": lambda n, u: [Q(n + "1", u)],
        "one": lambda n, u: [V(n + "1")],
    }
    for t, mk in trees.items():
        pr = parts[t]
        run.ob(f"tree[{t}]", lambda mk=mk, pr=pr: compares(tree(), mk("a", "m"), mk("b", "m"), list(zip(pr("a", "m"), pr("b", "m")))), "every leaf is compared with its counterpart")
        run.ob(f"tree[{t}|rtol]", lambda mk=mk, pr=pr: compares(tree(), mk("a", "m"), mk("b", "m"), list(zip(pr("a", "m"), pr("b", "m"))), kw={"rtol": ctx.num(0.25)}, rtol=0.25), "the asked tolerance for every leaf")
        if t != "one":
            run.ob(f"tree[{t}|convert]", lambda mk=mk, pr=pr: compares(tree(), mk("a", "m"), mk("b", "km"), list(zip(pr("a", "m"), pr("b", "km"))), kw={"convert": True}), "compared in one unit when asked to convert")
            run.ob(f"tree[{t}|units]", lambda mk=mk: rejects(tree(), mk("a", "m"), mk("a", "km")), "different units are different unless conversion is asked for")
            run.ob(f"tree[{t}|dimensions]", lambda mk=mk: rejects(tree(), mk("a", "m"), mk("a", "s"), convert=True), "different dimensions are never equal")
    bad = {
        "length": (lambda: (V("a"), V("b")), lambda: (V("a"), V("b"), V("c"))),
        "shorter": (lambda: (V("a"), V("b")), lambda: (V("a"),)),
        "empty": (lambda: (V("a"),), lambda: ()),
        "keys": (lambda: {"x": V("a")}, lambda: {"y": V("a")}),
        "type": (lambda: (V("a"), V("b")), lambda: [V("a"), V("b")]),
        "none": (lambda: (V("a"), None), lambda: (V("a"), V("b"))),
        "nesting": (lambda: ((V("a"), V("b")), V("c")), lambda: (V("a"), (V("b"), V("c")))),
        "module": (lambda: ctx.call(P, V("a"), V("b")), lambda: (V("a"), V("b"))),
        "static": (lambda: ctx.call(P, V("a"), V("b")), lambda: ctx.call(P, V("a"), V("b"), "y")),
        "last leaf": (lambda: (Q("a", "m"), Q("b", "m")), lambda: (Q("a", "m"), Q("b", "s"))),
        "last shape": (lambda: (Q("a", "m"), V("b")), lambda: (Q("a", "m"), ctx.vec("b", "c"))),
    }
    for t, (x, y) in bad.items():
        run.ob(f"tree-differs[{t}]", lambda x=x, y=y: rejects(tree(), x(), y()), "trees of different structure are different")
        run.ob(f"tree-differs[{t}|reversed]", lambda x=x, y=y: rejects(tree(), y(), x()), "trees of different structure are different")
    run.absorb(ctx)
