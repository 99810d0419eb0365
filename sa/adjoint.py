"""Reverse-mode differentiation of a value graph with the semantics of JAX.

The graph is interpreted at one valuation (mpmath, 40 digits).  Cotangents obey
IEEE rules (0 * inf = nan), a `where` sends a zero cotangent into the branch not
taken, custom derivative rules (`jvp` nodes) are transposed, integer-valued and
stopped values have no derivative.  A nan or inf that appears here appears in
`jax.grad` as well.  The reference is the derivative of the *primal* graph, from
a five point stencil evaluated on the same graph."""
from __future__ import annotations

import mpmath

from . import terms as tm
from .terms import T

mpf = mpmath.mpf
INF, NAN = mpmath.inf, mpmath.nan


def mul(a, b):
    """IEEE product"""
    if a != a or b != b:
        return NAN
    if (a == 0 and mpmath.isinf(b)) or (b == 0 and mpmath.isinf(a)):
        return NAN
    return a * b


def div(a, b):
    if a != a or b != b:
        return NAN
    if b == 0:
        if a == 0:
            return NAN
        return INF if a > 0 else -INF
    if mpmath.isinf(a) and mpmath.isinf(b):
        return NAN
    return a / b


def add(a, b):
    if a != a or b != b:
        return NAN
    if mpmath.isinf(a) and mpmath.isinf(b) and a != b:
        return NAN
    return a + b


def f(x):
    if isinstance(x, bool):
        return mpf(int(x))
    return x


def sq(x):
    return NAN if x != x else mpmath.sqrt(x) if x >= 0 else NAN


class Val(tm.Val):
    """valuation with the exponent range of a floating point format: a value
    beyond the largest number is infinite, one below the smallest is zero"""

    def __init__(self, env, bits=64, dps=40):
        super().__init__(env, dps)
        self.huge, self.tiny = {64: (mpf(2) ** 1024, mpf(2) ** -1074), 32: (mpf(2) ** 128, mpf(2) ** -149)}[bits]

    def _ev(self, n):
        r = super()._ev(n)
        if hasattr(r, "_mpf_") and mpmath.isfinite(r):
            if abs(r) >= self.huge:
                return INF if r > 0 else -INF
            if r != 0 and abs(r) < self.tiny:
                return mpf(0)
        return r


class NoRule(Exception):
    pass


def rules(n, v):
    """[(argument term, function cotangent -> cotangent)]"""
    op, A = n.op, n.args
    val = lambda t: f(v(t))  # noqa: E731
    if op == "add":
        return [(A[0], lambda c: c), (A[1], lambda c: c)]
    if op == "sub":
        return [(A[0], lambda c: c), (A[1], lambda c: -c)]
    if op == "neg":
        return [(A[0], lambda c: -c)]
    if op == "mul":
        return [(A[0], lambda c: mul(c, val(A[1]))), (A[1], lambda c: mul(c, val(A[0])))]
    if op == "div":
        x, y = val(A[0]), val(A[1])
        return [(A[0], lambda c: div(c, y)), (A[1], lambda c: mul(mul(-c, x), div(mpf(1), mul(y, y))))]
    if op == "pow":
        x, p = val(A[0]), val(A[1])

        def dx(c):
            if p == 0:
                return mpf(0)
            q = p - 1
            if x == 0 and q < 0:
                w = INF
            elif x == 0 and q == 0:
                w = mpf(1)
            else:
                w = mpmath.power(x, q)
                if isinstance(w, mpmath.mpc):
                    w = NAN
            return mul(c, mul(p, w))

        def dp(c):
            lg = -INF if x == 0 else (mpmath.log(x) if x > 0 else NAN)
            if x == 0 and p > 0:
                return mpf(0)
            return mul(c, mul(val(n), lg))

        return [(A[0], dx), (A[1], dp)]
    if op == "ite":
        t = bool(v(A[0]))
        return [(A[1], lambda c: c if t else mpf(0)), (A[2], lambda c: mpf(0) if t else c)]
    if op in ("max", "min"):
        x, y = val(A[0]), val(A[1])
        first = x > y if op == "max" else x < y
        w = mpf(1) / 2 if x == y else (mpf(1) if first else mpf(0))
        return [(A[0], lambda c: mul(c, w)), (A[1], lambda c: mul(c, 1 - w))]
    if op == "abs":
        x = val(A[0])
        return [(A[0], lambda c: mul(c, NAN if x != x else mpmath.sign(x)))]
    if op == "fn":
        return fn_rules(n, v, val)
    if op in ("lt", "le", "eq", "and", "or", "not"):
        return []
    raise NoRule(op)


def fn_rules(n, v, val):
    name, *a = n.args
    if name in ("floor", "ceil", "sign", "rint", "floordiv", "trunc"):
        return []
    if name == "interp":
        return interp_rules(n, v, val)
    if name == "arctan2":
        y, x = val(a[0]), val(a[1])
        d = x * x + y * y
        return [(a[0], lambda c: mul(c, div(x, d))), (a[1], lambda c: mul(c, div(-y, d)))]
    if name == "mod":
        q = mpmath.floor(val(a[0]) / val(a[1])) if val(a[1]) != 0 else NAN
        return [(a[0], lambda c: c), (a[1], lambda c: mul(c, -q))]
    if name in ("kep_sin", "kep_cos"):
        M, e = a
        s, c_ = val(tm.fn("kep_sin", M, e)), val(tm.fn("kep_cos", M, e))
        ev = val(e)
        o = 1 - ev * ev
        dM, de = (1 + ev * c_) ** 2 / o ** mpf(1.5), (2 + ev * c_) * s / o
        k = c_ if name == "kep_sin" else -s
        return [(M, lambda c: mul(c, k * dM)), (e, lambda c: mul(c, k * de))]
    x = val(a[0]) if a and isinstance(a[0], T) else None
    if x is not None and x != x:
        return [(a[0], lambda c: NAN)]
    one = mpf(1)
    D = {
        "sin": lambda: mpmath.cos(x), "cos": lambda: -mpmath.sin(x), "tan": lambda: 1 + mpmath.tan(x) ** 2, "sqrt": lambda: div(one / 2, sq(x)), "zsqrt": lambda: div(one / 2, sq(x)), "exp": lambda: val(n),
        "cbrt": lambda: div(val(n), 3 * x), "log": lambda: div(one, x), "arcsin": lambda: div(one, sq(1 - x * x)), "arccos": lambda: -div(one, sq(1 - x * x)), "arctan": lambda: one / (1 + x * x),
        "sinh": lambda: mpmath.cosh(x), "cosh": lambda: mpmath.sinh(x), "tanh": lambda: 1 - mpmath.tanh(x) ** 2, "log1p": lambda: div(one, 1 + x), "expm1": lambda: mpmath.exp(x), "arctanh": lambda: div(one, 1 - x * x),
        "arcsinh": lambda: one / mpmath.sqrt(1 + x * x), "arccosh": lambda: div(one, sq(x * x - 1)), "log2": lambda: div(one, x * mpmath.log(2)), "log10": lambda: div(one, x * mpmath.log(10)), "exp2": lambda: mpmath.log(2) * mpmath.power(2, x), "logistic": lambda: val(n) * (1 - val(n)),
    }
    if name in D and len(a) == 1:
        w = D[name]()
        return [(a[0], lambda c: mul(c, w))]
    # uninterpreted: no derivative known
    raise NoRule(name)


def interp_rules(n, v, val):
    """numpy.interp, also periodic: every knot is (value, {term: slope}, ordinate term)"""
    a = n.args[1:]
    k = int(val(a[0])) if isinstance(a[0], T) else int(a[0])
    x, xp, fp = a[1], a[2:2 + k], a[2 + k:2 + 2 * k]
    rest = a[2 + 2 * k:]
    if len(rest) > 2:
        per = rest[2]
        P = abs(val(per))
        sg = mpmath.sign(val(per))

        def wrap(t):
            q = mpmath.floor(val(t) / P)
            return val(t) - q * P, [(t, mpf(1)), (per, -q * sg)]

        X, dX = wrap(x)
        kn = sorted([(*wrap(t), g) for t, g in zip(xp, fp)], key=lambda q: q[0])
        kn = [(kn[-1][0] - P, kn[-1][1] + [(per, -sg)], kn[-1][2])] + kn + [(kn[0][0] + P, kn[0][1] + [(per, sg)], kn[0][2])]
    else:
        X, dX = val(x), [(x, mpf(1))]
        kn = [(val(t), [(t, mpf(1))], g) for t, g in zip(xp, fp)]
        if X < kn[0][0]:
            return [(rest[0], lambda c: c)]
        if X > kn[-1][0]:
            return [(rest[1], lambda c: c)]
    i = max([j for j in range(len(kn) - 1) if kn[j][0] <= X] or [0])
    (x0, d0, g0), (x1, d1, g1) = kn[i], kn[i + 1]
    dx, df, u = x1 - x0, val(g1) - val(g0), X - x0
    w, sl = div(u, dx), div(df, dx)
    out = [(g0, lambda c: mul(c, 1 - w)), (g1, lambda c: mul(c, w))]
    for d, sc in ((dX, sl), (d0, -sl + mul(w, sl)), (d1, -mul(w, sl))):
        out += [(t, lambda c, q=q, sc=sc: mul(c, mul(q, sc))) for t, q in d if isinstance(t, T)]
    return out


def gradient(t, env, names, val=None):
    """({name: derivative of t}, first offending node or None)"""
    v = val or tm.Val(env)
    v(t)
    order = tm.reach(t)
    dep = depends(order, lambda n: n.op == "v" and n.args[0] in names)
    adj = {t.id: mpf(1)}
    bad = None
    out = {k: mpf(0) for k in names}
    for n in reversed(order):
        c = adj.get(n.id)
        if c is None or n.id not in dep:
            continue
        if n.op == "v":
            if n.args[0] in out:
                out[n.args[0]] = add(out[n.args[0]], c)
            continue
        if n.op == "jvp":
            rs = jvp_rules(n, c, v)
        else:
            rs = [(a, g(c)) for a, g in rules(n, v) if isinstance(a, T)]
        for a, w in rs:
            if a.id not in dep:
                continue
            if bad is None and not mpmath.isfinite(w) and mpmath.isfinite(c):
                bad = n
            adj[a.id] = add(adj[a.id], w) if a.id in adj else w
    return out, bad


def depends(order, leaf):
    dep = set()
    for n in order:
        if leaf(n) or any(isinstance(a, T) and a.id in dep for a in n.args):
            if n.op not in ("lt", "le", "eq", "and", "or", "not"):
                dep.add(n.id)
    return dep


def jvp_rules(n, c, v):
    """transpose the tangent graph of a custom rule"""
    t = n.args[1]
    xs, tv = n.args[2::2], n.args[3::2]
    if not tv:
        return []
    ids = {w.id: x for x, w in zip(xs, tv)}
    order = tm.reach(t)
    dep = depends(order, lambda m: m.id in ids)
    if t.id not in dep:
        return []
    adj = {t.id: c}
    out = []
    for m in reversed(order):
        w = adj.get(m.id)
        if w is None or m.id not in dep:
            continue
        if m.id in ids:
            out.append((ids[m.id], w))
            continue
        for a, g in linear(m, dep, v):
            z = g(w)
            adj[a.id] = add(adj[a.id], z) if a.id in adj else z
    return out


def linear(m, dep, v):
    A = m.args
    val = lambda t: f(v(t))  # noqa: E731
    on = lambda i: A[i].id in dep  # noqa: E731
    if m.op == "mul":
        if on(0) and on(1):
            raise NoRule("derivative rule is not linear in the tangents")
        return [(A[0], lambda c: mul(c, val(A[1])))] if on(0) else [(A[1], lambda c: mul(c, val(A[0])))]
    if m.op == "div":
        if on(1):
            raise NoRule("derivative rule is not linear in the tangents")
        return [(A[0], lambda c: div(c, val(A[1])))]
    if m.op in ("add", "sub", "neg", "ite"):
        return [(a, g) for a, g in rules(m, v) if a.id in dep]
    raise NoRule(f"{m.op} of a tangent")


def numeric(t, env, name, h=None):
    """derivative of the primal graph: (value, estimate of its error)"""
    h = h or mpf(10) ** -5

    def at(d):
        e = dict(env)
        e[name] = mpf(env[name]) + d
        return f(tm.Val(e)(t))

    f1, fm1, f2, fm2 = at(h), at(-h), at(2 * h), at(-2 * h)
    c2 = (f1 - fm1) / (2 * h)
    c4 = (8 * (f1 - fm1) - (f2 - fm2)) / (12 * h)
    f0 = f(tm.Val(env)(t))
    right = (-3 * f0 + 4 * f1 - f2) / (2 * h)
    left = (3 * f0 - 4 * fm1 + fm2) / (2 * h)
    return c4, max(abs(c4 - c2), abs(right - left) * mpf("1e-3")), left, right
