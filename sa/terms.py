"""Hash-consed value-graph terms (the abstract value domain of the analyser).

A term is a node of a *value graph*: the meaning of an expression of the
analysed program in terms of opaque inputs.  Joins of data-dependent control
flow (``jnp.where`` and friends) are explicit gamma (``ite``) nodes, so the
graph is in gated-SSA form and no path is ever enumerated.

Nodes are created only through the smart constructors below; they fold
constants and trivial identities and remember the program point (file, line,
function) that first created them.
"""
from __future__ import annotations

from fractions import Fraction

import mpmath

_TABLE: dict = {}
_NEXT = [0]
SITE = [None]  # current program point (set by the interpreter)
RAW = [False]  # keep 0*x and friends (gradient-safety analysis)


class T:
    __slots__ = ("op", "args", "id", "site")
    __array_priority__ = 0

    def __repr__(self):
        return show(self, 6)

    # NumPy object-array arithmetic goes through these
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = lambda self, o: add(lift(o), self)  # noqa

    def __sub__(self, o):
        return sub(self, lift(o))

    __rsub__ = lambda self, o: sub(lift(o), self)  # noqa

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = lambda self, o: mul(lift(o), self)  # noqa

    def __truediv__(self, o):
        return div(self, lift(o))

    __rtruediv__ = lambda self, o: div(lift(o), self)  # noqa

    def __neg__(self):
        return neg(self)

    def __pow__(self, o):
        return pow_(self, lift(o))

    def __bool__(self):
        raise TypeError("truth value of an abstract term")

    def conjugate(self):
        return self


def _mk(op, *args):
    key = (op, *[(a.id if isinstance(a, T) else ("k", type(a), a)) for a in args])
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _NEXT[0]
        t.site = SITE[0]
        _NEXT[0] += 1
        _TABLE[key] = t
    elif t.site is None and SITE[0] is not None:
        t.site = SITE[0]
    return t


def const(x):
    if isinstance(x, bool):
        return _mk("b", x)
    if isinstance(x, int):
        return _mk("c", Fraction(x))
    if isinstance(x, Fraction):
        return _mk("c", x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else neg(INF)
        return _mk("c", Fraction(repr(x)))
    raise TypeError(f"const {x!r}")


def lift(x):
    if isinstance(x, T):
        return x
    if hasattr(x, "item") and not isinstance(x, T):
        x = x.item()
        if isinstance(x, T):
            return x
    return const(x)


def var(name):
    return _mk("v", name)


NAN = _mk("nan")
INF = _mk("inf")
PI = _mk("pi")
TRUE = _mk("b", True)
FALSE = _mk("b", False)
ZERO = const(0)
ONE = const(1)
TWO = const(2)
EPS = var("@eps")


def isc(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op in ("c", "pi", "inf", "nan")


def num(x):
    """bool -> number"""
    if x.op == "b":
        return ONE if x.args[0] else ZERO
    if x.op in ("lt", "le", "eq", "and", "or", "not"):
        return ite(x, ONE, ZERO)
    return x


def boolean(x):
    if x.op == "c":
        return TRUE if cval(x) != 0 else FALSE
    if x.op in ("b", "lt", "le", "eq", "and", "or", "not"):
        return x
    if x.op == "ite" and x.args[1] is ONE and x.args[2] is ZERO:
        return x.args[0]
    if x.op == "ite":
        return ite(x.args[0], boolean(x.args[1]), boolean(x.args[2]))
    return not_(eq(x, ZERO))


# --------------------------------------------------------- complex numbers
def cx(re, im):
    """complex number as a pair of real terms; collapses when the imaginary part is 0"""
    if im is ZERO:
        return re
    return _mk("cx", re, im)


def re_(a):
    a = num(a)
    return a.args[0] if a.op == "cx" else a


def im_(a):
    a = num(a)
    return a.args[1] if a.op == "cx" else ZERO


def conj_(a):
    a = num(a)
    return cx(a.args[0], neg(a.args[1])) if a.op == "cx" else a


def add(a, b):
    a, b = num(a), num(b)
    if a.op == "cx" or b.op == "cx":
        return cx(add(re_(a), re_(b)), add(im_(a), im_(b)))
    if isc(a) and isc(b):
        return const(cval(a) + cval(b))
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a is NAN or b is NAN:
        return NAN
    # x + (c - x) = c
    if b.op == "sub" and b.args[1] is a and isc(b.args[0]):
        return b.args[0]
    if a.op == "sub" and a.args[1] is b and isc(a.args[0]):
        return a.args[0]
    return _mk("add", a, b)


def neg(a):
    a = num(a)
    if a.op == "cx":
        return cx(neg(a.args[0]), neg(a.args[1]))
    if isc(a):
        return const(-cval(a))
    if a.op == "neg":
        return a.args[0]
    if a is NAN:
        return NAN
    return _mk("neg", a)


def sub(a, b):
    a, b = num(a), num(b)
    if a.op == "cx" or b.op == "cx":
        return cx(sub(re_(a), re_(b)), sub(im_(a), im_(b)))
    if isc(a) and isc(b):
        return const(cval(a) - cval(b))
    if b is ZERO:
        return a
    if a is ZERO:
        return neg(b)
    if a is b and not RAW[0]:
        return ZERO
    if a is NAN or b is NAN:
        return NAN
    return _mk("sub", a, b)


def mul(a, b):
    a, b = num(a), num(b)
    if a.op == "cx" or b.op == "cx":
        ar, ai, br, bi = re_(a), im_(a), re_(b), im_(b)
        return cx(sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br)))
    if isc(a) and isc(b):
        return const(cval(a) * cval(b))
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is NAN or b is NAN:
        return NAN
    if not RAW[0] and (a is ZERO or b is ZERO) and INF not in (a, b):
        return ZERO
    return _mk("mul", a, b)


def div(a, b):
    a, b = num(a), num(b)
    if b.op == "cx":
        n = add(mul(b.args[0], b.args[0]), mul(b.args[1], b.args[1]))
        return div(mul(a, conj_(b)), n)
    if a.op == "cx":
        return cx(div(a.args[0], b), div(a.args[1], b))
    if isc(a) and isc(b) and cval(b) != 0:
        return const(cval(a) / cval(b))
    if b is ONE:
        return a
    if b is ZERO and isc(a):
        return NAN if a is ZERO else (INF if cval(a) > 0 else neg(INF))
    if a is ZERO and not RAW[0]:
        return ZERO
    if a is NAN or b is NAN:
        return NAN
    return _mk("div", a, b)


def pow_(a, b):
    a, b = num(a), num(b)
    if a.op == "cx" or b.op == "cx":
        if isc(b) and cval(b).denominator == 1 and abs(cval(b)) <= 64:
            r = ONE
            for _ in range(abs(int(cval(b)))):
                r = mul(r, a)
            return r if cval(b) >= 0 else div(ONE, r)
        raise TypeError("power of a complex number")
    if isc(b):
        n = cval(b)
        if n == 1:
            return a
        if n == 0:
            return ONE
        if isc(a) and n.denominator == 1 and not (cval(a) == 0 and n < 0):
            return const(cval(a) ** int(n))
        if isc(a) and n.denominator == 2 and cval(a) >= 0:
            s = _isqrt(cval(a))
            if s is not None and not (s == 0 and n < 0):
                return const(s ** int(2 * n))
        if a is NAN:
            return NAN
    return _mk("pow", a, b)


def _isqrt(q):
    import math

    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return None


def _cmpnum(t):
    return float(cval(t)) if isc(t) else {"pi": 3.141592653589793, "inf": float("inf"), "nan": float("nan")}[t.op]


def lt(a, b):
    a, b = num(a), num(b)
    if a.op == "cx" or b.op == "cx":
        raise TypeError("ordering of complex numbers")
    if isc(a) and isc(b):
        return TRUE if cval(a) < cval(b) else FALSE
    if is_num(a) and is_num(b):
        return TRUE if _cmpnum(a) < _cmpnum(b) else FALSE
    if a is b:
        return FALSE
    return _mk("lt", a, b)


def le(a, b):
    a, b = num(a), num(b)
    if a.op == "cx" or b.op == "cx":
        raise TypeError("ordering of complex numbers")
    if isc(a) and isc(b):
        return TRUE if cval(a) <= cval(b) else FALSE
    if is_num(a) and is_num(b):
        return TRUE if _cmpnum(a) <= _cmpnum(b) else FALSE
    if a is b:
        return TRUE
    return _mk("le", a, b)


def eq(a, b):
    a, b = num(a), num(b)
    if a.op == "cx" or b.op == "cx":
        return and_(eq(re_(a), re_(b)), eq(im_(a), im_(b)))
    if isc(a) and isc(b):
        return TRUE if cval(a) == cval(b) else FALSE
    if is_num(a) and is_num(b):
        return TRUE if _cmpnum(a) == _cmpnum(b) else FALSE
    if a is b:
        return TRUE
    return _mk("eq", a, b)


def not_(a):
    a = boolean(a)
    if a.op == "b":
        return FALSE if a.args[0] else TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", a)


def and_(a, b):
    a, b = boolean(a), boolean(b)
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return _mk("and", a, b)


def or_(a, b):
    a, b = boolean(a), boolean(b)
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return _mk("or", a, b)


def ite(c, a, b):
    c = boolean(c)
    if a.op == "cx" or b.op == "cx":
        return cx(ite(c, re_(a), re_(b)), ite(c, im_(a), im_(b)))
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if (a.op in _BOOL) and (b.op in _BOOL):
        return or_(and_(c, a), and_(not_(c), b))
    return _mk("ite", c, num(a), num(b))


_BOOL = ("b", "lt", "le", "eq", "and", "or", "not")


def abs_(a):
    a = num(a)
    if a.op == "cx":
        return sqrt(add(mul(a.args[0], a.args[0]), mul(a.args[1], a.args[1])))
    if isc(a):
        return const(abs(cval(a)))
    if a.op == "abs":
        return a
    return _mk("abs", a)


def fn(name, *args):
    """Known elementary function or uninterpreted function application."""
    args = tuple(num(a) if isinstance(a, T) else a for a in args)
    if any(isinstance(a, T) and a.op == "cx" for a in args):
        if name == "exp":
            e, (x, y) = None, args[0].args
            e = fn("exp", x)
            return cx(mul(e, fn("cos", y)), mul(e, fn("sin", y)))
        raise TypeError(f"{name} of a complex number")
    if any(a is NAN for a in args):
        return NAN
    a0 = args[0] if args else None
    if isinstance(a0, T) and isc(a0) and len(args) == 1:
        x = cval(a0)
        if x == 0:
            if name in ("sin", "tan", "arcsin", "arctan", "sinh", "tanh", "arctanh", "arcsinh", "cbrt", "sqrt"):
                return ZERO
            if name in ("cos", "exp", "cosh"):
                return ONE
        if name == "floor":
            return const(x.numerator // x.denominator)
        if name == "ceil":
            return const(-((-x.numerator) // x.denominator))
        if name == "sign":
            return const((x > 0) - (x < 0))
        if name == "log" and x == 1:
            return ZERO
        if name == "rint" and x.denominator == 1:
            return a0
    if name == "floor" and isinstance(a0, T) and len(args) == 1 and is_num(a0) and a0.op == "pi":
        return const(3)
    if name == "cos" and a0 is PI:
        return const(-1)
    if name == "sin" and a0 is PI:
        return ZERO
    if name in ("sin", "cos", "tan") and a0.op in ("mul", "div", "neg"):
        q = pi_multiple(a0)
        if q is not None:
            v = _trig_pi(name, q)
            if v is not None:
                return v
    if name == "arctan2" and a0 is ZERO and isc(args[1]):
        return ZERO if cval(args[1]) >= 0 else PI
    if name == "arctan2" and isc(a0) and args[1] is ZERO and a0 is not ZERO:
        return mul(const(Fraction(1, 2) if cval(a0) > 0 else Fraction(-1, 2)), PI)
    if name in ("mod", "floordiv") and isinstance(a0, T) and isc(a0) and isc(args[1]) and cval(args[1]) != 0:
        return const(cval(a0) % cval(args[1])) if name == "mod" else const(cval(a0) // cval(args[1]))
    return _mk("fn", name, *args)


def pi_multiple(t):
    """t == q*pi with rational q, or None"""
    if t is PI:
        return Fraction(1)
    if t.op == "neg":
        q = pi_multiple(t.args[0])
        return None if q is None else -q
    if t.op == "mul":
        a, b = t.args
        if isc(a):
            q = pi_multiple(b)
            return None if q is None else q * cval(a)
        if isc(b):
            q = pi_multiple(a)
            return None if q is None else q * cval(b)
    if t.op == "div" and isc(t.args[1]):
        q = pi_multiple(t.args[0])
        return None if q is None else q / cval(t.args[1])
    return None


def _trig_pi(name, q):
    if (2 * q).denominator != 1:
        return None
    k = int(2 * q) % 4
    if name == "sin":
        return const([0, 1, 0, -1][k])
    if name == "cos":
        return const([1, 0, -1, 0][k])
    return ZERO if k in (0, 2) else None


def sqrt(a):
    a = num(a)
    if a.op == "cx":
        raise TypeError("sqrt of a complex number")
    if isc(a):
        if cval(a) < 0:
            return NAN
        s = _isqrt(cval(a))
        if s is not None:
            return const(s)
    return _mk("fn", "sqrt", a)


def max_(a, b):
    a, b = num(a), num(b)
    if isc(a) and isc(b):
        return a if cval(a) >= cval(b) else b
    if a is b:
        return a
    return _mk("max", a, b)


def min_(a, b):
    a, b = num(a), num(b)
    if isc(a) and isc(b):
        return a if cval(a) <= cval(b) else b
    if a is b:
        return a
    return _mk("min", a, b)


# ---------------------------------------------------------------- traversal
def reach(*roots):
    """all nodes reachable from roots in topological (creation) order"""
    seen = {}
    stack = [r for r in roots if isinstance(r, T)]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        for a in t.args:
            if isinstance(a, T) and a.id not in seen:
                stack.append(a)
    return [seen[k] for k in sorted(seen)]


def free_vars(*roots):
    return {t.args[0] for t in reach(*roots) if t.op == "v"}


def opaques(*roots):
    return {t.args[0] for t in reach(*roots) if t.op == "fn" and t.args[0].startswith("?")}


def slice_sites(*roots, limit=8):
    """program points of the backward slice, latest definitions first"""
    out = []
    for t in sorted(reach(*roots), key=lambda t: -t.id):
        if t.site and t.site not in out:
            out.append(t.site)
            if len(out) >= limit:
                break
    return out


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "c":
        return str(t.args[0])
    if t.op == "b":
        return str(t.args[0])
    if t.op == "v":
        return t.args[0]
    if t.op in ("pi", "inf", "nan"):
        return t.op
    if depth <= 0:
        return "…"
    a = [show(x, depth - 1) for x in t.args]
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "lt": "<", "le": "<=", "eq": "==", "and": "&", "or": "|"}
    if t.op in inf:
        return f"({a[0]} {inf[t.op]} {a[1]})"
    if t.op == "neg":
        return f"(-{a[0]})"
    if t.op == "fn":
        return f"{t.args[0]}({', '.join(a[1:])})"
    return f"{t.op}({', '.join(a)})"


def subst(t, mapping, always=False):
    """replace terms (dict T->T); `always` rebuilds every node"""
    memo = {k.id: v for k, v in mapping.items()}
    for n in reach(t):
        if n.id in memo:
            continue
        if not any(isinstance(a, T) for a in n.args):
            memo[n.id] = n
            continue
        args = [memo[a.id] if isinstance(a, T) else a for a in n.args]
        if not always and all(x is y for x, y in zip(args, n.args)):
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n.op, args)
    return memo[t.id]


def rebuild(op, args):
    if op == "fn":
        if args[0] == "sqrt":
            return sqrt(args[1])
        return fn(*args)
    f = {
        "add": add, "sub": sub, "mul": mul, "div": div, "neg": neg, "pow": pow_, "lt": lt, "le": le, "eq": eq,
        "not": not_, "and": and_, "or": or_, "ite": ite, "abs": abs_, "max": max_, "min": min_,
    }.get(op)
    if f is None:
        return _mk(op, *args)
    return f(*args)


# ---------------------------------------------------------------- derivative
def diff(t, v, rules=None):
    """d t / d v along the value graph.  v is a 'v' term.  rules maps the
    name of an uninterpreted function to fn(argterms, index)->partial term."""
    rules = rules or {}
    d = {}
    for n in reach(t):
        d[n.id] = _diff1(n, v, d, rules)
    return d[t.id]


def _diff1(n, v, d, rules):
    if n is v:
        return ONE
    op = n.op
    if op in ("c", "pi", "v", "inf", "nan", "b", "lt", "le", "eq", "and", "or", "not"):
        return ZERO
    g = lambda i: d[n.args[i].id]  # noqa
    if op == "add":
        return add(g(0), g(1))
    if op == "sub":
        return sub(g(0), g(1))
    if op == "neg":
        return neg(g(0))
    if op == "mul":
        return add(mul(g(0), n.args[1]), mul(n.args[0], g(1)))
    if op == "div":
        a, b = n.args
        return sub(div(g(0), b), mul(div(a, mul(b, b)), g(1)))
    if op == "pow":
        a, b = n.args
        r = ZERO
        if g(0) is not ZERO:
            r = mul(mul(b, pow_(a, sub(b, ONE))), g(0))
        if g(1) is not ZERO:
            r = add(r, mul(mul(n, fn("log", a)), g(1)))
        return r
    if op == "ite":
        return ite(n.args[0], g(1), g(2))
    if op == "max":
        return ite(lt(n.args[0], n.args[1]), g(1), g(0))
    if op == "min":
        return ite(lt(n.args[0], n.args[1]), g(0), g(1))
    if op == "abs":
        return mul(ite(lt(n.args[0], ZERO), const(-1), ONE), g(0))
    if op == "fn":
        name, *args = n.args
        ds = [d[a.id] if isinstance(a, T) else ZERO for a in args]
        if all(x is ZERO for x in ds):
            return ZERO
        r = ZERO
        for i, dx in enumerate(ds):
            if dx is not ZERO:
                r = add(r, mul(partial_fn(n, i, rules), dx))
        return r
    raise NotImplementedError(op)


def partial_fn(n, i, rules):
    name, *args = n.args
    if name in rules:
        return rules[name](args, i)
    x = args[0]
    if name == "sin":
        return fn("cos", x)
    if name == "cos":
        return neg(fn("sin", x))
    if name == "tan":
        return add(ONE, mul(n, n))
    if name == "sqrt":
        return div(const(Fraction(1, 2)), n)
    if name == "zsqrt":
        return div(const(Fraction(1, 2)), n)
    if name == "cbrt":
        return div(n, mul(const(3), x))
    if name == "exp":
        return n
    if name == "log":
        return div(ONE, x)
    if name == "logistic":
        return mul(n, sub(ONE, n))
    if name == "arccos":
        return neg(div(ONE, sqrt(sub(ONE, mul(x, x)))))
    if name == "arcsin":
        return div(ONE, sqrt(sub(ONE, mul(x, x))))
    if name == "arctan":
        return div(ONE, add(ONE, mul(x, x)))
    if name == "arctan2":
        y, xx = args
        den = add(mul(y, y), mul(xx, xx))
        return div(xx, den) if i == 0 else neg(div(y, den))
    if name == "mod":
        return ONE if i == 0 else neg(fn("floordiv", *args))
    if name in ("floor", "ceil", "sign", "floordiv", "rint"):
        return ZERO
    if name == "kep_sin":
        M, e = args
        c, s = fn("kep_cos", M, e), fn("kep_sin", M, e)
        fdot = _kep_partial(M, e, s, c, i)
        return mul(c, fdot)
    if name == "kep_cos":
        M, e = args
        c, s = fn("kep_cos", M, e), fn("kep_sin", M, e)
        fdot = _kep_partial(M, e, s, c, i)
        return neg(mul(s, fdot))
    raise NotImplementedError(f"derivative of {name}")


def _kep_partial(M, e, s, c, i):
    ec = mul(e, c)
    ome2 = sub(ONE, mul(e, e))
    if i == 0:
        return div(pow_(add(ONE, ec), TWO), pow_(ome2, const(Fraction(3, 2))))
    return div(mul(add(TWO, ec), s), ome2)


# ---------------------------------------------------------------- valuation
class Val:
    """Random interpretation of a value graph (Gulwani & Necula, POPL'04):
    maps every node to a number, uninterpreted functions to hash-derived
    values.  Used to *separate* two terms, never to execute the program."""

    def __init__(self, env, dps=40):
        self.env = env
        self.memo = {}
        self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
        self.mp.dps = dps

    def __call__(self, t):
        m = self.memo
        if t.id in m:
            return m[t.id]
        for n in reach(t):
            if n.id not in m:
                m[n.id] = self._ev(n)
        return m[t.id]

    def _h(self, *key):
        import hashlib

        def norm(k):
            if isinstance(k, bool):
                return str(k)
            if hasattr(k, "_mpf_") or isinstance(k, (int, float)):
                return self.mp.nstr(self.mp.mpf(k), 20)
            return str(k)

        h = hashlib.sha256("|".join(norm(k) for k in key).encode()).digest()
        return self.mp.mpf(int.from_bytes(h[:12], "big")) / 2**96

    def _ev(self, n):
        mp = self.mp
        nan = mp.nan
        op = n.op
        if op == "c":
            return mp.mpf(n.args[0].numerator) / n.args[0].denominator
        if op == "b":
            return n.args[0]
        if op == "pi":
            return +mp.pi
        if op == "inf":
            return mp.inf
        if op == "nan":
            return nan
        if op == "v":
            nm = n.args[0]
            if nm in self.env:
                v = self.env[nm]
                return v if isinstance(v, bool) else mp.mpf(v)
            if nm == "@eps":
                return mp.mpf(2) ** -52
            return self._h("var", nm) + mp.mpf("0.5")
        a = [self.memo[x.id] if isinstance(x, T) else x for x in n.args]
        try:
            if op == "add":
                return a[0] + a[1]
            if op == "sub":
                return a[0] - a[1]
            if op == "mul":
                return a[0] * a[1]
            if op == "neg":
                return -a[0]
            if op == "div":
                if a[1] == 0:
                    return nan if (a[0] == 0 or a[0] != a[0]) else (mp.inf if a[0] > 0 else -mp.inf)
                return a[0] / a[1]
            if op == "pow":
                if a[0] == 0 and a[1] < 0:
                    return mp.inf
                r = mp.power(a[0], a[1])
                return nan if isinstance(r, mp.mpc) else r
            if op == "lt":
                return bool(a[0] < a[1])
            if op == "le":
                return bool(a[0] <= a[1])
            if op == "eq":
                return bool(a[0] == a[1])
            if op == "not":
                return not a[0]
            if op == "and":
                return a[0] and a[1]
            if op == "or":
                return a[0] or a[1]
            if op == "ite":
                return a[1] if a[0] else a[2]
            if op == "abs":
                return abs(a[0])
            if op == "max":
                return a[0] if a[0] >= a[1] else (a[1] if a[1] == a[1] else nan)
            if op == "min":
                return a[0] if a[0] <= a[1] else (a[1] if a[1] == a[1] else nan)
            if op == "jvp":
                return a[0]
            if op == "fn":
                return self._fn(a[0], a[1:])
        except (ZeroDivisionError, ValueError, OverflowError):
            return nan
        raise NotImplementedError(op)

    def _fn(self, name, a):
        mp = self.mp
        if name == "jvp":
            return a[0]
        if name == "interp":
            return self._interp(a)
        if any(isinstance(x, mp.mpf) and x != x for x in a):
            return mp.nan
        real1 = {
            "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "sqrt": mp.sqrt, "zsqrt": mp.sqrt, "exp": mp.exp, "log": mp.log,
            "arccos": mp.acos, "arcsin": mp.asin, "arctan": mp.atan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh,
            "floor": mp.floor, "ceil": mp.ceil, "arctanh": mp.atanh, "log1p": lambda x: mp.log(1 + x),
            "expm1": mp.expm1, "rint": mp.nint, "arccosh": mp.acosh, "arcsinh": mp.asinh,
            "log2": lambda x: mp.log(x) / mp.log(2), "log10": mp.log10, "exp2": lambda x: mp.power(2, x),
            "trunc": lambda x: mp.floor(x) if x >= 0 else mp.ceil(x), "logistic": lambda x: 1 / (1 + mp.exp(-x)),
        }
        if name in real1:
            r = real1[name](a[0])
            if isinstance(r, mp.mpc):
                return mp.nan
            return r
        if name == "cbrt":
            return mp.sign(a[0]) * mp.cbrt(abs(a[0]))
        if name == "sign":
            return mp.sign(a[0])
        if name == "arctan2":
            return mp.atan2(a[0], a[1])
        if name == "mod":
            if a[1] == 0:
                return mp.nan
            return a[0] - mp.floor(a[0] / a[1]) * a[1]
        if name == "floordiv":
            return mp.nan if a[1] == 0 else mp.floor(a[0] / a[1])
        if name in ("kep_sin", "kep_cos"):
            M, e = a
            if not (0 <= e < 1):
                return mp.nan
            key = ("kep", mp.nstr(M, 30), mp.nstr(e, 30))
            sc = self.memo.get(key)
            if sc is None:
                M0 = M - 2 * mp.pi * mp.floor(M / (2 * mp.pi))
                E = M0 + e * mp.sin(M0)
                for _ in range(60):
                    dE = (E - e * mp.sin(E) - M0) / (1 - e * mp.cos(E))
                    if abs(dE) > 1:
                        dE = mp.sign(dE)
                    E -= dE
                    if abs(dE) < mp.mpf(10) ** (-mp.dps + 3):
                        break
                den = 1 - e * mp.cos(E)
                sc = (mp.sqrt(1 - e * e) * mp.sin(E) / den, (mp.cos(E) - e) / den)
                self.memo[key] = sc
            return sc[0] if name == "kep_sin" else sc[1]
        # uninterpreted: congruence by value
        return self._h("fn", name, *a) + mp.mpf("0.25")

    def _interp(self, a):
        """numpy.interp: args n, x, xp[n], fp[n], left, right[, period]"""
        mp = self.mp
        n = int(a[0])
        x = a[1]
        xp = list(a[2:2 + n])
        fp = list(a[2 + n:2 + 2 * n])
        rest = a[2 + 2 * n:]
        left, right = rest[0], rest[1]
        if len(rest) > 2:
            per = abs(rest[2])

            def md(v):
                return v - mp.floor(v / per) * per

            x = md(x)
            prs = sorted(zip([md(v) for v in xp], fp), key=lambda q: q[0])
            xp = [prs[-1][0] - per] + [q[0] for q in prs] + [prs[0][0] + per]
            fp = [prs[-1][1]] + [q[1] for q in prs] + [prs[0][1]]
        else:
            if x < xp[0]:
                return left
            if x > xp[-1]:
                return right
        for i in range(len(xp) - 1):
            if xp[i] <= x <= xp[i + 1]:
                if xp[i] == xp[i + 1]:
                    return fp[i]
                return fp[i] + (x - xp[i]) / (xp[i + 1] - xp[i]) * (fp[i + 1] - fp[i])
        return fp[-1]
