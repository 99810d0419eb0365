"""Transfer functions of the array library (jax.numpy / numpy / math) over
arrays of value-graph terms."""
from __future__ import annotations

import itertools
from fractions import Fraction

import mpmath
import numpy as np

from . import terms as tm
from .terms import T
from .npmore import More
from .values import AnalysisError, Arr, HostObj, Obj, Opaque, Qty, Unit, obj_array

EMPTY = frozenset()


class DT(HostObj):
    """dtype: kind plus explicit name (None = inherited from an input)"""

    def __init__(self, k, name=None):
        self.k = k
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DT) and (self.k, self.name) == (o.k, o.name)

    def __hash__(self):
        return hash((self.k, self.name))

    def __repr__(self):
        return f"dtype({self.name or self.k})"


RANK = {"b": 0, "i": 1, "f": 2, "c": 3}


def promote(*dts):
    return max(dts, key=lambda d: RANK[d]) if dts else "f"


class Sparse(HostObj):
    """BCOO / scipy sparse matrix; modelled by its dense content"""

    def __init__(self, arr, jax=True, shape=None):
        self.arr = arr
        self.jax = jax


def tr_of(x, out=None):
    """union of trace ids in a nest of values"""
    out = set() if out is None else out
    if isinstance(x, Arr):
        if x.tr:
            out |= x.tr
    elif isinstance(x, Qty):
        tr_of(x.m, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            tr_of(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            tr_of(y, out)
    elif isinstance(x, Sparse):
        tr_of(x.arr, out)
    return out


class NP(More):
    def __init__(self, interp):
        self.it = interp
        self.opaque_n = itertools.count()
        self.funcs = {}
        for n in dir(self):
            if n.startswith("f_"):
                self.funcs[n[2:]] = getattr(self, n)
        al = {
            "absolute": "abs", "fabs": "abs", "arctan2": "arctan2", "atan2": "arctan2", "acos": "arccos", "asin": "arcsin",
            "atan": "arctan", "pow": "power", "true_divide": "divide", "remainder": "mod", "conjugate": "conj",
            "row_stack": "vstack", "concat": "concatenate", "amax": "max", "amin": "min", "float_power": "power",
            "permute_dims": "transpose", "nansum": "sum", "nanmean": "mean", "round_": "round", "around": "round",
        }
        for k, v in al.items():
            self.funcs[k] = self.funcs[v]
        for k in list(self.funcs):
            self.funcs[k] = self._options(k, self.funcs[k])
        for k in ("bitwise_and", "bitwise_or", "bitwise_xor", "invert", "bitwise_not", "left_shift", "right_shift"):
            self.funcs[k] = self._bitwise(k, self.funcs.get("logical_" + {"invert": "not"}.get(k, k.split("_")[-1])))

    REDUCE = dict(sum=0, prod=1, all=True, any=False, max=None, min=None, mean=None, nansum=0, amax=None, amin=None)

    def _options(self, name, f):
        """the options every reduction (`where`, `initial`, `out`) and every
        elementwise function (`where`, `out`, `dtype`) takes"""
        import inspect

        has = inspect.signature(f).parameters

        def g(*a, **k):
            if not k:
                return f(*a)
            out = k.pop("out", None) if "out" not in has else None
            where = k.pop("where", None) if "where" not in has else None
            if where is True:
                where = None
            if name in self.REDUCE:
                init = k.pop("initial", None)
                if where is not None:
                    unit = self.REDUCE[name] if init is None or self.REDUCE[name] is not None else init
                    if name == "mean":
                        n = self.f_sum(self.f_add(self.f_multiply(self.A(a[0]), 0), self.map(tm.num, self.A(where), dt="i")), *a[1:], **k)
                        r = self.f_divide(self.f_sum(self.f_where(where, a[0], 0), *a[1:], **k), n)
                    else:
                        if unit is None:
                            self.err("ValueError", f"reduction operation {name} does not have an identity, so to use a where mask one has to specify 'initial'")
                        r = f(self.f_where(where, a[0], unit), *a[1:], **k)
                else:
                    r = f(*a, **k)
                if init is not None:
                    op = {"sum": self.f_add, "nansum": self.f_add, "prod": self.f_multiply, "max": self.f_maximum, "amax": self.f_maximum,
                          "min": self.f_minimum, "amin": self.f_minimum}.get(name)
                    if op is None:
                        raise AnalysisError(f"{name} with an initial value")
                    r = op(r, init)
            else:
                dt = k.pop("dtype", None) if "dtype" not in has and "k" not in has else None
                for o in ("casting", "order", "subok"):
                    if o not in has:
                        k.pop(o, None)
                r = f(*a, **k)
                if dt is not None:
                    r = self.f_array(r, dt)
                if where is not None:
                    if out is None:
                        raise AnalysisError(f"{name} with a mask and no output array")
                    r = self.f_where(where, r, out)
            if out is not None:
                if isinstance(out, tuple):
                    (out,) = out
                self.it.models.setitem(out, Ellipsis, r)
                return out
            return r

        return g

    def _bitwise(self, name, f):
        def g(*xs):
            xs = [self.A(x) for x in xs]
            if f is not None and all(x.dt == "b" for x in xs):
                return f(*xs)
            if any(x.dt in ("f", "c") for x in xs):
                self.err("TypeError", f"{name} takes integers or booleans")
            op = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "invert": lambda a: ~a, "not": lambda a: ~a,
                  "left": lambda a, b: a << b, "right": lambda a, b: a >> b}[name.split("_")[1] if name.startswith("bitwise") else name.split("_")[0]]

            def one(*ts):
                vs = [self.const_num(t) for t in ts]
                if any(v is None for v in vs):
                    raise AnalysisError(f"{name} of integers")
                return tm.const(op(*[int(v) for v in vs]))

            return self.map(one, *xs, dt="i")

        return g

    # ----------------------------------------------------------- helpers
    def err(self, name, msg):
        self.it.raise_(name, msg)

    def A(self, x):
        """array-like -> Arr"""
        if isinstance(x, Arr):
            return x
        if isinstance(x, bool):
            return Arr(tm.const(x), "b", "py")
        if isinstance(x, (int, Fraction)):
            return Arr(tm.const(x), "i" if isinstance(x, int) else "f", "py")
        if isinstance(x, T):
            return Arr(x, "b" if x.op in tm._BOOL else "f", "py")
        if isinstance(x, (list, tuple)):
            if not x:
                return Arr(obj_array((0,)), "f", "py")
            xs = [self.A(y) for y in x]
            sh = xs[0].shape
            for y in xs:
                if y.shape != sh:
                    self.err("ValueError", "inhomogeneous array")
            d = obj_array((len(xs),) + sh)
            for i, y in enumerate(xs):
                d[i] = y.d if sh else y.d[()]
            tr = frozenset().union(*[y.tr or EMPTY for y in xs])
            return Arr(d, promote(*[y.dt for y in xs]), "py", tr)
        if isinstance(x, range):
            return self.A(list(x))
        if isinstance(x, np.ndarray):
            return Arr(x, "i" if x.dtype.kind in "iu" else "f", "np")
        if isinstance(x, Sparse):
            return x.arr
        if isinstance(x, Qty):
            self.err("TypeError", "Quantity is not a valid array argument")
        if isinstance(x, Unit):
            self.err("TypeError", "Unit is not a valid array argument")
        if isinstance(x, Opaque):
            raise AnalysisError(f"array of unknown value {x}")
        if x is None or isinstance(x, (str, dict, Obj)):
            self.err("TypeError", f"{type(x).__name__} is not a valid array argument")
        raise AnalysisError(f"array from {type(x).__name__} {x!r}")

    def const_num(self, t):
        """numeric value of a constant term or None"""
        if tm.isc(t):
            return tm.cval(t)
        if t.op == "b":
            return int(t.args[0])
        if tm.free_vars(t) or tm.opaques(t):
            return self.box.constant(t) if self.box is not None else None
        return tm.Val({})(t)

    box = None  # interval cell deciding data-dependent sizes (sa/interval.py)

    def resolve_mask(self, k):
        """a boolean array whose every entry is decided in the current cell"""
        if self.box is None:
            return k
        d = obj_array(k.shape)
        for i in np.ndindex(k.shape):
            r = self.box.truth(tm.boolean(k.d[i]))
            d[i] = k.d[i] if r is None else tm.const(r)
        return Arr(d, k.dt, k.kind, k.tr)

    def int_(self, x):
        """Python int of a static value"""
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Arr):
            if x.size != 1:
                self.err("TypeError", "only size-1 arrays can be converted to Python scalars")
            if x.tr:
                self.it.event("concretisation", "traced value used as a Python integer")
            v = self.const_num(x.item_t())
            if v is None:
                raise AnalysisError(f"non-constant integer {tm.show(x.item_t(), 4)}")
            return int(v)
        if isinstance(x, Fraction):
            return int(x)
        if x is None:
            self.err("TypeError", "None is not an integer")
        raise AnalysisError(f"int of {x!r}")

    def shape_(self, s):
        if isinstance(s, (list, tuple)):
            return tuple(self.int_(i) for i in s)
        if isinstance(s, Arr) and s.ndim == 1:
            return tuple(self.int_(self.it.models.elem(s, i)) for i in range(s.shape[0]))
        return (self.int_(s),)

    def bc(self, *xs):
        try:
            return np.broadcast_arrays(*[x.d for x in xs])
        except ValueError:
            self.err("ValueError", f"incompatible shapes for broadcasting: {[x.shape for x in xs]}")

    def out_kind(self, *xs):
        ks = {x.kind for x in xs}
        return "jax" if "jax" in ks else ("np" if "np" in ks else "py")

    def map(self, fn, *xs, dt="f"):
        xs = [self.A(x) for x in xs]
        ds = self.bc(*xs)
        out = obj_array(ds[0].shape)
        for i in np.ndindex(out.shape):
            out[i] = fn(*[d[i] for d in ds])
        tr = frozenset().union(*[x.tr or EMPTY for x in xs])
        return Arr(out, dt, self.out_kind(*xs), tr)

    def axis_(self, ax, nd):
        if ax is None:
            return None
        ax = self.int_(ax)
        if not -nd <= ax < nd:
            self.err("ValueError", f"axis {ax} out of bounds for {nd}-d array")
        return ax % nd

    def reduce(self, fn, x, axis, unit=None, keepdims=False, dt=None):
        x = self.A(x)
        dt = dt or x.dt
        if axis is None or isinstance(axis, (tuple, list)):
            if axis is not None:
                for a in sorted((self.axis_(a, x.ndim) for a in axis), reverse=True):
                    x = self.reduce(fn, x, a, unit, keepdims, dt)
                return x
            items = x.flat()
            r = self._fold(fn, items, unit)
            return Arr(r if not keepdims else np.array(r, dtype=object).reshape((1,) * x.ndim), dt, x.kind, x.tr)
        axis = self.axis_(axis, x.ndim)
        d = np.moveaxis(x.d, axis, 0)
        out = obj_array(d.shape[1:])
        for i in np.ndindex(out.shape):
            out[i] = self._fold(fn, [d[(k,) + i] for k in range(d.shape[0])], unit)
        if keepdims:
            out = np.expand_dims(out, axis)
        return Arr(out, dt, x.kind, x.tr)

    def _fold(self, fn, items, unit):
        if not items:
            if unit is None:
                self.err("ValueError", "zero-size reduction")
            return unit
        r = items[0]
        for y in items[1:]:
            r = fn(r, y)
        return r

    # ----------------------------------------------------- elementwise
    def u1(name, dt="f"):  # noqa
        def f(self, x, *a, **k):
            return self.map(lambda t: tm.fn(name, t), x, dt=dt)

        return f

    for _n in "sin cos tan exp log arccos arcsin arctan sinh cosh tanh arctanh arcsinh arccosh expm1 log1p cbrt log2 log10 exp2 logistic".split():
        locals()["f_" + _n] = u1(_n)
    del _n

    def f_exp(self, x):
        x = self.A(x)
        return self.map(lambda t: tm.fn("exp", t), x, dt=promote(x.dt, "f"))

    def f_sqrt(self, x):
        return self.map(tm.sqrt, x)

    def f_abs(self, x):
        x = self.A(x)
        return self.map(tm.abs_, x, dt=x.dt)

    def f_sign(self, x):
        x = self.A(x)
        return self.map(lambda t: tm.fn("sign", t), x, dt=x.dt)

    def f_floor(self, x):
        return self.map(lambda t: tm.fn("floor", t), x)

    def f_ceil(self, x):
        return self.map(lambda t: tm.fn("ceil", t), x)

    def f_rint(self, x):
        return self.map(lambda t: tm.fn("rint", t), x)

    def f_round(self, x, decimals=0):
        if decimals not in (0, None):
            return self.map(lambda t: tm.div(tm.fn("rint", tm.mul(t, tm.const(10 ** decimals))), tm.const(10 ** decimals)), x)
        return self.f_rint(x)

    def f_trunc(self, x):
        return self.map(lambda t: tm.mul(tm.fn("sign", t), tm.fn("floor", tm.abs_(t))), x)

    def f_square(self, x):
        x = self.A(x)
        return self.map(lambda t: tm.mul(t, t), x, dt=x.dt)

    def f_reciprocal(self, x):
        return self.map(lambda t: tm.div(tm.ONE, t), x)

    def f_negative(self, x):
        x = self.A(x)
        return self.map(tm.neg, x, dt=x.dt)

    def f_positive(self, x):
        return self.A(x)

    def _ar(op):  # noqa
        def f(self, a, b):
            a, b = self.A(a), self.A(b)
            return self.map(op, a, b, dt=promote(a.dt, b.dt, "i"))

        return f

    f_add = _ar(tm.add)
    f_subtract = _ar(tm.sub)
    f_multiply = _ar(tm.mul)

    def f_divide(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(tm.div, a, b, dt=promote(a.dt, b.dt, "f"))

    def f_floor_divide(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(lambda x, y: tm.fn("floordiv", x, y), a, b, dt=promote(a.dt, b.dt))

    def f_mod(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(lambda x, y: tm.fn("mod", x, y), a, b, dt=promote(a.dt, b.dt))

    def f_fmod(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(lambda x, y: tm.mul(tm.fn("sign", x), tm.fn("mod", tm.abs_(x), tm.abs_(y))), a, b, dt=promote(a.dt, b.dt))

    def f_power(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(tm.pow_, a, b, dt=promote(a.dt, b.dt))

    def f_hypot(self, a, b):
        return self.map(lambda x, y: tm.sqrt(tm.add(tm.mul(x, x), tm.mul(y, y))), a, b)

    def f_arctan2(self, a, b):
        return self.map(lambda x, y: tm.fn("arctan2", x, y), a, b)

    def f_maximum(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(tm.max_, a, b, dt=promote(a.dt, b.dt))

    def f_minimum(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(tm.min_, a, b, dt=promote(a.dt, b.dt))

    f_fmax = f_maximum
    f_fmin = f_minimum

    def f_clip(self, a, a_min=None, a_max=None, min=None, max=None):  # noqa
        lo = a_min if a_min is not None else min
        hi = a_max if a_max is not None else max
        r = self.A(a)
        if lo is not None:
            r = self.f_maximum(r, lo)
        if hi is not None:
            r = self.f_minimum(r, hi)
        return r

    def f_deg2rad(self, x):
        return self.map(lambda t: tm.mul(t, tm.div(tm.PI, tm.const(180))), x)

    f_radians = f_deg2rad

    def f_rad2deg(self, x):
        return self.map(lambda t: tm.mul(t, tm.div(tm.const(180), tm.PI)), x)

    f_degrees = f_rad2deg

    def _cmp(op):  # noqa
        def f(self, a, b):
            return self.map(op, a, b, dt="b")

        return f

    f_less = _cmp(tm.lt)
    f_less_equal = _cmp(tm.le)
    f_greater = _cmp(lambda a, b: tm.lt(b, a))
    f_greater_equal = _cmp(lambda a, b: tm.le(b, a))
    f_equal = _cmp(tm.eq)
    f_not_equal = _cmp(lambda a, b: tm.not_(tm.eq(a, b)))

    def f_logical_and(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(tm.and_, a, b, dt="b")

    def f_logical_or(self, a, b):
        a, b = self.A(a), self.A(b)
        return self.map(tm.or_, a, b, dt="b")

    def f_logical_xor(self, a, b):
        return self.map(lambda x, y: tm.or_(tm.and_(x, tm.not_(y)), tm.and_(tm.not_(x), y)), a, b, dt="b")

    def f_logical_not(self, a):
        return self.map(tm.not_, a, dt="b")

    def f_isnan(self, x):
        return self.map(lambda t: tm.TRUE if t is tm.NAN else (tm.FALSE if tm.isc(t) else tm.not_(tm._mk("eq", t, t))), x, dt="b")

    def f_isfinite(self, x):
        return self.map(lambda t: tm.FALSE if t in (tm.NAN, tm.INF) else (tm.TRUE if tm.isc(t) else tm.lt(tm.abs_(t), tm.INF)), x, dt="b")

    def f_isinf(self, x):
        return self.map(lambda t: tm.eq(tm.abs_(t), tm.INF), x, dt="b")

    def f_nan_to_num(self, x, copy=True, nan=0.0, posinf=None, neginf=None):
        n = self.A(nan).item_t()
        return self.map(lambda t: n if t is tm.NAN else (t if tm.isc(t) else tm.ite(tm._mk("eq", t, t), t, n)), x)

    def f_where(self, cond, *ab):
        if not ab:
            return self.f_nonzero(cond)
        if len(ab) != 2:
            self.err("ValueError", "where takes 1 or 3 arguments")
        a, b = self.A(ab[0]), self.A(ab[1])
        return self.map(lambda c, x, y: tm.ite(c, x, y), self.A(cond), a, b, dt=promote(a.dt, b.dt))

    def f_select(self, condlist, choicelist, default=0):
        r = self.A(default)
        for c, v in reversed(list(zip(condlist, choicelist))):
            r = self.f_where(c, v, r)
        return r

    def f_heaviside(self, x, h):
        return self.map(lambda t, u: tm.ite(tm.lt(t, tm.ZERO), tm.ZERO, tm.ite(tm.lt(tm.ZERO, t), tm.ONE, u)), x, h)

    def f_nonzero(self, x):
        x = self.A(x)
        if x.tr:
            self.it.event("concretisation", "nonzero/boolean mask of a traced array")
        idx = []
        for i in np.ndindex(x.shape):
            t = tm.boolean(x.d[i])
            if self.it.truth(Arr(t, "b")):
                idx.append(i)
        return tuple(Arr(np.array([i[k] for i in idx], dtype=int), "i", "np") for k in range(x.ndim))

    # ------------------------------------------------------------ creation
    def _dt(self, dtype, default):
        if dtype is None:
            return default
        if isinstance(dtype, DT):
            return dtype.k
        n = getattr(dtype, "bname", None)
        if n in ("float", "int", "bool", "complex"):
            return {"float": "f", "int": "i", "bool": "b", "complex": "c"}[n]
        if isinstance(dtype, str):
            return {"f": "f", "i": "i", "b": "b", "c": "c", "u": "i", "d": "f"}[dtype[0]]
        if getattr(dtype, "dt", None):
            return dtype.dt.k
        return default

    def _cast(self, a, dt):
        if dt == a.dt:
            return a
        if dt == "i" and a.dt == "f":
            return self.map(lambda t: tm.const(int(tm.cval(t))) if tm.isc(t) else tm.fn("trunc", t), a, dt="i")
        if dt == "b":
            return self.map(tm.boolean, a, dt="b")
        if a.dt == "b":
            return self.map(tm.num, a, dt=dt)
        return Arr(a.d, dt, a.kind, a.tr)

    INT_BITS = {"int8": (8, True), "int16": (16, True), "uint8": (8, False), "uint16": (16, False)}

    def _narrow(self, a, src, dtype):
        """range of the narrow integer types: conversion from float saturates (XLA),
        conversion from a wider integer wraps"""
        nm = dtype if isinstance(dtype, str) else getattr(getattr(dtype, "dt", None) or dtype, "name", None)
        b = self.INT_BITS.get(nm)
        if b is None or a.dt != "i" or src.dt == "b":
            return a
        lo, hi = (-(1 << (b[0] - 1)), (1 << (b[0] - 1)) - 1) if b[1] else (0, (1 << b[0]) - 1)
        lo_, hi_, n = tm.const(lo), tm.const(hi), tm.const(hi - lo + 1)

        def sat(t):
            if tm.isc(t):
                v = int(tm.cval(t))
                return tm.const(min(max(v, lo), hi) if src.dt == "f" else (v - lo) % (hi - lo + 1) + lo)
            if src.dt == "f":
                return tm.ite(tm.lt(t, lo_), lo_, tm.ite(tm.lt(hi_, t), hi_, t))
            q = t - lo_
            return q - n * tm.fn("floor", tm.div(q, n)) + lo_

        return self.map(sat, a, dt="i")

    def f_array(self, x, dtype=None, copy=None, ndmin=0, **k):
        if isinstance(x, Qty):
            self.it.event("unit-strip", f"conversion of a Quantity [{x.unit}] to a bare array")
            x = x.m
        x = self._strip(x)
        a = self.A(x)
        dt = self._dt(dtype, a.dt)
        a = self._narrow(self._cast(a, dt), a, dtype)
        r = Arr(a.d.copy(), dt, a.kind, a.tr)
        while r.ndim < ndmin:
            r = Arr(r.d[None], dt, a.kind, a.tr)
        if isinstance(dtype, DT) and dtype.name:
            r.dtt = dtype
        return r

    def _strip(self, x):
        if isinstance(x, (list, tuple)) and any(isinstance(y, Qty) for y in x):
            self.it.event("unit-strip", "conversion of Quantities to a bare array")
            return [y.m if isinstance(y, Qty) else y for y in x]
        return x

    def f_asarray(self, x, dtype=None, **k):
        a = x if isinstance(x, Arr) else None
        if a is not None and a.kind == "np" and dtype is None:
            return Arr(a.d, a.dt, "np", a.tr)  # numpy: no copy, writes go through
        return self.f_array(x, dtype, **k)

    def f_zeros(self, shape, dtype=None):
        dt = self._dt(dtype, "f")
        return Arr(obj_array(self.shape_(shape), tm.FALSE if dt == "b" else tm.ZERO), dt, "np")

    f_empty = f_zeros

    def f_ones(self, shape, dtype=None):
        dt = self._dt(dtype, "f")
        return Arr(obj_array(self.shape_(shape), tm.TRUE if dt == "b" else tm.ONE), dt, "np")

    def f_full(self, shape, fill_value, dtype=None):
        v = self.A(fill_value)
        sh = self.shape_(shape)
        try:
            d = np.broadcast_to(v.d, sh)
        except ValueError:
            self.err("ValueError", "full broadcast")
        return Arr(d.copy(), self._dt(dtype, v.dt), "np", v.tr)

    def _like(self, x, v, dtype, shape):
        x = x.m if isinstance(x, Qty) else x
        x = self.A(x)
        sh = x.shape if shape is None else self.shape_(shape)
        dt = self._dt(dtype, x.dt)
        v = tm.lift(v)
        return Arr(obj_array(sh, v if dt != "b" else tm.boolean(v)), dt, x.kind, x.tr)

    def f_zeros_like(self, x, dtype=None, shape=None):
        return self._like(x, 0, dtype, shape)

    f_empty_like = f_zeros_like

    def f_ones_like(self, x, dtype=None, shape=None):
        return self._like(x, 1, dtype, shape)

    def f_full_like(self, x, fill_value, dtype=None, shape=None):
        if isinstance(fill_value, Qty):
            self.err("TypeError", "Quantity fill_value")
        v = self.A(fill_value)
        x = self.A(x.m if isinstance(x, Qty) else x)
        sh = x.shape if shape is None else self.shape_(shape)
        try:
            d = np.broadcast_to(v.d, sh).copy()
        except ValueError:
            self.err("ValueError", "full_like broadcast")
        return Arr(d, self._dt(dtype, x.dt), "np", frozenset().union(x.tr or EMPTY, v.tr or EMPTY))

    def f_arange(self, start, stop=None, step=None, dtype=None):
        if stop is None:
            start, stop = 0, start
        step = 1 if step is None else step
        for v in (start, stop, step):
            if isinstance(v, Arr) and v.tr:
                self.it.event("concretisation", "arange bounds are traced")
        fs = [self._num(v) for v in (start, stop, step)]
        out = []
        x = fs[0]
        while (x < fs[1]) if fs[2] > 0 else (x > fs[1]):
            out.append(tm.const(x if isinstance(x, (int, Fraction)) else Fraction(str(x))))
            x = x + fs[2]
        dt = "i" if all(isinstance(f, int) or f.denominator == 1 for f in fs) else "f"
        a = Arr(obj_array((len(out),)), self._dt(dtype, dt), "np")
        for i, t in enumerate(out):
            a.d[i] = t
        return a

    def _num(self, v):
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return v
        n = self.const_num(self.A(v).item_t())
        if n is None:
            raise AnalysisError("non-constant arange bound")
        return n if isinstance(n, (int, Fraction)) else Fraction(str(n))

    def f_linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        n = self.int_(num)
        a, b = self.A(start), self.A(stop)
        div = n - 1 if endpoint else n
        rows = []
        for i in range(n):
            if i == 0 or div == 0:
                rows.append(self.f_add(a, self.f_multiply(b, 0)) if a.shape != b.shape else a)
            elif i == div:
                rows.append(b)
            else:
                w = tm.const(Fraction(i, div))
                rows.append(self.map(lambda x, y: tm.add(tm.mul(tm.sub(tm.ONE, w), x), tm.mul(w, y)), a, b))
        r = self.f_stack(rows, 0) if rows else Arr(obj_array((0,)), "f", "np")
        r.dt = "f"
        return r

    def f_eye(self, n, m=None, dtype=None, k=0):
        n = self.int_(n)
        m = n if m is None else self.int_(m)
        return Arr(np.eye(n, m, k=k).astype(int), "f", "np")

    f_identity = f_eye

    def f_diag(self, v, k=0):
        v = self.A(v)
        if v.ndim == 1:
            n = v.shape[0]
            d = obj_array((n, n), tm.ZERO)
            for i in range(n):
                d[i, i] = v.d[i]
            return Arr(d, v.dt, v.kind, v.tr)
        return Arr(np.array([v.d[i, i] for i in range(min(v.shape))], dtype=object), v.dt, v.kind, v.tr)

    def f_meshgrid(self, *xs, indexing="xy", **k):
        xs = [self.A(x) for x in xs]
        ds = np.meshgrid(*[np.arange(x.size) for x in xs], indexing=indexing)
        return [Arr(x.d.reshape(-1)[d], x.dt, x.kind, x.tr) for x, d in zip(xs, ds)]

    # -------------------------------------------------------------- shape
    def shape_of(self, x, name):
        """jnp.shape & co. accept any object; one that isn't an array is a scalar"""
        if isinstance(x, Qty):
            x = x.m
        if x is None or isinstance(x, (str, dict)):
            x = 0
        elif isinstance(x, Obj):
            v = self.it.getattr(x, name, None)
            if v is not None:
                return v
            x = 0
        return getattr(self.A(x), name)

    def f_shape(self, x):
        return self.shape_of(x, "shape")

    def f_ndim(self, x):
        return self.shape_of(x, "ndim")

    def f_size(self, x):
        return self.shape_of(x, "size")

    def re(self, x, d):
        return Arr(d, x.dt, x.kind, x.tr)

    def f_reshape(self, x, shape=None, *more, order="C", newshape=None):
        x = self.A(x)
        shape = newshape if shape is None else shape
        sh = self.shape_(shape) if not more else self.shape_((shape,) + more)
        try:
            return self.re(x, x.d.reshape(sh))
        except ValueError:
            self.err("TypeError", f"cannot reshape {x.shape} into {sh}")

    def f_ravel(self, x, order="C"):
        x = self.A(x)
        return self.re(x, x.d.reshape(-1))

    f_flatten = f_ravel

    def f_squeeze(self, x, axis=None):
        x = self.A(x)
        if axis is None:
            return self.re(x, x.d.reshape(tuple(s for s in x.shape if s != 1)))
        return self.re(x, np.squeeze(x.d, axis=axis))

    def f_expand_dims(self, x, axis):
        x = self.A(x)
        return self.re(x, np.expand_dims(x.d, axis))

    def f_transpose(self, x, *axes):
        x = self.A(x)
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        return self.re(x, np.transpose(x.d, axes or None))

    def _axes(self, x, *axes):
        for a in axes:
            for b in a if isinstance(a, (tuple, list)) else (a,):
                if not isinstance(b, int):
                    self.err("TypeError", "an axis is an integer")
                if not -x.ndim <= b < x.ndim:
                    self.err("ValueError", f"axis {b} is out of bounds for array of dimension {x.ndim}")

    def f_swapaxes(self, x, a, b):
        x, a, b = self.A(x), self.int_(a), self.int_(b)
        self._axes(x, a, b)
        return self.re(x, np.swapaxes(x.d, a, b))

    def f_moveaxis(self, x, a, b):
        x = self.A(x)
        self._axes(x, a, b)
        return self.re(x, np.moveaxis(x.d, a, b))

    def f_atleast_1d(self, *xs):
        r = []
        for x in xs:
            x = self.A(x)
            r.append(x if x.ndim >= 1 else self.re(x, x.d.reshape(1)))
        return r[0] if len(r) == 1 else r

    def f_atleast_2d(self, *xs):
        r = []
        for x in xs:
            x = self.A(x)
            r.append(x if x.ndim >= 2 else self.re(x, x.d.reshape((1, -1) if x.ndim == 1 else (1, 1))))
        return r[0] if len(r) == 1 else r

    def f_broadcast_to(self, x, shape):
        x = self.A(x)
        try:
            return self.re(x, np.broadcast_to(x.d, self.shape_(shape)).copy())
        except ValueError:
            self.err("ValueError", "broadcast_to")

    def f_broadcast_arrays(self, *xs):
        xs = [self.A(x) for x in xs]
        return [self.re(x, d.copy()) for x, d in zip(xs, self.bc(*xs))]

    def f_flip(self, x, axis=None):
        x = self.A(x)
        return self.re(x, np.flip(x.d, axis))

    def f_roll(self, x, shift, axis=None):
        x = self.A(x)
        return self.re(x, np.roll(x.d, shift, axis))

    def f_tile(self, x, reps):
        x = self.A(x)
        return self.re(x, np.tile(x.d, reps))

    def f_repeat(self, x, n, axis=None, **k):
        x = self.A(x)
        return self.re(x, np.repeat(x.d, self.int_(n), axis))

    def _seq(self, xs):
        if isinstance(xs, Arr):
            return self.it.iterate(xs)
        return [self.A(x) for x in self.it.iterate(xs)]

    def f_stack(self, xs, axis=0, **k):
        xs = self._seq(xs)
        if not xs:
            self.err("ValueError", "need at least one array to stack")
        if len({x.shape for x in xs}) != 1:
            self.err("ValueError", "all input arrays must have the same shape")
        tr = frozenset().union(*[x.tr or EMPTY for x in xs])
        try:
            d = np.stack([x.d for x in xs], axis=axis)
        except ValueError as e:
            self.err("ValueError", str(e))
        return Arr(d, promote(*[x.dt for x in xs]), self.out_kind(*xs), tr)

    def f_concatenate(self, xs, axis=0, **k):
        xs = self._seq(xs)
        tr = frozenset().union(*[x.tr or EMPTY for x in xs])
        try:
            if axis is None:
                d = np.concatenate([x.d.reshape(-1) for x in xs])
            else:
                d = np.concatenate([x.d for x in xs], axis=axis)
        except ValueError as e:
            self.err("TypeError", str(e))
        return Arr(d, promote(*[x.dt for x in xs]), self.out_kind(*xs), tr)

    def f_append(self, a, v, axis=None):
        return self.f_concatenate([self.f_ravel(a), self.f_ravel(v)]) if axis is None else self.f_concatenate([a, v], axis)

    def f_hstack(self, xs, **k):
        xs = [self.f_atleast_1d(x) for x in self._seq(xs)]
        return self.f_concatenate(xs, 0 if xs[0].ndim == 1 else 1)

    def f_vstack(self, xs, **k):
        return self.f_concatenate([self.f_atleast_2d(x) for x in self._seq(xs)], 0)

    def f_column_stack(self, xs, **k):
        xs = [x if x.ndim > 1 else self.re(x, x.d.reshape(-1, 1)) for x in self._seq(xs)]
        return self.f_concatenate(xs, 1)

    def f_take(self, x, idx, axis=None, **k):
        x = self.A(x)
        if axis is None:
            x = self.f_ravel(x)
            axis = 0
        return self.it.models.getitem(x, (slice(None),) * axis + (idx,))

    # ----------------------------------------------------------- reductions
    def f_sum(self, x, axis=None, dtype=None, keepdims=False, **k):
        x = self.A(x)
        if x.dt == "b":
            x = self._cast(x, "i")
        return self.reduce(tm.add, x, axis, tm.ZERO, keepdims)

    def f_prod(self, x, axis=None, keepdims=False, **k):
        return self.reduce(tm.mul, x, axis, tm.ONE, keepdims)

    def f_mean(self, x, axis=None, keepdims=False, **k):
        x = self.A(x)
        s = self.f_sum(x, axis, None, keepdims)
        n = x.size // max(1, s.size)
        return self.map(lambda t: tm.div(t, tm.const(n)), s)

    def f_average(self, x, axis=None, weights=None, **k):
        if weights is None:
            return self.f_mean(x, axis)
        return self.f_divide(self.f_sum(self.f_multiply(x, weights), axis), self.f_sum(weights, axis))

    def f_max(self, x, axis=None, keepdims=False, **k):
        return self.reduce(tm.max_, x, axis, None, keepdims)

    def f_min(self, x, axis=None, keepdims=False, **k):
        return self.reduce(tm.min_, x, axis, None, keepdims)

    def f_all(self, x, axis=None, keepdims=False, **k):
        return self.reduce(tm.and_, x, axis, tm.TRUE, keepdims, "b")

    def f_any(self, x, axis=None, keepdims=False, **k):
        return self.reduce(tm.or_, x, axis, tm.FALSE, keepdims, "b")

    def f_cumsum(self, x, axis=None, **k):
        x = self.A(x)
        if axis is None:
            x = self.f_ravel(x)
            axis = 0
        d = x.d.copy()
        d2 = np.moveaxis(d, axis, 0)
        for i in range(1, d2.shape[0]):
            for j in np.ndindex(d2.shape[1:]):
                d2[(i,) + j] = tm.add(d2[(i - 1,) + j], d2[(i,) + j])
        return self.re(x, d)

    def f_cumprod(self, x, axis=None, **k):
        x = self.A(x)
        if axis is None:
            x = self.f_ravel(x)
            axis = 0
        d = x.d.copy()
        d2 = np.moveaxis(d, axis, 0)
        for i in range(1, d2.shape[0]):
            for j in np.ndindex(d2.shape[1:]):
                d2[(i,) + j] = tm.mul(d2[(i - 1,) + j], d2[(i,) + j])
        return self.re(x, d)

    def f_diff(self, x, n=1, axis=-1, **k):
        x = self.A(x)
        if k:
            raise AnalysisError("diff with prepend/append")
        axis = self.axis_(axis, x.ndim)
        for _ in range(self.int_(n)):
            d = np.moveaxis(x.d, axis, 0)
            lo, hi = np.moveaxis(d[:-1], 0, axis), np.moveaxis(d[1:], 0, axis)
            x = self.f_subtract(self.re(x, hi), self.re(x, lo))
        return x

    def f_std(self, x, axis=None, **k):
        return self.f_sqrt(self.f_var(x, axis, **k))

    def f_var(self, x, axis=None, dtype=None, ddof=0, keepdims=False, **k):
        if k:
            raise AnalysisError("options of var")
        m = self.f_mean(x, axis, keepdims=True)
        s = self.f_sum(self.f_square(self.f_subtract(x, m)), axis, None, keepdims)
        n = self.A(x).size // max(1, s.size)
        return self.f_divide(s, n - self.int_(ddof))

    def f_count_nonzero(self, x, axis=None, keepdims=False, **k):
        return self.f_sum(self._cast(self.A(x), "b"), axis, None, keepdims)

    def f_allclose(self, a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
        r = self.map(lambda x, y, rt, at: tm.le(tm.abs_(tm.sub(x, y)), tm.add(at, tm.mul(rt, tm.abs_(y)))), a, b, self.A(rtol), self.A(atol), dt="b")
        return self.f_all(r)

    def f_isclose(self, a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
        return self.map(lambda x, y, rt, at: tm.le(tm.abs_(tm.sub(x, y)), tm.add(at, tm.mul(rt, tm.abs_(y)))), a, b, self.A(rtol), self.A(atol), dt="b")

    def f_array_equal(self, a, b, **k):
        if self.A(a).shape != self.A(b).shape:
            return self.A(False)
        return self.f_all(self.f_equal(a, b))

    # -------------------------------------------------------------- linalg
    def f_dot(self, a, b, **k):
        a, b = self.A(a), self.A(b)
        if a.ndim == 0 or b.ndim == 0:
            return self.f_multiply(a, b)
        return self.f_tensordot(a, b, 1) if b.ndim == 1 else self._mm(a, b, -1, -2)

    def f_vdot(self, a, b):
        return self.f_dot(self.f_ravel(a), self.f_ravel(b))

    f_inner = f_dot

    def f_tensordot(self, a, b, axes=2):
        a, b = self.A(a), self.A(b)
        try:
            ax = axes if isinstance(axes, int) else tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in axes)
            d = np.tensordot(a.d, b.d, ax)
        except ValueError as e:
            self.err("TypeError", str(e))
        d = self._fix0(d)
        return Arr(d, promote(a.dt, b.dt), self.out_kind(a, b), (a.tr or EMPTY) | (b.tr or EMPTY))

    def _fix0(self, d):
        if not isinstance(d, np.ndarray):
            return tm.lift(d)
        out = obj_array(d.shape)
        for i in np.ndindex(d.shape):
            out[i] = tm.lift(d[i])
        return out

    def _mm(self, a, b, i, j):
        if a.shape[i] != b.shape[j]:
            self.err("TypeError", f"dot: shapes {a.shape} {b.shape}")
        d = np.tensordot(a.d, b.d, (i, j))
        return Arr(self._fix0(d), promote(a.dt, b.dt), self.out_kind(a, b), (a.tr or EMPTY) | (b.tr or EMPTY))

    def f_matmul(self, a, b, **k):
        a, b = self.A(a), self.A(b)
        if a.ndim == 0 or b.ndim == 0:
            self.err("ValueError", "matmul input operand has 0 dims")
        if a.ndim <= 2 and b.ndim <= 2:
            if a.shape[-1] != b.shape[0]:
                self.err("TypeError", f"matmul: shapes {a.shape} {b.shape}")
            d = np.tensordot(a.d, b.d, (-1, 0))
            return Arr(self._fix0(d), promote(a.dt, b.dt), self.out_kind(a, b), (a.tr or EMPTY) | (b.tr or EMPTY))
        if b.ndim == 1:
            return self._mm(a, b, -1, 0)
        try:
            d = np.matmul(a.d, b.d)
        except ValueError as e:
            self.err("TypeError", str(e))
        return Arr(self._fix0(d), promote(a.dt, b.dt), self.out_kind(a, b), (a.tr or EMPTY) | (b.tr or EMPTY))

    def f_outer(self, a, b):
        a, b = self.f_ravel(a), self.f_ravel(b)
        return self.f_multiply(self.re(a, a.d[:, None]), self.re(b, b.d[None, :]))

    def f_cross(self, a, b, **k):
        a, b = self.A(a), self.A(b)
        g = self.it.models.getitem
        ai = [g(a, (Ellipsis, i)) for i in range(3)]
        bi = [g(b, (Ellipsis, i)) for i in range(3)]
        m, s = self.f_multiply, self.f_subtract
        return self.f_stack([s(m(ai[1], bi[2]), m(ai[2], bi[1])), s(m(ai[2], bi[0]), m(ai[0], bi[2])), s(m(ai[0], bi[1]), m(ai[1], bi[0]))], -1)

    def f_einsum(self, spec, *ops, **k):
        ops = [self.A(o) for o in ops]
        spec = str(spec).replace(" ", "")
        ins, _, out = spec.partition("->")
        ins = ins.split(",")
        if len(ins) != len(ops):
            self.err("ValueError", "einsum operands")
        ell = ""
        if "." in spec:
            # the axes of an ellipsis broadcast, aligned at the right
            spare = [chr(c) for c in range(0x391, 0x3C9) if c != 0x3A2]
            nell = [o.ndim - len(i.replace("...", "")) if "..." in i else 0 for i, o in zip(ins, ops)]
            if min(nell) < 0:
                self.err("ValueError", "einsum rank")
            ell = "".join(spare[:max(nell)])
            ins = [i.replace("...", ell[len(ell) - q:]) for i, q in zip(ins, nell)]
            out = out.replace("...", ell)
            if "." in out or any("." in i for i in ins):
                self.err("ValueError", "einsum subscripts")
        if not _:
            cnt = {}
            for c in "".join(ins):
                cnt[c] = cnt.get(c, 0) + 1
            out = ell + "".join(sorted(c for c in cnt if cnt[c] == 1 and c not in ell))
        dims = {}
        for s, o in zip(ins, ops):
            if len(s) != o.ndim:
                self.err("ValueError", "einsum rank")
            for c, n in zip(s, o.shape):
                if c in ell and dims.get(c, n) != n and 1 in (n, dims[c]):
                    dims[c] = max(n, dims[c])
                elif dims.setdefault(c, n) != n:
                    self.err("ValueError", "einsum size")
        sumax = [c for c in dims if c not in out]
        res = obj_array(tuple(dims[c] for c in out))
        for oi in np.ndindex(res.shape):
            env = dict(zip(out, oi))
            acc = tm.ZERO
            for si in itertools.product(*[range(dims[c]) for c in sumax]):
                env.update(zip(sumax, si))
                p = tm.ONE
                for s, o in zip(ins, ops):
                    p = tm.mul(p, o.d[tuple(0 if c in ell and o.shape[a] == 1 else env[c] for a, c in enumerate(s))])
                    if p is tm.ZERO:
                        break
                acc = tm.add(acc, p)
            res[oi] = acc
        return Arr(res, promote(*[o.dt for o in ops]), self.out_kind(*ops), frozenset().union(*[o.tr or EMPTY for o in ops]))

    def solve(self, A, B):
        A, B = self.A(A), self.A(B)
        n = A.shape[0]
        if tm.RAW[0] and not tm.free_vars(*A.flat()):
            # a matrix of numbers: eliminate with exact zeros
            tm.RAW[0] = False
            try:
                simple = obj_array(A.shape)
                for ix in np.ndindex(A.shape):
                    simple[ix] = tm.subst(A.d[ix], {}, True)
                inv = self.solve(Arr(simple, "f", A.kind), self.f_eye(n))
            finally:
                tm.RAW[0] = True
            r = self.f_matmul(inv, B)
            r.tr, r.kind = (A.tr or EMPTY) | (B.tr or EMPTY), self.out_kind(A, B)
            return r
        M = [[A.d[i, j] for j in range(n)] for i in range(n)]
        b2 = B.d.reshape(n, -1)
        R = [[b2[i, j] for j in range(b2.shape[1])] for i in range(n)]
        for c in range(n):
            p = next((i for i in range(c, n) if M[i][c] is not tm.ZERO), None)
            if p is None:
                raise AnalysisError("singular matrix")
            M[c], M[p], R[c], R[p] = M[p], M[c], R[p], R[c]
            for i in range(n):
                if i == c or M[i][c] is tm.ZERO:
                    continue
                f = tm.div(M[i][c], M[c][c])
                M[i] = [tm.sub(x, tm.mul(f, y)) if y is not tm.ZERO else x for x, y in zip(M[i], M[c])]
                M[i][c] = tm.ZERO
                R[i] = [tm.sub(x, tm.mul(f, y)) if y is not tm.ZERO else x for x, y in zip(R[i], R[c])]
        out = obj_array(b2.shape)
        for i in range(n):
            for j in range(b2.shape[1]):
                out[i, j] = tm.div(R[i][j], M[i][i])
        return Arr(out.reshape(B.shape), "f", self.out_kind(A, B), (A.tr or EMPTY) | (B.tr or EMPTY))

    def inv(self, A):
        A = self.A(A)
        if A.ndim != 2 or A.shape[0] != A.shape[1]:
            self.err("ValueError", "inv")
        return self.solve(A, self.f_eye(A.shape[0]))

    def norm(self, x, ord=None, axis=None, keepdims=False):  # noqa
        x = self.A(x)
        return self.f_sqrt(self.f_sum(self.f_square(x), axis, None, keepdims))

    # ------------------------------------------------------------- search
    def f_searchsorted(self, a, v, side="left", **k):
        a, v = self.A(a), self.A(v)

        def one(t):
            r = tm.ZERO
            for x in a.flat():
                c = tm.lt(x, t) if side == "left" else tm.le(x, t)
                r = tm.add(r, tm.ite(c, tm.ONE, tm.ZERO))
            return r

        r = self.map(one, v, dt="i")
        r.tr = (a.tr or EMPTY) | (v.tr or EMPTY)
        r.kind = self.out_kind(a, v)
        return r

    def f_digitize(self, v, bins, right=False):
        return self.f_searchsorted(bins, v, "left" if right else "right")

    def f_argsort(self, x, axis=-1, **k):
        x = self.A(x)
        vals = [self.const_num(t) for t in x.flat()]
        if x.ndim == 1 and all(v is not None for v in vals):
            vals = self._ordered(vals)
            return Arr(np.array(sorted(range(len(vals)), key=lambda i: vals[i]), dtype=int), "i", "np")
        raise AnalysisError("argsort of unknown values")

    def f_argmax(self, x, axis=None, **k):
        return self._arg_axis(x, axis, lambda a, b: a < b)

    def f_argmin(self, x, axis=None, **k):
        return self._arg_axis(x, axis, lambda a, b: a > b)

    def _arg_axis(self, x, axis, less):
        x = self.A(x)
        if axis is None:
            return self._arg(x, less)
        self._axes(x, axis)
        return self._along(x, axis, lambda r: self._arg(r, less))

    def _along(self, x, axis, f):
        """f of the one-dimensional slices along an axis; f gives an array of any shape"""
        m = np.moveaxis(x.d, axis, -1)
        parts = [f(self.re(x, m[i].copy())) for i in np.ndindex(*m.shape[:-1])]
        if not parts:
            raise AnalysisError("slices of an empty array")
        d = obj_array(m.shape[:-1] + parts[0].shape)
        for i, r in zip(np.ndindex(*m.shape[:-1]), parts):
            if r.shape:
                for j in np.ndindex(*r.shape):
                    d[i + j] = r.d[j]
            else:
                d[i] = r.item_t()
        if parts[0].shape:
            d = np.moveaxis(d, -1, axis)
        return Arr(d, parts[0].dt, parts[0].kind, x.tr)

    @staticmethod
    def _ordered(vals):
        """numbers that compare with each other"""
        return vals if all(isinstance(v, (int, Fraction)) for v in vals) else [mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else v for v in vals]

    def _arg(self, x, less):
        x = self.A(x)
        vals = [self.const_num(t) for t in x.flat()]
        if any(v is None for v in vals):
            # symbolic arg-extremum as a gamma chain
            lt = tm.lt if less(0, 1) else (lambda a, b: tm.lt(b, a))
            best, idx = x.flat()[0], tm.ZERO
            for i, t in enumerate(x.flat()[1:], 1):
                c = lt(best, t)
                best, idx = tm.ite(c, t, best), tm.ite(c, tm.const(i), idx)
            return Arr(idx, "i", x.kind, x.tr)
        vals = self._ordered(vals)
        b = 0
        for i, v in enumerate(vals):
            if less(vals[b], v):
                b = i
        return Arr(tm.const(b), "i", "np")

    def f_sort(self, x, axis=-1, **k):
        x = self.A(x)
        if axis is None:
            x, axis = self.f_ravel(x), -1
        self._axes(x, axis)
        if x.ndim > 1:
            return self._along(x, axis, self.f_sort)
        vals = [self.const_num(t) for t in x.flat()]
        if x.ndim == 1 and all(v is not None for v in vals):
            vals = self._ordered(vals)
            o = sorted(range(len(vals)), key=lambda i: vals[i])
            return self.re(x, x.d[o])
        if x.ndim == 1:
            # sorting network of min/max nodes
            ts = x.flat()
            n = len(ts)
            for i in range(n):
                for j in range(n - 1 - i):
                    a, b = ts[j], ts[j + 1]
                    ts[j], ts[j + 1] = tm.min_(a, b), tm.max_(a, b)
            d = obj_array((n,))
            for i, t in enumerate(ts):
                d[i] = t
            return self.re(x, d)
        raise AnalysisError("sort of unknown values")

    def f_unique(self, x, **k):
        x = self.A(x)
        if all(tm.isc(t) for t in x.flat()):
            vs = sorted({tm.cval(t) for t in x.flat()})
            return self.A([Arr(tm.const(v), x.dt, "np") for v in vs])
        raise AnalysisError("unique")

    def f_interp(self, x, xp, fp, left=None, right=None, period=None):
        if self.A(xp).ndim != 1 or self.A(fp).shape != self.A(xp).shape:
            self.err("ValueError", "xp and fp must be one-dimensional arrays of equal size")
        xp, fp = self.A(xp), self.A(fp)
        xs, fs = xp.flat(), fp.flat()
        if len(xs) != len(fs):
            self.err("ValueError", "xp and fp must have the same length")
        le = self.A(left).item_t() if left is not None and not isinstance(left, str) else fs[0]
        ri = self.A(right).item_t() if right is not None and not isinstance(right, str) else fs[-1]
        pe = None if period is None else self.A(period).item_t()
        n = len(xs)

        def one(t):
            if pe is None:
                return tm._mk("fn", "interp", tm.const(n), t, *xs, *fs, le, ri)
            return tm._mk("fn", "interp", tm.const(n), t, *xs, *fs, le, ri, pe)

        r = self.map(one, x)
        r.tr = frozenset(tr_of([self.A(x), xp, fp]))
        return r

    def f_polyval(self, p, x):
        p = self.A(p)
        r = self.A(0)
        for c in self.it.iterate(p):
            r = self.f_add(self.f_multiply(r, x), c)
        return r

    # ------------------------------------------------------------ complex
    def f_real(self, x):
        x = self.A(x)
        return self.map(tm.re_, x, dt="f") if x.dt == "c" else x

    def f_imag(self, x):
        x = self.A(x)
        return self.map(tm.im_, x, dt="f" if x.dt == "c" else x.dt)

    def f_conj(self, x):
        x = self.A(x)
        return self.map(tm.conj_, x, dt="c") if x.dt == "c" else x

    def f_iscomplexobj(self, x):
        return self.A(x).dt == "c"

    def f_isscalar(self, x):
        return isinstance(x, (int, float)) or (isinstance(x, Arr) and x.kind == "py")

    def f_result_type(self, *xs):
        dts = []
        for x in xs:
            x = x.m if isinstance(x, Qty) else x
            if isinstance(x, DT):
                dts.append(x)
            else:
                dts.append(self.dtype_of(self.A(x)))
        best = max(dts, key=lambda d: RANK[d.k])
        return best

    def f_dtype(self, x):
        if isinstance(x, DT):
            return x
        if isinstance(x, Arr):
            return self.dtype_of(x)
        if getattr(x, "dt", None) is not None and isinstance(x.dt, DT):
            return x.dt
        return DT(self._dt(x, "f"), None)

    def dtype_of(self, a):
        if a.dtt is not None:
            return a.dtt
        return DT(a.dt, None)

    def f_promote_types(self, a, b):
        a, b = self.f_dtype(a), self.f_dtype(b)
        return a if RANK[a.k] >= RANK[b.k] else b

    def f_copy(self, x):
        x = self.A(x)
        return self.re(x, x.d.copy())
