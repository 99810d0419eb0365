"""Models of everything outside the repository: Python builtins, the standard
library, equinox modules, JAX transforms, jpu/pint quantities."""
from __future__ import annotations

import ast
import builtins as _b
import collections
import itertools
import math as _math
from fractions import Fraction

import numpy as np

from . import extmore
from . import pylang
from . import terms as tm
from .terms import T
from .values import (
    AnalysisError, Arr, FieldSpec, HostObj, Obj, Opaque, OStr, PyClass, PyRaise, Qty, Unit, UnitTable, obj_array, scalar,
)
from .npmodel import DT, EMPTY, NP, Sparse, promote, tr_of


class BType(HostObj):
    """a builtin type: callable and usable in isinstance"""

    def __init__(self, name, call, check, dt=None):
        self.bname = name
        self._call = call
        self.check = check
        self.dt = dt
        self.__name__ = name

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __repr__(self):
        return f"<type {self.bname}>"


class ExtModule(HostObj):
    def __init__(self, name, ns=None):
        self.name = name
        self.ns_ = ns or {}

    def __repr__(self):
        return f"<ext module {self.name}>"


class DefaultDict(dict):
    def __init__(self, factory, *a):
        super().__init__(*a)
        self.factory = factory


class MappingProxy(HostObj):
    pass


class FieldCall(HostObj):
    def __init__(self, **k):
        self.k = k


class SuperMarker(HostObj):
    pass


class Param(HostObj):
    empty = None

    def __init__(self, name, kind, default):
        self.name = name
        self.kind = kind
        self.default = default
        self.annotation = None


class _Empty(HostObj):
    def __repr__(self):
        return "<empty>"


PEMPTY = _Empty()
KINDS = {"POSITIONAL_ONLY": 0, "POSITIONAL_OR_KEYWORD": 1, "VAR_POSITIONAL": 2, "KEYWORD_ONLY": 3, "VAR_KEYWORD": 4}


class TreeDef(HostObj):
    def __init__(self, models, key, build, n):
        self.models = models
        self.key = key
        self.build = build
        self.num_leaves = n

    def eq_(self, o):
        return isinstance(o, TreeDef) and self.key == o.key

    def unflatten(self, leaves):
        ls = list(self.models.it.iterate(leaves))
        if len(ls) != self.num_leaves:
            self.models.it.raise_("ValueError", "wrong number of leaves")
        return self.build(iter(ls))

    def __eq__(self, o):
        return self.eq_(o)

    def __hash__(self):
        return hash(str(self.key))


class Registry(HostObj):
    pass


class CustomJVP(HostObj):
    pass


class WFun(HostObj):
    """lu.WrappedFun"""

    def __init__(self, models, f, transforms=()):
        self.models = models
        self.f = f
        self.transforms = transforms

    def call_wrapped(self, *args, **kwargs):
        it = self.models.it
        stack = []
        for gen, gargs, store in self.transforms:
            g = it.call(gen, [*gargs, *args], kwargs)
            k, v = g.resume()
            if k != "yield":
                raise AnalysisError("transformation did not yield")
            args, kwargs = it.iterate(v)
            args = it.iterate(args)
            stack.append((g, store))
        ans = it.call(self.f, list(args), dict(kwargs))
        while stack:
            g, store = stack.pop()
            k, ans = g.resume(ans)
            if store is not None:
                ans, aux = it.iterate(ans)
                store.append(aux)
        return ans


class AtHelper(HostObj):
    def __init__(self, models, arr, idx=None):
        self.models = models
        self.arr = arr
        self.idx = idx

    def getitem_(self, k):
        return AtHelper(self.models, self.arr, k)

    def _upd(self, fn, v):
        m = self.models
        if m._has_dynamic(self.idx):
            return self._dyn(fn, v)
        a = self.arr
        v = m.np.A(v)
        d = a.d.copy()
        # flat positions written; out of bounds updates are dropped
        pos = self._positions(m.static_index(self.idx, a), d.shape)
        try:
            vb = np.broadcast_to(v.d, pos.shape)
        except ValueError:
            m.it.raise_("ValueError", "incompatible shapes in .at[].set")
        flat = d.reshape(-1)
        for i in np.ndindex(pos.shape):
            if pos[i] >= 0:
                flat[pos[i]] = fn(flat[pos[i]], vb[i])
        d = flat.reshape(a.d.shape)
        return m.jx(Arr(d, a.dt, "jax", (a.tr or EMPTY) | (v.tr or EMPTY)))

    @staticmethod
    def _positions(idx, shape):
        pos = np.full([n + 1 for n in shape], -1)
        pos[tuple(slice(0, n) for n in shape)] = np.arange(int(np.prod(shape))).reshape(shape)
        if not isinstance(idx, tuple):
            idx = (idx,)
        used = sum(k.ndim if isinstance(k, np.ndarray) and k.dtype == bool else 1 for k in idx if k is not None and k is not Ellipsis)
        if not any(k is Ellipsis for k in idx):
            idx = (*idx, Ellipsis)
        out, ax = [], 0
        for k in idx:
            if k is None:
                out.append(None)
            elif k is Ellipsis:
                for _ in range(len(shape) - used):
                    out.append(slice(0, shape[ax]))
                    ax += 1
            elif isinstance(k, slice):
                i = np.arange(shape[ax])[k]
                out.append(slice(0, 0) if not len(i) else slice(int(i[0]), None if i[-1] == 0 and k.step is not None and k.step < 0 else int(i[-1]) + (1 if (k.step or 1) > 0 else -1), k.step))
                ax += 1
            elif isinstance(k, np.ndarray) and k.dtype == bool:
                for w in np.nonzero(k):
                    out.append(w)
                    ax += 1
            else:
                n = shape[ax]
                k = np.asarray(k)
                k = np.where(k < 0, k + n, k)
                k = np.where((k < 0) | (k >= n), n, k)
                out.append(int(k) if k.ndim == 0 else k)
                ax += 1
        return np.asarray(pos[tuple(out)])

    def _dyn(self, fn, v):
        m = self.models
        a = self.arr
        k = self.idx
        if not (isinstance(k, Arr) and k.ndim == 0):
            raise AnalysisError("dynamic .at index")
        v = m.np.A(v)
        d = a.d.copy()
        for i in range(a.shape[0]):
            c = tm.eq(k.item_t(), tm.const(i))
            if a.ndim == 1:
                d[i] = tm.ite(c, fn(d[i], v.d.reshape(-1)[0]), d[i])
            else:
                vb = np.broadcast_to(v.d, d[i].shape)
                for j in np.ndindex(d[i].shape):
                    d[i][j] = tm.ite(c, fn(d[i][j], vb[j]), d[i][j])
        return m.jx(Arr(d, a.dt, "jax", frozenset(tr_of([a, k, v]))))

    def set(self, v, **k):
        return self._upd(lambda a, b: b, v)

    def add(self, v, **k):
        return self._upd(tm.add, v)

    def subtract(self, v, **k):
        return self._upd(tm.sub, v)

    def _scatter_mul(self, v, k):
        """jax derives scatter_mul with respect to the updates only for unique indices"""
        m = self.models
        if not m.diff_ids or k.get("unique_indices"):
            return
        idx = self.idx if isinstance(self.idx, tuple) else (self.idx,)
        if any(isinstance(i, (list, np.ndarray)) or (isinstance(i, Arr) and i.ndim) for i in idx) and set(tr_of([v])) & set(m.diff_ids):
            m.it.event("nondifferentiable", "scatter multiplication without unique_indices=True by a differentiated value")

    def multiply(self, v, **k):
        self._scatter_mul(v, k)
        return self._upd(tm.mul, v)

    mul = multiply

    def divide(self, v, **k):
        self._scatter_mul(v, k)
        return self._upd(tm.div, v)

    def max(self, v, **k):
        return self._upd(tm.max_, v)

    def min(self, v, **k):
        return self._upd(tm.min_, v)

    def power(self, v, **k):
        self._scatter_mul(v, k)
        return self._upd(tm.pow_, v)

    def get(self, **k):
        return self.models.getitem(self.arr, self.idx)


def install(interp, unit_table=None):
    return Models(interp, unit_table or UnitTable())


_ids = itertools.count(1)


class Models:
    def __init__(self, it, ut):
        self.it = it
        self.ut = ut
        self.np = NP(it)
        self.jit_ids = []  # active jit traces
        self.diff_ids = []  # active derivative traces
        self.grad_mode = False
        self.object_cls = PyClass("object", [], {})

        def raw_setattr(o, n, v):
            self.it.wrote(o)
            o.attrs[n] = v

        self.object_cls.ns["__setattr__"] = raw_setattr
        self.exc = {}
        self._exceptions()
        self.modcls = PyClass("Module", [self.object_cls], {})
        self.modcls.builtin = "eqx"
        self.super_marker = SuperMarker()
        self.registry = Registry()
        self.object_init = _b.object()
        self.generic = PyClass("Generic", [self.object_cls], {})
        self.generic.builtin = "generic"
        self.protocol = PyClass("Protocol", [self.object_cls], {})
        self.ext = {}
        self._types()
        self._builtins()
        self._externals()
        extmore.install(self)
        pylang.install(self)

    # =========================================================== exceptions
    def _exceptions(self):
        def mk(name, base=None):
            c = PyClass(name, [base] if base else [self.object_cls], {})
            c.builtin = "exc"
            self.exc[name] = c
            return c

        be = mk("BaseException")
        ex = mk("Exception", be)
        for n in "AttributeError TypeError ValueError NameError ImportError AssertionError RuntimeError LookupError ArithmeticError StopIteration Warning OSError SyntaxError".split():
            mk(n, ex)
        mk("ModuleNotFoundError", self.exc["ImportError"])
        mk("KeyError", self.exc["LookupError"])
        mk("IndexError", self.exc["LookupError"])
        mk("NotImplementedError", self.exc["RuntimeError"])
        mk("RecursionError", self.exc["RuntimeError"])
        mk("ZeroDivisionError", self.exc["ArithmeticError"])
        mk("OverflowError", self.exc["ArithmeticError"])
        mk("UserWarning", self.exc["Warning"])
        mk("DeprecationWarning", self.exc["Warning"])
        mk("RuntimeWarning", self.exc["Warning"])
        mk("FutureWarning", self.exc["Warning"])
        mk("FileNotFoundError", self.exc["OSError"])
        mk("FrozenInstanceError", self.exc["AttributeError"])
        mk("DimensionalityError", self.exc["TypeError"])
        mk("UndefinedUnitError", self.exc["AttributeError"])

    # ================================================================ types
    def _types(self):
        isnum = lambda x: isinstance(x, (int, Fraction)) and not isinstance(x, bool)  # noqa
        pyf = lambda x: isinstance(x, Arr) and x.kind == "py" and x.dt == "f"  # noqa
        B = {}

        def add(name, call, check, dt=None):
            B[name] = BType(name, call, check, dt)

        add("int", self.b_int, lambda x: isinstance(x, int) or (isinstance(x, Arr) and x.kind == "py" and x.dt in "ib" and x.ndim == 0), DT("i", "int"))
        add("float", self.b_float, pyf, DT("f", None))
        add("bool", self.b_bool, lambda x: isinstance(x, bool), DT("b", "bool"))
        add("complex", lambda re=0, im=0: Arr(tm.cx(self.np.A(re).item_t(), self.np.A(im).item_t()), "c", "py"), lambda x: False, DT("c", "complex"))
        add("str", self.b_str, lambda x: isinstance(x, str))
        add("bytes", lambda *a: Opaque("bytes"), lambda x: False)
        add("tuple", lambda x=(): tuple(self.it.iterate(x)), lambda x: isinstance(x, tuple))
        add("list", lambda x=(): list(self.it.iterate(x)), lambda x: isinstance(x, list))
        add("dict", self.b_dict, lambda x: isinstance(x, dict))
        add("set", lambda x=(): set(self.key(y) for y in self.it.iterate(x)), lambda x: isinstance(x, set))
        add("frozenset", lambda x=(): frozenset(self.key(y) for y in self.it.iterate(x)), lambda x: isinstance(x, frozenset))
        add("range", self.b_range, lambda x: isinstance(x, range))
        add("slice", lambda *a: slice(*a), lambda x: isinstance(x, slice))
        add("type", self.b_type, lambda x: isinstance(x, (PyClass, BType)))
        self.types = B

    # ============================================================= builtins
    def _builtins(self):
        b = dict(self.exc)
        b.update(self.types)
        b["object"] = self.object_cls
        for n in dir(self):
            if n.startswith("b_") and n[2:] not in b:
                b[n[2:]] = getattr(self, n)
        b["property"] = lambda fget=None, fset=None, fdel=None, doc=None: self._prop(fget, fset)
        from .interp import ClassMethod, StaticMethod

        b["classmethod"] = lambda f: ClassMethod(f)
        b["staticmethod"] = lambda f: StaticMethod(f)
        b["super"] = self.super_marker
        b["NotImplemented"] = NotImplemented
        b["Ellipsis"] = Ellipsis
        b["__name__"] = "__main__"
        b["True"], b["False"], b["None"] = True, False, None
        self.builtins = b

    def _prop(self, fget, fset):
        from .interp import Property

        return Property(fget, fset)

    def b_len(self, x):
        if isinstance(x, Arr):
            if x.ndim == 0:
                self.it.raise_("TypeError", "len() of unsized object")
            return x.shape[0]
        if isinstance(x, Qty):
            return self.b_len(x.m)
        if isinstance(x, Obj):
            f, _ = x.cls.lookup("__len__")
            if f is None:
                self.it.raise_("TypeError", f"object of type {x.cls.name} has no len()")
            from .interp import BoundMethod

            return self.it.call(BoundMethod(f, x), [], {})
        if isinstance(x, Opaque):
            return Opaque("len")
        if isinstance(x, Sparse):
            return x.arr.shape[0]
        try:
            return len(x)
        except TypeError:
            self.it.raise_("TypeError", f"object of type {type(x).__name__} has no len()")

    def b_range(self, *a):
        a = [self.np.int_(i) for i in a]
        if len(a) == 3 and a[2] == 0:
            self.it.raise_("ValueError", "range() arg 3 must not be zero")
        return range(*a)

    def b_str(self, x=""):
        if isinstance(x, str):
            return x
        if pylang.plain(x):
            return str(x)
        if isinstance(x, Obj):
            f, _ = x.cls.lookup("__str__")
            if f is not None:
                return self.it.call(f, [x], {})
            a = x.attrs.get("args")
            if isinstance(a, tuple) and len(a) < 2 and pylang.plain(a):
                return str(*a)
        return OStr("<str>")

    def b_int(self, x=0, *a):
        if isinstance(x, (int, bool)):
            return int(x)
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError as e:
                self.it.raise_("ValueError", str(e))
        if x is None or isinstance(x, (list, tuple, dict, Obj)):
            self.it.raise_("TypeError", "int() argument must be a string or a number")
        if isinstance(x, Qty):
            if self.ut.dim(x.unit):
                self.it.raise_("DimensionalityError", "int of dimensional quantity")
            x = self.to(x, Unit()).m
        if isinstance(x, Arr):
            if x.size != 1:
                self.it.raise_("TypeError", "only length-1 arrays can be converted to Python scalars")
            if x.tr:
                self.it.event("concretisation", "int() of a traced value")
            t = x.item_t()
            v = self.np.const_num(t)
            if v is not None:
                return int(v)
            return Arr(self._trunc(t), "i", "py")
        if isinstance(x, Opaque):
            return Opaque("int")
        return self.np.int_(x)

    def _trunc(self, t):
        if t.op == "fn" and t.args[0] in ("floor", "ceil", "rint", "trunc"):
            return t
        return tm.fn("trunc", t)

    def b_float(self, x=0):
        if isinstance(x, str):
            return scalar(tm.const(float(x)))
        if isinstance(x, (int, bool)):
            return scalar(tm.const(int(x)), "f")
        if isinstance(x, Qty):
            if self.ut.dim(x.unit):
                self.it.raise_("DimensionalityError", "float of dimensional quantity")
            x = self.to(x, Unit()).m
        if isinstance(x, Arr):
            if x.size != 1:
                self.it.raise_("TypeError", "only length-1 arrays can be converted to Python scalars")
            if x.tr:
                self.it.event("concretisation", "float() of a traced value")
            return Arr(tm.num(x.item_t()), "f", "py")
        if x is None:
            self.it.raise_("TypeError", "float() argument must be a string or a real number")
        raise AnalysisError(f"float({x!r})")

    def b_bool(self, x=False):
        return self.it.truth(x)

    def b_dict(self, x=None, **k):
        d = {}
        if isinstance(x, dict):
            d.update(x)
        elif x is not None:
            for kv in self.it.iterate(x):
                a, b = self.it.iterate(kv)
                d[self.key(a)] = b
        d.update(k)
        return d

    def b_type(self, x, *a):
        if a:
            raise AnalysisError("type() with three arguments")
        if isinstance(x, Obj):
            return x.cls
        if isinstance(x, pylang.NT):
            return x.pycls
        if x is None:
            return BType("NoneType", lambda: None, lambda y: y is None)
        for n in ("bool", "int", "float", "str", "tuple", "list", "dict", "set", "range"):
            if self.types[n].check(x):
                return self.types[n]
        if isinstance(x, Qty):
            return self.quantity_type
        if isinstance(x, Arr):
            return self.tracer_type if x.tr else self.array_type
        return Opaque("type")

    def b_isinstance(self, x, t):
        if isinstance(t, tuple):
            return any(self.b_isinstance(x, y) for y in t)
        if isinstance(t, BType):
            return bool(t.check(x))
        if isinstance(t, PyClass):
            if isinstance(x, Obj):
                return x.cls.subclass_of(t)
            if t is self.object_cls:
                return True
            return isinstance(x, pylang.NT) and x.pycls.subclass_of(t)
        if isinstance(t, UnionType):
            return any(self.b_isinstance(x, y) for y in t.ts)
        if isinstance(x, Opaque):
            raise AnalysisError("isinstance of unknown value")
        if isinstance(t, Opaque):
            if isinstance(x, (Obj, Qty, Unit, int, str, tuple, list, dict)) or x is None:
                return False
            raise AnalysisError(f"isinstance against unknown type {t}")
        if t is None:
            return x is None
        if isinstance(t, Wrappedish):
            self.it.raise_("TypeError", "isinstance() arg 2 must be a type")
        raise AnalysisError(f"isinstance({x!r}, {t!r})")

    def b_issubclass(self, x, t):
        if isinstance(t, tuple):
            return any(self.b_issubclass(x, y) for y in t)
        return isinstance(x, PyClass) and isinstance(t, PyClass) and x.subclass_of(t)

    def b_callable(self, x):
        from .interp import BoundMethod, PyFunc

        if isinstance(x, (PyFunc, BoundMethod, PyClass, BType)):
            return True
        if isinstance(x, Obj):
            return x.cls.lookup("__call__")[0] is not None
        if isinstance(x, (Arr, Qty, Unit, int, str, list, tuple, dict)) or x is None:
            return False
        return callable(x)

    def b_hasattr(self, x, n):
        d = object()
        return self.it.getattr(x, n, d) is not d

    def b_getattr(self, x, n, *d):
        if d:
            return self.it.getattr(x, n, d[0])
        return self.it.getattr(x, n)

    def b_setattr(self, x, n, v):
        self.it.setattr(x, n, v)

    def b_enumerate(self, x, start=0):
        return pylang.IterObj((i + start, v) for i, v in enumerate(self.it.lazy(x)))

    def b_zip(self, *xs, strict=False):
        return pylang.IterObj(self._together(xs, strict is True))

    def _together(self, xs, strict=False):
        """tuples of the elements of iterables advanced in step"""
        gens = [self.it.lazy(x) for x in xs]
        if not gens:
            return
        while True:
            row = []
            for k, g in enumerate(gens):
                try:
                    row.append(next(g))
                except StopIteration:
                    if strict and (k or any(next(h, self) is not self for h in gens[1:])):
                        self.it.raise_("ValueError", "zip() arguments have different lengths")
                    return
            yield tuple(row)

    def b_map(self, f, *xs):
        return pylang.IterObj(self.it.call(f, list(a), {}) for a in self._together(xs))

    def b_filter(self, f, xs):
        return pylang.IterObj(x for x in self.it.lazy(xs) if self.it.truth(x if f is None else self.it.call(f, [x], {})))

    def b_any(self, x):
        for v in self.it.lazy(x):
            if self.it.truth(v):
                return True
        return False

    def b_all(self, x):
        for v in self.it.lazy(x):
            if not self.it.truth(v):
                return False
        return True

    def b_sum(self, x, start=0):
        r = start
        for v in self.it.iterate(x):
            r = self.binop("Add", r, v)
        return r

    def _minmax(self, lt, args, key, default):
        xs = self.it.iterate(args[0]) if len(args) == 1 else list(args)
        if not xs:
            if default is not _NO:
                return default
            self.it.raise_("ValueError", "empty sequence")
        b = xs[0]
        kb = self.it.call(key, [b], {}) if key else b
        for x in xs[1:]:
            kx = self.it.call(key, [x], {}) if key else x
            from .interp import AbstractBranch

            c = self.compare(lt, kx, kb)
            try:
                t = self.it.truth(c)
            except AbstractBranch:
                # without tracers, min and max of unknown scalars are the functions min and max
                if key or not isinstance(c, Arr) or c.tr or any(isinstance(v, Arr) and (v.tr or v.shape) for v in (x, b)):
                    raise
                b = kb = (self.np.f_minimum if lt == "Lt" else self.np.f_maximum)(b, x)
                continue
            if t:
                b, kb = x, kx
        return b

    def b_max(self, *a, key=None, default=None, **k):
        return self._minmax("Gt", a, key, default if default is not None else _NO)

    def b_min(self, *a, key=None, default=None, **k):
        return self._minmax("Lt", a, key, default if default is not None else _NO)

    def b_abs(self, x):
        return self.unop("abs", x)

    def b_round(self, x, n=None):
        if isinstance(x, int):
            return x
        r = self.np.f_round(x, n or 0)
        return self.b_int(r) if n is None else r

    def b_pow(self, a, b):
        return self.binop("Pow", a, b)

    def b_ord(self, s):
        return ord(s)

    def b_chr(self, i):
        return chr(self.np.int_(i))

    def b_divmod(self, a, b):
        return (self.binop("FloorDiv", a, b), self.binop("Mod", a, b))

    def b_sorted(self, xs, key=None, reverse=False):
        import functools

        xs = self.it.iterate(xs)
        ks = [self.it.call(key, [x], {}) if key else x for x in xs]

        def cmp(i, j):
            if self.it.truth(self.compare("Lt", ks[i], ks[j])):
                return -1
            return 1 if self.it.truth(self.compare("Lt", ks[j], ks[i])) else 0

        o = sorted(range(len(xs)), key=functools.cmp_to_key(cmp), reverse=reverse)
        return [xs[i] for i in o]

    def b_reversed(self, x):
        return pylang.IterObj(reversed(self.it.iterate(x)))

    def b_iter(self, x):
        return x if hasattr(x, "gen") else pylang.IterObj(self.it.lazy(x))

    def b_next(self, x, *d):
        from .interp import Generator

        if isinstance(x, Generator):
            k, v = x.resume()
            if k == "yield":
                return v
        elif hasattr(x, "gen"):
            for v in x.gen:
                return v
        if d:
            return d[0]
        self.it.raise_("StopIteration", "")

    def b_print(self, *a, **k):
        self.it.event("io", "print")

    def b_repr(self, x):
        return OStr("<repr>")

    def b_format(self, *a):
        return OStr("<fmt>")

    def b_id(self, x):
        return id(x)

    def b_hash(self, x):
        return Opaque("hash")

    def b_vars(self, x):
        return self.it.getattr(x, "__dict__")

    def b_open(self, *a, **k):
        self.it.event("io", "open")
        return Opaque("file")

    def b_globals(self):
        raise AnalysisError("globals()")

    # ====================================================== units, quantities
    def to_unit(self, u):
        """pint's to_units_container"""
        if isinstance(u, Unit):
            return u
        if isinstance(u, Qty):
            return u.unit
        if isinstance(u, OStr):
            raise AnalysisError("unknown unit string")
        if isinstance(u, str):
            return self.parse_unit(u)
        if u is None:
            return Unit()
        self.it.raise_("TypeError", f"not a unit: {u!r}")

    def parse_unit(self, s):
        s = s.strip()
        if not s:
            return Unit()
        try:
            tree = ast.parse(s.replace("^", "**"), mode="eval").body
        except SyntaxError:
            raise AnalysisError(f"unit string {s!r}")

        def ev(n):
            if isinstance(n, ast.Name):
                u = self.ut.unit(n.id)
                if u is None:
                    self.it.raise_("UndefinedUnitError", n.id)
                return u
            if isinstance(n, ast.Constant) and n.value == 1:
                return Unit()
            if isinstance(n, ast.BinOp):
                if isinstance(n.op, ast.Mult):
                    return ev(n.left).mul(ev(n.right))
                if isinstance(n.op, ast.Div):
                    return ev(n.left).mul(ev(n.right), -1)
                if isinstance(n.op, ast.Pow):
                    return ev(n.left).pow(Fraction(ast.literal_eval(n.right)))
            raise AnalysisError(f"unit string {s!r}")

        return ev(tree)

    def dim_error(self, a, b):
        o = Obj(self.exc["DimensionalityError"])
        o.attrs.update(args=(f"Cannot convert from {a} to {b}",), units1=a, units2=b, dim1=OStr("d1"), dim2=OStr("d2"))
        raise PyRaise(o, self.it.site())

    def to(self, q, u):
        u = self.to_unit(u)
        if q.unit == u:
            return q
        if self.ut.dim(q.unit) != self.ut.dim(u):
            self.dim_error(q.unit, u)
        r = self.ut.ratio(q.unit, u)
        if r is tm.ONE:
            return Qty(q.m, u)
        return Qty(self.binop("Mult", q.m, scalar(r)), u)

    def quantity(self, v, u=None):
        if isinstance(v, Unit):
            v = Qty(1, v)
        if isinstance(v, str):
            raise AnalysisError("Quantity of string")
        if isinstance(v, Qty):
            return v if u is None else self.to(v, u)
        if isinstance(v, (list, tuple)):
            if any(isinstance(x, Qty) for x in v):
                raise AnalysisError("Quantity of a list of quantities")
            v = self.np.A(v)
        return Qty(v, self.to_unit(u))

    def is_zero(self, x):
        if isinstance(x, (int, float, Fraction)):
            return x == 0
        if isinstance(x, Arr):
            return x.size > 0 and all(tm.isc(t) and tm.cval(t) == 0 for t in x.flat())
        return False

    def q_binop(self, op, a, b):
        it = self.it
        if isinstance(a, Unit) and isinstance(b, Unit):
            if op == "Mult":
                return a.mul(b)
            if op == "Div":
                return a.mul(b, -1)
            it.raise_("TypeError", "unsupported unit operation")
        if isinstance(a, Unit) and op == "Pow":
            return a.pow(self._exponent(b))
        if isinstance(a, Unit):
            a = Qty(1, a)
        if isinstance(b, Unit):
            b = Qty(1, b)
        for x in (a, b):
            if x is None or isinstance(x, (str, dict, Obj)):
                it.raise_("TypeError", f"unsupported operand for quantity arithmetic: {type(x).__name__}")
        if op in ("Mult", "Div", "MatMult"):
            am, au = (a.m, a.unit) if isinstance(a, Qty) else (a, Unit())
            bm, bu = (b.m, b.unit) if isinstance(b, Qty) else (b, Unit())
            if op == "Div" and isinstance(am, int) and isinstance(bm, int):
                pass
            return Qty(self.binop(op, am, bm), au.mul(bu, -1 if op == "Div" else 1))
        if op in ("Add", "Sub"):
            if isinstance(a, Qty) and isinstance(b, Qty):
                if self.ut.dim(a.unit) != self.ut.dim(b.unit):
                    self.dim_error(a.unit, b.unit)
                return Qty(self.binop(op, a.m, self.to(b, a.unit).m), a.unit)
            q, x = (a, b) if isinstance(a, Qty) else (b, a)
            if isinstance(x, Arr) and x.kind == "jax":
                # jpu: jax arrays are dimensionless quantities
                x = Qty(x, Unit())
                if self.ut.dim(q.unit):
                    self.dim_error(q.unit, x.unit)
                qm, u = (q.m, q.unit) if True else None
                xm = self.to(x, q.unit).m
                return Qty(self.binop(op, qm, xm) if q is a else self.binop(op, xm, qm), u)
            if self.is_zero(x):
                return Qty(self.binop(op, q.m, x) if q is a else self.binop(op, x, q.m), q.unit)
            if self.ut.dim(q.unit):
                self.dim_error(q.unit, Unit())
            qm = self.to(q, Unit()).m
            return Qty(self.binop(op, qm, x) if q is a else self.binop(op, x, qm), Unit())
        if op == "Pow":
            if isinstance(a, Qty):
                if isinstance(b, Qty):
                    b = self.to(b, Unit()).m
                if not a.unit.u:
                    return Qty(self.binop("Pow", a.m, b), Unit())
                p = self._exponent(b)
                return Qty(self.binop("Pow", a.m, b), a.unit.pow(p))
            return self.binop("Pow", a, self.to(b, Unit()).m)
        if op in ("Mod", "FloorDiv"):
            # pint: operands must share dimensionality, result in a's units
            am = a if isinstance(a, Qty) else Qty(a, Unit())
            bm = b if isinstance(b, Qty) else Qty(b, Unit())
            if self.ut.dim(am.unit) != self.ut.dim(bm.unit):
                self.dim_error(am.unit, bm.unit)
            r = self.binop(op, am.m, self.to(bm, am.unit).m)
            return Qty(r, am.unit if op == "Mod" else Unit())
        it.raise_("TypeError", f"unsupported operand for {op}: quantity")

    def _exponent(self, b):
        if isinstance(b, int):
            return Fraction(b)
        if isinstance(b, Arr) and b.size == 1:
            t = b.item_t()
            if tm.isc(t):
                return tm.cval(t)
        self.it.raise_("DimensionalityError", "quantity power with a non-constant exponent")

    def q_compare(self, op, a, b):
        if isinstance(a, Unit) and isinstance(b, Unit):
            r = a == b
            if op in ("Eq", "NotEq"):
                return r if op == "Eq" else not r
            self.it.raise_("TypeError", "unit comparison")
        if isinstance(a, Unit) or isinstance(b, Unit):
            if isinstance(a, (Qty, Unit)) and isinstance(b, (Qty, Unit)):
                a = Qty(1, a) if isinstance(a, Unit) else a
                b = Qty(1, b) if isinstance(b, Unit) else b
            else:
                return op == "NotEq"
        if not isinstance(a, Qty) or not isinstance(b, Qty):
            q, x = (a, b) if isinstance(a, Qty) else (b, a)
            if x is None or isinstance(x, (str, tuple, dict, Obj)):
                if op in ("Eq", "NotEq"):
                    return op == "NotEq"
                self.it.raise_("TypeError", "comparison of quantity")
            if self.is_zero(x) or not q.unit.u:
                m = q.m
            elif not self.ut.dim(q.unit):
                m = self.to(q, Unit()).m
            else:
                if op in ("Eq", "NotEq"):
                    return op == "NotEq"
                self.it.raise_("ValueError", "Cannot compare Quantity and plain number")
            return self.compare(op, m, x) if q is a else self.compare(op, x, m)
        if self.ut.dim(a.unit) != self.ut.dim(b.unit):
            if op in ("Eq", "NotEq"):
                return op == "NotEq"
            self.dim_error(a.unit, b.unit)
        return self.compare(op, a.m, self.to(b, a.unit).m)

    # ============================================================= operators
    BIN = {
        "Add": "add", "Sub": "subtract", "Mult": "multiply", "Div": "divide", "Pow": "power", "Mod": "mod", "FloorDiv": "floor_divide",
        "MatMult": "matmul", "BitAnd": "bitwise_and", "BitOr": "bitwise_or", "BitXor": "bitwise_xor", "LShift": "left_shift", "RShift": "right_shift",
    }
    DUNDER = {
        "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv",
        "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift",
    }

    def jx(self, r):
        """result of a jax operation: traced under every active jit"""
        if isinstance(r, Arr):
            r.kind = "jax"
            if self.jit_ids:
                r.tr = (r.tr or EMPTY) | frozenset(self.jit_ids)
            return r
        if isinstance(r, list):
            return [self.jx(x) for x in r]
        if isinstance(r, tuple):
            return tuple(self.jx(x) for x in r)
        return r

    def native(self, x):
        return isinstance(x, (bool, int, str)) or (isinstance(x, (tuple, list)))

    def binop(self, op, a, b):
        it = self.it
        # fast path: native ints
        if isinstance(a, int) and isinstance(b, int):
            return self.int_binop(op, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            from .interp import BoundMethod

            n = self.DUNDER[op]
            if isinstance(a, Obj):
                f, _ = a.cls.lookup(f"__{n}__")
                if f is not None:
                    r = it.call(BoundMethod(f, a), [b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                f, _ = b.cls.lookup(f"__r{n}__")
                if f is not None:
                    r = it.call(BoundMethod(f, b), [a], {})
                    if r is not NotImplemented:
                        return r
            it.raise_("TypeError", f"unsupported operand types for {op}")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("arith")
        if isinstance(a, (Qty, Unit)) or isinstance(b, (Qty, Unit)):
            return self.q_binop(op, a, b)
        if isinstance(a, Sparse) or isinstance(b, Sparse):
            return self.sp_binop(op, a, b)
        if isinstance(a, str) or isinstance(b, str):
            if op == "Mod":
                if isinstance(a, str) and not isinstance(a, OStr) and pylang.plain(b):
                    return a % b
                return OStr("<fmt>")
            if isinstance(a, str) and isinstance(b, str) and op == "Add":
                return OStr(a + b) if isinstance(a, OStr) or isinstance(b, OStr) else a + b
            if op == "Mult" and (isinstance(b, int) or isinstance(a, int)):
                return a * b
            it.raise_("TypeError", "unsupported operand for str")
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if isinstance(a, Arr) and a.kind != "py" or isinstance(b, Arr) and b.kind != "py":
                if isinstance(a, Arr) and a.kind == "jax" or isinstance(b, Arr) and b.kind == "jax":
                    it.raise_("TypeError", "jax array operator with a Python sequence")
            elif op == "Add" and type(a) is type(b):
                return a + b
            elif op == "Mult":
                s, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
                return s * self.np.int_(n)
            else:
                it.raise_("TypeError", "unsupported operand for sequence")
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"BitOr": a | b, "BitAnd": a & b, "Sub": a - b, "BitXor": a ^ b}[op]
        if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
            return {**a, **b}
        if op == "BitOr" and self._istype(a) and self._istype(b):
            return UnionType([a, b])
        if isinstance(a, T) or isinstance(b, T):
            pass
        for x in (a, b):
            if x is None or isinstance(x, (dict, PyClass)):
                it.raise_("TypeError", f"unsupported operand type(s) for {op}: {type(x).__name__}")
        r = self.np.funcs[self.BIN[op]](a, b)
        if isinstance(r, Arr):
            if r.kind == "jax":
                return self.jx(r)
            if r.kind == "np" and r.tr:
                return self.jx(r)
        return r

    def _istype(self, x):
        return x is None or isinstance(x, (BType, PyClass, UnionType, Opaque, ExtModule)) or callable(x)

    def int_binop(self, op, a, b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if b == 0:
                self.it.raise_("ZeroDivisionError", "division by zero")
            return scalar(tm.const(Fraction(a, b)), "f", "py")
        if op == "FloorDiv":
            if b == 0:
                self.it.raise_("ZeroDivisionError", "division by zero")
            return a // b
        if op == "Mod":
            if b == 0:
                self.it.raise_("ZeroDivisionError", "division by zero")
            return a % b
        if op == "Pow":
            if b < 0:
                return scalar(tm.const(Fraction(a) ** b), "f", "py")
            return a ** b
        f = {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b}
        if op in f:
            return f[op]()
        raise AnalysisError(op)

    def sp_binop(self, op, a, b):
        sa = isinstance(a, Sparse)
        sb = isinstance(b, Sparse)
        if op == "MatMult":
            raw, tm.RAW[0] = tm.RAW[0], False  # entries a sparse matrix does not store contribute nothing
            try:
                r = self.np.f_matmul(a.arr if sa else a, b.arr if sb else b)
            finally:
                tm.RAW[0] = raw
            jax = (sa and a.jax) or (sb and b.jax) or r.kind == "jax"
            if jax:
                r = self.jx(r)
            return Sparse(r, jax) if sa and sb else r
        r = self.np.funcs[self.BIN[op]](a.arr if sa else a, b.arr if sb else b)
        s = a if sa else b
        if s.jax:
            r = self.jx(r)
        return Sparse(r, s.jax)

    def unop(self, op, x):
        if isinstance(x, Qty):
            if op == "Not":
                return not self.it.truth(x)
            return Qty(self.unop(op, x.m), x.unit)
        if op == "Not":
            return not self.it.truth(x)
        if isinstance(x, bool):
            return {"USub": -x, "UAdd": +x, "Invert": ~x, "abs": abs(x)}[op]
        if isinstance(x, int):
            return {"USub": -x, "UAdd": x, "Invert": ~x, "abs": abs(x)}[op]
        if isinstance(x, Opaque):
            return x
        if isinstance(x, Sparse):
            return Sparse(self.unop(op, x.arr), x.jax)
        if isinstance(x, Arr):
            f = {"USub": "negative", "UAdd": "positive", "Invert": "invert", "abs": "abs"}[op]
            r = self.np.funcs[f](x)
            return self.jx(r) if x.kind == "jax" else r
        if isinstance(x, Obj):
            from .interp import BoundMethod

            n = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__", "abs": "__abs__"}[op]
            f, _ = x.cls.lookup(n)
            if f is not None:
                return self.it.call(BoundMethod(f, x), [], {})
        self.it.raise_("TypeError", f"bad operand type for unary {op}: {type(x).__name__}")

    CMP = {"Lt": "less", "LtE": "less_equal", "Gt": "greater", "GtE": "greater_equal", "Eq": "equal", "NotEq": "not_equal"}

    def compare(self, op, a, b):
        it = self.it
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return not self.is_(a, b)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else not r
        if isinstance(a, (Qty, Unit)) or isinstance(b, (Qty, Unit)):
            return self.q_compare(op, a, b)
        if isinstance(a, TreeDef) or isinstance(b, TreeDef):
            r = isinstance(a, TreeDef) and a.eq_(b)
            return r if op == "Eq" else not r
        num = lambda x: isinstance(x, (int, bool))  # noqa
        if (num(a) and num(b)) or (isinstance(a, str) and isinstance(b, str)):
            return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b, "Eq": lambda: a == b, "NotEq": lambda: a != b}[op]()
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("cmp")
        if isinstance(a, Arr) or isinstance(b, Arr):
            o = b if isinstance(a, Arr) else a
            if o is None or isinstance(o, (str, Obj, PyClass, dict)):
                if op in ("Eq", "NotEq"):
                    return op == "NotEq"
                it.raise_("TypeError", "comparison of array")
            if isinstance(o, (list, tuple)) and ((a if isinstance(a, Arr) else b).kind == "jax"):
                it.raise_("TypeError", "comparison of a jax array with a sequence")
            r = self.np.funcs[self.CMP[op]](a, b)
            if r.kind == "jax":
                return self.jx(r)
            if r.ndim == 0 and r.kind == "py" and not r.tr and r.item_t().op == "b":
                return r.item_t().args[0]
            return r
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if op in ("Eq", "NotEq"):
                if type(a) is not type(b) or len(a) != len(b):
                    return op == "NotEq"
                r = all(it.truth(self.compare("Eq", x, y)) for x, y in zip(a, b))
                return r if op == "Eq" else not r
            for x, y in zip(a, b):
                if not it.truth(self.compare("Eq", x, y)):
                    return self.compare(op, x, y)
            return self.compare(op, len(a), len(b))
        if isinstance(a, dict) and isinstance(b, dict):
            r = a.keys() == b.keys() and all(it.truth(self.compare("Eq", a[k], b[k])) for k in a)
            return r if op == "Eq" else not r
        if isinstance(a, Obj):
            from .interp import BoundMethod

            n = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            f, _ = a.cls.lookup(n)
            if f is not None:
                return it.call(BoundMethod(f, a), [b], {})
            dc = None if pylang.eqx_class(a.cls) else pylang.dc_class(a.cls)
            if dc is not None:
                if isinstance(b, Obj) and a.cls is b.cls and dc.dc_eq and op in ("Eq", "NotEq") or isinstance(b, Obj) and a.cls is b.cls and dc.dc_order:
                    t = lambda o: tuple(o.attrs[n] for n in o.cls.fields)  # noqa: E731
                    return self.compare(op, t(a), t(b))
            elif a.cls.fields is not None and isinstance(b, Obj) and op in ("Eq", "NotEq") and a is not b:
                return Opaque("module equality")
        if op == "Eq":
            return a is b or (type(a) is type(b) and isinstance(a, (set, frozenset, range, DT, slice)) and a == b)
        if op == "NotEq":
            return not (self.compare("Eq", a, b))
        it.raise_("TypeError", f"'{op}' not supported between {type(a).__name__} and {type(b).__name__}")

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise AnalysisError("identity of unknown value")
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, int) and isinstance(b, int):
            return type(a) is type(b) and a == b
        from .interp import BoundMethod

        return False

    def contains(self, c, x):
        it = self.it
        if isinstance(c, dict):
            return self.key(x) in c
        if isinstance(c, (set, frozenset)):
            return self.key(x) in c
        if isinstance(c, str):
            return isinstance(x, str) and x in c
        if isinstance(c, Obj):
            from .interp import BoundMethod

            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return it.truth(it.call(BoundMethod(f, c), [x], {}))
        return any(self.is_(x, y) or it.truth(self.compare("Eq", x, y)) for y in it.iterate(c))

    def key(self, k):
        """hashable host key of an abstract value"""
        if isinstance(k, (str, int, bool, type(None), frozenset, Unit)):
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Arr):
            if k.ndim == 0 and not k.tr and k.kind != "jax":
                t = k.item_t()
                if tm.isc(t):
                    v = tm.cval(t)
                    return int(v) if v.denominator == 1 else v
                return ("term", t)
            if k.kind in ("jax", "np") and (k.ndim > 0 or k.kind == "jax"):
                self.it.raise_("TypeError", "unhashable array used as a key")
            return ("term", k.item_t())
        if isinstance(k, (list, dict, set)):
            self.it.raise_("TypeError", f"unhashable type: {type(k).__name__}")
        return k

    def elem(self, a, i):
        r = Arr(a.d[i], a.dt, a.kind, a.tr)
        r.dtt = a.dtt
        return r

    # ============================================================= indexing
    def _has_dynamic(self, k):
        if isinstance(k, tuple):
            return any(self._has_dynamic(x) for x in k)
        if isinstance(k, Arr):
            if k.dt == "b":
                return any(tm.boolean(t).op != "b" for t in k.flat())
            return any(not tm.isc(t) for t in k.flat())
        return False

    def static_index(self, k, arr=None):
        if isinstance(k, tuple):
            return tuple(self.static_index(x) for x in k)
        if isinstance(k, slice):
            f = lambda v: None if v is None else self.np.int_(v)  # noqa
            return slice(f(k.start), f(k.stop), f(k.step))
        if isinstance(k, bool) or k is None or k is Ellipsis or isinstance(k, int):
            return k
        if isinstance(k, list):
            k = self.np.A(k)
        if isinstance(k, range):
            k = self.np.A(list(k))
        if isinstance(k, Arr):
            if k.dt == "b":
                a = np.empty(k.shape, dtype=bool)
                for i in np.ndindex(k.shape):
                    a[i] = tm.boolean(k.d[i]).args[0]
                return a
            if k.dt == "f" and k.size:
                self.it.raise_("TypeError", "array index must be an integer")
            a = np.empty(k.shape, dtype=int)
            for i in np.ndindex(k.shape):
                a[i] = int(tm.cval(k.d[i]))
            return int(a) if k.ndim == 0 else a
        if isinstance(k, Qty):
            self.it.raise_("TypeError", "quantity index")
        raise AnalysisError(f"index {k!r}")

    def getitem(self, o, k):
        it = self.it
        if isinstance(o, Arr):
            if isinstance(k, Arr) and k.dt == "b" and k.ndim > 0:
                if k.tr:
                    it.event("concretisation", "boolean mask indexing with a traced mask")
                if self._has_dynamic(k):
                    k = self.np.resolve_mask(k)
                if self._has_dynamic(k):
                    return self.mask_select(o, k)
            if self._has_dynamic(k):
                return self.dyn_index(o, k)
            idx = self.static_index(k, o)
            d = o.d
            if o.kind == "jax":
                idx = self._clamp(idx, d.shape)
            try:
                r = d[idx]
            except IndexError as e:
                it.raise_("IndexError", str(e))
            if not (isinstance(r, np.ndarray) and r.dtype == object):
                a = obj_array(())
                a[()] = r
                r = a
            elif o.kind != "np":
                r = r.copy()
            tr = (o.tr or EMPTY) | frozenset(tr_of(k if isinstance(k, tuple) else [k]))
            res = Arr(r, o.dt, o.kind, tr, o.origin)
            res.dtt = o.dtt
            return self.jx(res) if o.kind == "jax" else res
        if isinstance(o, Qty):
            return Qty(self.getitem(o.m, k), o.unit)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                return o[self.static_index(k)]
            if isinstance(k, Arr) and k.tr:
                it.event("concretisation", "traced value used as a Python sequence index")
            i = self.np.int_(k) if not isinstance(k, (tuple, str)) else it.raise_("TypeError", "list indices must be integers")
            try:
                return o[i]
            except IndexError:
                it.raise_("IndexError", "index out of range")
        if isinstance(o, DefaultDict):
            kk = self.key(k)
            if kk not in o:
                if o.factory is None:
                    it.raise_("KeyError", str(kk))
                o[kk] = it.call(o.factory, [], {})
            return o[kk]
        if isinstance(o, dict):
            kk = self.key(k)
            if kk not in o:
                it.raise_("KeyError", str(kk))
            return o[kk]
        if isinstance(o, Obj):
            from .interp import BoundMethod

            f, _ = o.cls.lookup("__getitem__")
            if f is None:
                it.raise_("TypeError", f"'{o.cls.name}' object is not subscriptable")
            return it.call(BoundMethod(f, o), [k], {})
        if hasattr(o, "getitem_"):
            return o.getitem_(k)
        if isinstance(o, Sparse):
            return self.getitem(o.arr, k)
        if isinstance(o, PyClass) and pylang.is_enum(o):
            if k not in o.members:
                it.raise_("KeyError", str(k))
            return o.members[k]
        if isinstance(o, (PyClass, BType, Opaque, UnionType)) or callable(o):
            return o  # subscripted generic
        it.raise_("TypeError", f"{type(o).__name__} object is not subscriptable")

    def _clamp(self, idx, shape):
        """out-of-bounds integer gather clamps in JAX"""
        def c(i, n):
            if isinstance(i, int) and not isinstance(i, bool):
                if i < 0:
                    i += n
                return min(max(i, 0), n - 1)
            if isinstance(i, np.ndarray) and i.dtype != bool:
                i = np.where(i < 0, i + n, i)
                return np.clip(i, 0, n - 1)
            return i

        if isinstance(idx, tuple):
            if any(i is Ellipsis or i is None for i in idx) or any(isinstance(i, np.ndarray) and i.dtype == bool for i in idx):
                return idx
            return tuple(c(i, shape[j]) if j < len(shape) and shape[j] else i for j, i in enumerate(idx))
        return c(idx, shape[0]) if shape and shape[0] else idx

    def mask_select(self, o, k):
        """o[mask] with unknown mask: a filtered view, kept as a guarded list"""
        return Masked(self, o, k)

    def dyn_index(self, o, k):
        if isinstance(k, tuple):
            # only a single dynamic leading scalar / trailing static supported
            dyn = [j for j, x in enumerate(k) if self._has_dynamic(x)]
            if len(dyn) == 1:
                j = dyn[0]
                pre = tuple(slice(None) for _ in range(j))
                moved = Arr(np.moveaxis(o.d, j, 0), o.dt, o.kind, o.tr)
                r = self.dyn_index(moved, k[j])
                rest = k[:j] + k[j + 1:]
                if all(isinstance(x, slice) and x == slice(None) for x in rest):
                    return Arr(np.moveaxis(r.d, 0, j), r.dt, r.kind, r.tr) if r.ndim == o.ndim else r
                return self.getitem(r, rest if len(rest) > 1 else rest[0])
            raise AnalysisError("multi-dimensional dynamic index")
        if not isinstance(k, Arr):
            raise AnalysisError("dynamic slice")
        if o.kind == "np" and k.tr:
            self.it.event("concretisation", "numpy array indexed by a traced value")
        n = o.shape[0]
        rest = o.d.shape[1:]
        out = obj_array(k.shape + rest)
        for i in np.ndindex(k.shape):
            t = k.d[i]
            for j in np.ndindex(rest):
                col = [o.d[(m,) + j] for m in range(n)]
                # normalise negative, clamp out-of-range
                if tm.isc(t):
                    v = int(tm.cval(t))
                    v = v + n if v < 0 else v
                    out[i + j] = col[min(max(v, 0), n - 1)]
                    continue
                r = col[n - 1]
                tt = tm.ite(tm.lt(t, tm.ZERO), tm.add(t, tm.const(n)), t)
                for m in range(n - 2, -1, -1):
                    r = tm.ite(tm.le(tt, tm.const(m)), col[m], r)
                out[i + j] = r
        return self.jx(Arr(out, o.dt, "jax", (o.tr or EMPTY) | (k.tr or EMPTY)))

    def setitem(self, o, k, v):
        it = self.it
        it.wrote(o.d if isinstance(o, Arr) else o)
        if isinstance(o, list):
            if isinstance(k, slice):
                o[self.static_index(k)] = it.iterate(v)
                return
            try:
                o[self.np.int_(k)] = v
            except IndexError:
                it.raise_("IndexError", "list assignment index out of range")
            return
        if isinstance(o, dict):
            if getattr(o, "origin", None) is not None:
                it.mutations.append((o.origin, it.site()))
            o[self.key(k)] = v
            return
        if isinstance(o, Arr):
            if o.kind == "jax":
                it.raise_("TypeError", "JAX arrays are immutable")
            it.mutations.append((o.origin, it.site()))
            v = self.np.A(v)
            if v.tr:
                it.event("concretisation", "traced value stored into a numpy array")
            if v.dt == "f" and o.dt == "i" and all(tm.isc(t) for t in v.flat()):  # numpy truncates
                d = obj_array(v.shape)
                for i in np.ndindex(*v.shape):
                    c = tm.cval(v.d[i])
                    d[i] = tm.const(int(c)) if c == c and abs(c) < 1e30 else v.d[i]
                v = Arr(d, "i", v.kind, v.tr)
            if self._has_dynamic(k):
                self._set_masked(o, k, v)
                return
            idx = self.static_index(k)
            sel = o.d[idx]
            if isinstance(sel, np.ndarray):
                o.d[idx] = np.broadcast_to(v.d, sel.shape)
            else:
                o.d[idx] = v.item_t()
            return
        if isinstance(o, Obj):
            from .interp import BoundMethod

            f, _ = o.cls.lookup("__setitem__")
            if f is not None:
                it.call(BoundMethod(f, o), [k, v], {})
                return
        if hasattr(o, "setitem_"):
            o.setitem_(k, v)
            return
        it.raise_("TypeError", f"{type(o).__name__} does not support item assignment")

    def _set_masked(self, o, k, v):
        """o[mask] = v for a mask with abstract elements (possibly after and before
        full slices); v a scalar, or matching the axes after the mask"""
        ks = list(k) if isinstance(k, tuple) else [k]
        if Ellipsis in [x for x in ks if x is Ellipsis]:
            n = sum(x.ndim if isinstance(x, Arr) else 1 for x in ks if x is not Ellipsis)
            i = next(i for i, x in enumerate(ks) if x is Ellipsis)
            ks[i:i + 1] = [slice(None)] * (o.ndim - n)
        pos = [i for i, x in enumerate(ks) if isinstance(x, Arr)]
        full = all(isinstance(x, slice) and x.start is None and x.stop is None and x.step in (None, 1) for x in ks if not isinstance(x, Arr))
        if len(pos) != 1 or not full or ks[pos[0]].dt != "b":
            raise AnalysisError("assignment through an abstract index")
        p, m = pos[0], ks[pos[0]]
        if m.shape != o.shape[p:p + m.ndim]:
            self.it.raise_("IndexError", "boolean index did not match indexed array")
        rest = o.ndim - p - m.ndim
        if v.ndim > (rest if p == 0 else 0):
            raise AnalysisError("array assigned through an abstract mask")
        val = np.broadcast_to(v.d, o.shape[o.ndim - rest:]) if v.ndim else v.d
        for i in np.ndindex(*o.shape):
            e = val[i[o.ndim - rest:]] if v.ndim else v.item_t()
            o.d[i] = tm.ite(tm.boolean(m.d[i[p:p + m.ndim]]), e, o.d[i])

    # ================================================================ with
    def enter(self, cm):
        if isinstance(cm, Obj):
            return self.it.call(self.it.getattr(cm, "__enter__"), [], {})
        if hasattr(cm, "enter_"):
            return cm.enter_()
        return Opaque("context")

    def exit(self, cm, exc=None):
        """leave a context; true when it swallows the exception"""
        if isinstance(cm, Obj):
            info = [None, None, None] if exc is None else [exc.exc.cls, exc.exc, Opaque("traceback")]
            r = self.it.call(self.it.getattr(cm, "__exit__"), info, {})
            return exc is not None and self.it.truth(r)
        if hasattr(cm, "exit_"):
            return bool(cm.exit_(exc))
        return False

    # ============================================================== classes
    def generic_base(self, b):
        if isinstance(b, PyClass):
            if b.builtin == "generic" or b is self.protocol:
                return b if b is self.protocol else None
            return b
        return None

    def finish_class(self, cls, anns, kw):
        if any(c.builtin == "eqx" for c in cls.mro) or getattr(cls, "want_dc", False):
            self.make_fields(cls, anns)
        cls.anns = anns
        if self.nt_base in cls.bases:
            pylang.set_nt(cls, [n for n, _, _ in anns], {n: cls.ns.pop(n) for n, has, _ in anns if has})
        if pylang.is_enum(cls):
            pylang.finish_enum(self, cls)
        for c in cls.mro[1:]:
            f = c.ns.get("__init_subclass__")
            if f is not None:
                self.it.call(getattr(f, "f", f), [cls], {k: v for k, v in kw.items() if k not in ("metaclass", "strict")})
                break

    def make_fields(self, cls, anns):
        fields = {}
        for c in reversed(cls.mro[1:]):
            if c.fields:
                fields.update(c.fields)
        for name, has, ann in anns:
            txt = ast.unparse(ann)
            if "ClassVar" in txt:
                continue
            fs = FieldSpec()
            if has:
                v = cls.ns.get(name)
                if isinstance(v, FieldCall):
                    k = v.k
                    fs.converter = k.get("converter")
                    fs.static = bool(k.get("static", False))
                    if "default" in k:
                        fs.default, fs.has_default = k["default"], True
                        cls.ns[name] = k["default"]
                    else:
                        cls.ns.pop(name, None)
                    if "default_factory" in k:
                        fs.factory, fs.has_default = k["default_factory"], True
                else:
                    fs.default, fs.has_default = v, True
            fields[name] = fs
        cls.fields = fields

    def instantiate(self, cls, args, kwargs):
        it = self.it
        from .interp import BoundMethod

        if cls.builtin == "eqx" or cls is self.object_cls:
            return Obj(cls)
        if pylang.nt_of(cls) is not None:
            return pylang.nt_make(self, cls, args, kwargs)
        if pylang.is_enum(cls):
            return pylang.enum_call(self, cls, args)
        if any(c.builtin == "exc" for c in cls.mro):
            o = Obj(cls)
            o.attrs["args"] = tuple(args)
            f, c = cls.lookup("__init__")
            if f is not None:
                it.call(BoundMethod(f, o), args, kwargs)
            return o
        newf, nc = cls.lookup("__new__")
        o = Obj(cls)
        if newf is not None:
            o = it.call(newf.f if hasattr(newf, "f") else newf, [cls, *args], kwargs)
            if not (isinstance(o, Obj) and o.cls.subclass_of(cls)):
                return o
        is_eqx = cls.fields is not None and any(c.builtin == "eqx" for c in cls.mro)
        init, owner = cls.lookup("__init__")
        dc = None if is_eqx else pylang.dc_class(cls)
        if is_eqx or dc is not None:
            init = self._init_for(cls) if is_eqx else next((c.ns["__init__"] for c in cls.mro[: cls.mro.index(dc) + 1] if "__init__" in c.ns), None)
            if init is None:
                self.dc_init(o, args, kwargs)
                post, _ = cls.lookup("__post_init__")
                if post is not None:
                    it.call(BoundMethod(post, o), [], {})
            else:
                it.call(BoundMethod(init, o), args, kwargs)
            if is_eqx:
                missing = [n for n in cls.fields if n not in o.attrs and not (cls.fields[n].has_default)]
                if missing:
                    it.raise_("ValueError", f"The following fields were not initialised during __init__: {missing}")
                for n, fs in cls.fields.items():
                    if n not in o.attrs:
                        o.attrs[n] = fs.default
                    if fs.converter is not None:
                        o.attrs[n] = it.call(fs.converter, [o.attrs[n]], {})
                o.frozen = True
                for c in cls.mro:
                    if "__check_init__" in c.ns:
                        it.call(BoundMethod(c.ns["__check_init__"], o), [], {})
            elif dc.dc_frozen:
                o.frozen = True
            return o
        if init is not None:
            it.call(BoundMethod(init, o), args, kwargs)
        elif args or kwargs:
            it.raise_("TypeError", f"{cls.name}() takes no arguments")
        return o

    def _init_for(self, cls):
        """equinox: own __init__, else inherited custom one, else dataclass"""
        for c in cls.mro:
            if "__init__" in c.ns:
                return c.ns["__init__"]
        return None

    def dc_init(self, o, args, kwargs):
        names = list(o.cls.fields)
        it = self.it
        if len(args) > len(names):
            it.raise_("TypeError", f"{o.cls.name}() takes {len(names)} positional arguments")
        vals = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in names:
                it.raise_("TypeError", f"{o.cls.name}() got an unexpected keyword argument '{k}'")
            if k in vals:
                it.raise_("TypeError", f"multiple values for '{k}'")
            vals[k] = v
        for n in names:
            fs = o.cls.fields[n]
            if n in vals:
                o.attrs[n] = vals[n]
            elif fs.has_default:
                o.attrs[n] = it.call(fs.factory, [], {}) if fs.factory is not None else fs.default
            else:
                it.raise_("TypeError", f"{o.cls.name}() missing argument '{n}'")

    def auto_init_from(self, mro):
        from .interp import Wrapped

        def f(self_, *a, **k):
            cls = mro[0] if mro else None
            if cls is not None and cls.fields:
                names = list(cls.fields)
                for n, v in zip(names, a):
                    self_.attrs[n] = v
                for n, v in k.items():
                    self_.attrs[n] = v
                for n in names:
                    if n not in self_.attrs and cls.fields[n].has_default:
                        self_.attrs[n] = cls.fields[n].default

        return Wrapped(f, binds=True)

    # =========================================================== attributes
    def getattr(self, o, name):
        it = self.it
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, Qty):
            return self.qty_attr(o, name)
        if isinstance(o, Unit):
            if name == "dimensionless":
                return not self.ut.dim(o)
            if name == "dimensionality":
                return frozenset(self.ut.dim(o).items())
            if name == "_REGISTRY":
                return self.registry
            if name in ("_units", "is_compatible_with"):
                if name == "is_compatible_with":
                    return lambda x: self.ut.dim(o) == self.ut.dim(self.to_unit(x))
                return Opaque("UnitsContainer")
            it.raise_("AttributeError", f"Unit has no attribute {name}")
        if isinstance(o, Registry):
            if name == "Quantity":
                return self.quantity_type
            if name in ("Unit", "parse_units"):
                return self.to_unit
            if name == "load_definitions":
                return lambda *a, **k: None
            u = self.ut.unit(name)
            if u is None:
                if name.startswith("__"):
                    it.raise_("AttributeError", name)
                it.raise_("UndefinedUnitError", name)
            return u
        if isinstance(o, ExtModule):
            if name in o.ns_:
                return o.ns_[name]
            sub = o.name + "." + name
            if sub in self.ext:
                return self.ext[sub]
            if name == "__name__":
                return o.name
            if name.startswith("__"):
                it.raise_("AttributeError", name)
            return Opaque(sub)
        if isinstance(o, dict):
            return self.dict_attr(o, name)
        if isinstance(o, (list, tuple, str, set, frozenset, range, int)):
            return self.native_attr(o, name)
        if isinstance(o, BType):
            if name in ("__name__", "__qualname__"):
                return o.bname
            if name == "at" and o.bname == "dummy":
                pass
            h = getattr(o, "attrs", None)
            if h and name in h:
                return h[name]
            if o.bname == "dict" and name == "fromkeys":
                return lambda ks, v=None: {self.key(k): v for k in it.iterate(ks)}
            if o.bname in ("set", "frozenset", "list", "dict", "tuple", "str") and not name.startswith("__"):
                return lambda obj, *a, **k: it.call(it.getattr(obj, name), list(a), k)
            it.raise_("AttributeError", f"{o.bname}.{name}")
        if isinstance(o, Sparse):
            return self.sparse_attr(o, name)
        if isinstance(o, DT):
            if name in ("name", "kind"):
                return OStr("dtype") if o.name is None else o.name
            if name == "type":
                return o
            it.raise_("AttributeError", name)
        if o is None:
            it.raise_("AttributeError", f"'NoneType' object has no attribute '{name}'")
        if isinstance(o, slice):
            return getattr(o, name)
        from .interp import Wrapped, Partial, Generator

        if isinstance(o, Wrapped):
            if name in o.attrs:
                return o.attrs[name]
            w = o.attrs.get("__wrapped__")
            if name in ("__name__", "__qualname__", "__doc__", "__module__", "__call__"):
                if name == "__call__":
                    return o
                if w is not None:
                    return it.getattr(w, name)
                return OStr(name)
            it.raise_("AttributeError", name)
        if isinstance(o, Partial):
            if name in ("func", "args", "keywords"):
                return getattr(o, name)
            it.raise_("AttributeError", name)
        if isinstance(o, Generator):
            if name == "send":
                return lambda v: self._gen(o, v)
            if name == "close":
                return lambda: None
        if isinstance(o, HostObj):
            if hasattr(o, name):
                return getattr(o, name)
            it.raise_("AttributeError", f"{type(o).__name__}.{name}")
        if isinstance(o, T):
            raise AnalysisError("raw term attribute")
        if callable(o):
            if name in ("__name__", "__qualname__", "__doc__", "__module__"):
                return OStr(name)
            if name == "__call__":
                return o
            if hasattr(o, "attrs_") and name in o.attrs_:
                return o.attrs_[name]
            it.raise_("AttributeError", name)
        raise AnalysisError(f"attribute {name} of {type(o).__name__}")

    def _gen(self, g, v):
        k, r = g.resume(v)
        if k == "ret":
            self.it.raise_("StopIteration", "")
        return r

    def arr_attr(self, a, name):
        it = self.it
        n = self.np
        if a.kind == "py" and a.ndim == 0:
            if name == "is_integer":
                return lambda: it.truth(Arr(tm.eq(tm.fn("floor", a.item_t()), a.item_t()), "b"))
            if name in ("real", "conjugate"):
                return n.f_real(a) if name == "real" else (lambda: n.f_conj(a))
            if name == "imag":
                return n.f_imag(a)
            it.raise_("AttributeError", f"'float' object has no attribute '{name}'")
        jx = self.jx if a.kind == "jax" else (lambda x: x)
        if name == "shape":
            return a.shape
        if name == "ndim":
            return a.ndim
        if name == "size":
            return a.size
        if name == "dtype":
            return n.dtype_of(a)
        if name == "aval":
            return Opaque("aval")
        if name == "T":
            return jx(n.f_transpose(a))
        if name in ("real", "imag"):
            return jx(n.f_real(a) if name == "real" else n.f_imag(a))
        if name == "at":
            if a.kind != "jax":
                it.raise_("AttributeError", "numpy array has no attribute 'at'")
            return AtHelper(self, a)
        if name == "item":
            def item(*ix):
                if a.tr:
                    it.event("concretisation", ".item() on a traced value")
                x = self.getitem(a, tuple(ix)) if ix else a
                if x.size != 1:
                    it.raise_("ValueError", "can only convert an array of size 1 to a Python scalar")
                return Arr(x.item_t(), x.dt, "py")
            return item
        if name == "tolist":
            def tolist():
                if a.tr:
                    it.event("concretisation", ".tolist() on a traced value")
                def rec(x):
                    if x.ndim == 0:
                        t = x.item_t()
                        return int(tm.cval(t)) if tm.isc(t) and x.dt == "i" else Arr(t, x.dt, "py")
                    return [rec(y) for y in it.iterate(x)]
                return rec(a)
            return tolist
        if name == "__array__" or name == "to_py":
            return lambda *k: n.f_copy(a)
        if name == "astype":
            def astype(dt, **k):
                r = n.f_array(a, dt)
                return jx(r)
            return astype
        if name == "fill" and a.kind == "np":
            def fill(v):
                it.mutations.append((a.origin, it.site()))
                it.wrote(a.d)
                a.d[...] = n.A(v).item_t()
            return fill
        if name == "sort" and a.kind == "np":
            def sort():
                it.mutations.append((a.origin, it.site()))
                it.wrote(a.d)
                a.d[...] = n.f_sort(a).d
            return sort
        if name == "block_until_ready":
            return lambda: a
        if name in ("__len__",):
            return lambda: self.b_len(a)
        if name == "__iter__":
            if a.ndim == 0:
                it.raise_("AttributeError", name)
            return lambda: it.iterate(a)
        if name in ("sum", "mean", "max", "min", "prod", "all", "any", "reshape", "ravel", "flatten", "squeeze", "dot", "conj", "conjugate", "transpose",
                    "swapaxes", "round", "cumsum", "cumprod", "clip", "argmax", "argmin", "argsort", "repeat", "take", "std", "var", "copy", "searchsorted"):
            f = n.funcs[name]

            def meth(*ar, **k):
                r = f(a, *ar, **k)
                if isinstance(r, Arr):
                    r.tr = (r.tr or EMPTY) | (a.tr or EMPTY)
                    if a.kind == "jax":
                        return self.jx(r)
                return r
            return meth
        if name in ("diagonal", "trace", "ptp", "astype"):
            return lambda *ar, **k: (self.jx if a.kind == "jax" else (lambda r: r))(n.funcs[name](a, *ar, **k))
        if hasattr(np.ndarray, name):
            raise AnalysisError(f"array attribute '{name}'")
        it.raise_("AttributeError", f"array has no attribute '{name}'")

    def qty_attr(self, q, name):
        it = self.it
        if name in ("magnitude", "m", "_magnitude"):
            return q.m
        if name in ("units", "u", "_units"):
            return q.unit
        if name == "to":
            return lambda u=None, *a, **k: self.to(q, u)
        if name in ("m_as",):
            return lambda u: self.to(q, u).m
        if name in ("shape", "ndim"):
            a = self.np.A(q.m)
            return a.shape if name == "shape" else a.ndim
        if name == "dtype":
            return self.np.dtype_of(self.np.A(q.m))
        if name == "dimensionless":
            return not self.ut.dim(q.unit)
        if name == "unitless":
            return not q.unit.u
        if name == "dimensionality":
            return frozenset(self.ut.dim(q.unit).items())
        if name in ("is_compatible_with", "check"):
            return lambda x: self.ut.dim(q.unit) == self.ut.dim(self.to_unit(x))
        if name == "_REGISTRY":
            return self.registry
        if name in ("to_base_units", "to_root_units"):
            def tb():
                f = self.ut.factor(q.unit)
                base = {"L": "m", "M": "kg", "T": "s", "Th": "K"}
                u = Unit({base[k]: Fraction(v) for k, v in self.ut.dim(q.unit).items()})
                return self.to(q, u)
            return tb
        if name in ("to_reduced_units", "to_compact"):
            raise AnalysisError(name)
        jn = self.jpu_funcs
        if name in ("all", "any", "argmax", "argmin", "clip", "conj", "copy", "cumsum", "dot", "max", "mean", "min", "prod", "ravel", "repeat", "reshape",
                    "round", "searchsorted", "squeeze", "std", "sum", "swapaxes", "take", "transpose", "var"):
            from .interp import Partial

            return Partial(self.get_jpu(name), (q,), {})
        if name in ("astype", "flatten", "item", "block_until_ready"):
            return lambda *a, **k: Qty(it.call(it.getattr(q.m, name), list(a), k), q.unit)
        if name == "__len__":
            return lambda: self.b_len(q.m)
        if name == "__iter__":
            return it.getattr(q.m, "__iter__")
        return it.getattr(q.m, name)

    def dict_attr(self, d, name):
        it = self.it
        if name in ("keys", "values", "items"):
            return lambda: list(getattr(d, name)())
        if name == "get":
            return lambda k, default=None: d.get(self.key(k), default)
        if name == "pop":
            def pop(k, *df):
                if self.key(k) in d:
                    it.wrote(d)
                    if getattr(d, "origin", None) is not None:
                        it.mutations.append((d.origin, it.site()))
                    return d.pop(self.key(k))
                if df:
                    return df[0]
                it.raise_("KeyError", str(k))
            return pop
        if name == "setdefault":
            def setdefault(k, v=None):
                if self.key(k) not in d:
                    it.wrote(d)
                return d.setdefault(self.key(k), v)
            return setdefault
        if name == "update":
            def update(o=None, **k):
                it.wrote(d)
                d.update(self.b_dict(o, **k))
            return update
        if name == "copy":
            return lambda: type(d)(d.factory, d) if isinstance(d, DefaultDict) else dict(d)
        if name == "clear":
            return d.clear
        if name == "popitem":
            return d.popitem
        if name == "__len__":
            return lambda: len(d)
        if name == "__iter__":
            return lambda: list(d)
        it.raise_("AttributeError", f"'dict' object has no attribute '{name}'")

    def native_attr(self, o, name):
        it = self.it
        if isinstance(o, list):
            if name == "append":
                return o.append
            if name == "extend":
                return lambda x: o.extend(it.iterate(x))
            if name == "insert":
                return lambda i, x: o.insert(self.np.int_(i), x)
            if name == "pop":
                def pop(*a):
                    if not o:
                        it.raise_("IndexError", "pop from empty list")
                    return o.pop(*[self.np.int_(i) for i in a])
                return pop
            if name == "reverse":
                return o.reverse
            if name == "copy":
                return lambda: list(o)
            if name == "sort":
                def sort(key=None, reverse=False):
                    o[:] = self.b_sorted(o, key, reverse)
                return sort
            if name == "clear":
                return o.clear
            if name == "remove":
                def remove(x):
                    for i, y in enumerate(o):
                        if self.is_(x, y) or it.truth(self.compare("Eq", x, y)):
                            del o[i]
                            return
                    it.raise_("ValueError", "list.remove(x): x not in list")
                return remove
        if isinstance(o, (list, tuple)):
            if name == "index":
                def index(x):
                    for i, y in enumerate(o):
                        if self.is_(x, y) or it.truth(self.compare("Eq", x, y)):
                            return i
                    it.raise_("ValueError", "not in list")
                return index
            if name == "count":
                return lambda x: sum(1 for y in o if self.is_(x, y) or it.truth(self.compare("Eq", x, y)))
        if isinstance(o, set):
            if name == "add":
                return lambda x: o.add(self.key(x))
            if name in ("discard", "remove"):
                return lambda x: o.discard(self.key(x))
        if isinstance(o, (set, frozenset)):
            if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset"):
                return lambda *x: getattr(o, name)(*[set(self.key(z) for z in it.iterate(y)) for y in x])
            if name == "update":
                return lambda x: o.update(self.key(z) for z in it.iterate(x))
        if isinstance(o, str):
            if name == "join":
                def join(xs):
                    xs = it.iterate(xs)
                    if isinstance(o, OStr) or any(isinstance(x, OStr) for x in xs):
                        return OStr("<join>")
                    return o.join(xs)
                return join
            if name == "format":
                return lambda *a, **k: o.format(*a, **k) if not isinstance(o, OStr) and pylang.plain([*a, *k.values()]) else OStr("<format>")
            if hasattr(o, name) and not isinstance(o, OStr):
                return getattr(o, name)
            if hasattr(o, name):
                return lambda *a: OStr("<str>") if name not in ("startswith", "endswith") else Opaque("str test")
        if isinstance(o, int):
            if name in ("real", "numerator"):
                return o
            if name == "imag":
                return 0
            if name == "bit_length":
                return o.bit_length
            if name == "is_integer":
                return lambda: True
        if name in ("__len__", "__iter__") and isinstance(o, (list, tuple, str, set, range)):
            return lambda: len(o) if name == "__len__" else list(o)
        if isinstance(o, range) and name in ("start", "stop", "step"):
            return getattr(o, name)
        it.raise_("AttributeError", f"'{type(o).__name__}' object has no attribute '{name}'")

    def sparse_attr(self, s, name):
        if name in ("todense", "toarray"):
            return lambda: s.arr if not s.jax else self.jx(self.np.f_copy(s.arr))
        if name == "A":
            return s.arr
        if name in ("shape", "ndim", "size", "dtype"):
            return self.arr_attr(Arr(s.arr.d, s.arr.dt, "np"), name)
        if name == "T":
            return Sparse(self.np.f_transpose(s.arr), s.jax)
        if name in ("tocsc", "tocsr", "tocoo", "copy", "sum_duplicates"):
            return lambda *a, **k: s
        if name == "transpose":
            return lambda *a: Sparse(self.np.f_transpose(s.arr), s.jax)
        if name == "dot":
            return lambda o: self.sp_binop("MatMult", s, o)
        self.it.raise_("AttributeError", f"sparse.{name}")

    # ============================================================== pytrees
    def flatten(self, x, is_leaf=None):
        leaves = []
        key, build = self._fl(x, is_leaf, leaves)
        return leaves, TreeDef(self, key, build, len(leaves))

    def _fl(self, x, is_leaf, leaves):
        it = self.it
        if is_leaf is not None and it.truth(it.call(is_leaf, [x], {})):
            leaves.append(x)
            return "*", next
        if x is None:
            return "None", lambda i: None
        if isinstance(x, (tuple, list)):
            ks = [self._fl(y, is_leaf, leaves) for y in x]
            ty = type(x) if type(x) in (tuple, list) or isinstance(x, pylang.NT) else list
            return (ty.__name__, tuple(k for k, _ in ks)), lambda i: ty([b(i) for _, b in ks])
        if isinstance(x, dict):
            names = sorted(x, key=lambda k: (str(type(k)), k) if not isinstance(k, tuple) else (str(type(k)), k))
            ks = [(n, self._fl(x[n], is_leaf, leaves)) for n in names]
            fac = x.factory if isinstance(x, DefaultDict) else None
            isdd = isinstance(x, DefaultDict)

            def build(i):
                d = DefaultDict(fac) if isdd else {}
                for n, (_, b) in ks:
                    d[n] = b(i)
                return d

            return ("dict", tuple((n, k) for n, (k, _) in ks)), build
        if isinstance(x, Qty):
            k, b = self._fl(x.m, is_leaf, leaves)
            u = x.unit
            return ("qty", k, frozenset(u.u.items())), lambda i: Qty(b(i), u)
        if isinstance(x, Obj) and x.cls.fields is not None and pylang.eqx_class(x.cls):
            dyn, stat = [], []
            for n, fs in x.cls.fields.items():
                if n not in x.attrs:
                    continue
                if fs.static:
                    stat.append((n, x.attrs[n]))
                else:
                    dyn.append((n, self._fl(x.attrs[n], is_leaf, leaves)))
            cls = x.cls

            def build(i):
                o = Obj(cls)
                for n, (_, b) in dyn:
                    o.attrs[n] = b(i)
                for n, v in stat:
                    o.attrs[n] = v
                o.frozen = True
                return o

            return ("obj", cls.name, id(cls), tuple((n, k) for n, (k, _) in dyn), tuple((n, self._statkey(v)) for n, v in stat)), build
        if isinstance(x, Sparse):
            k, b = self._fl(x.arr, is_leaf, leaves)
            j = x.jax
            return ("sparse", k), lambda i: Sparse(b(i), j)
        from .interp import Partial

        if isinstance(x, TreePartial):
            raise AnalysisError("tree Partial")
        leaves.append(x)
        return "*", next

    def _statkey(self, v):
        try:
            return self.key(v)
        except PyRaise:
            return id(v)

    def t_flatten(self, x, is_leaf=None):
        l, d = self.flatten(x, is_leaf)
        return (l, d)

    def t_unflatten(self, d, leaves):
        return d.unflatten(leaves)

    def t_leaves(self, x, is_leaf=None):
        return self.flatten(x, is_leaf)[0]

    def t_structure(self, x, is_leaf=None):
        return self.flatten(x, is_leaf)[1]

    def t_map(self, f, x, *rest, is_leaf=None):
        leaves, d = self.flatten(x, is_leaf)
        cols = [leaves]
        for r in rest:
            cols.append(self.flatten_upto(x, r, is_leaf))
        out = [self.it.call(f, list(vs), {}) for vs in zip(*cols)]
        return d.build(iter(out))

    def flatten_upto(self, t, x, is_leaf):
        """flatten x up to the leaves of t (prefix semantics of tree_map)"""
        it = self.it
        if is_leaf is not None and it.truth(it.call(is_leaf, [t], {})):
            return [x]
        bad = lambda: it.raise_("ValueError", "pytree structures do not match")  # noqa
        if t is None:
            if x is not None:
                bad()
            return []
        if isinstance(t, (tuple, list)):
            if type(x) is not type(t) or len(x) != len(t):
                bad()
            return [v for a, b in zip(t, x) for v in self.flatten_upto(a, b, is_leaf)]
        if isinstance(t, dict):
            if not isinstance(x, dict) or set(x) != set(t):
                bad()
            names = sorted(t, key=lambda k: (str(type(k)), k))
            return [v for n in names for v in self.flatten_upto(t[n], x[n], is_leaf)]
        if isinstance(t, Qty):
            if not isinstance(x, Qty) or x.unit != t.unit:
                bad()
            return self.flatten_upto(t.m, x.m, is_leaf)
        if isinstance(t, Obj) and t.cls.fields is not None:
            if not isinstance(x, Obj) or x.cls is not t.cls:
                bad()
            out = []
            for n, fs in t.cls.fields.items():
                if n not in t.attrs or fs.static:
                    continue
                if n not in x.attrs:
                    bad()
                out += self.flatten_upto(t.attrs[n], x.attrs[n], is_leaf)
            return out
        return [x]

    def flatten_axes(self, name, treedef, axis_tree, **k):
        """jax.api_util.flatten_axes"""
        dummy = treedef.build(iter([_Leaf() for _ in range(treedef.num_leaves)]))
        out = []

        def count(t):
            return len(self.flatten(t)[0])

        def rec(t, ax):
            if ax is None or isinstance(ax, int) or isinstance(ax, Arr):
                out.extend([ax] * count(t))
            elif isinstance(ax, (tuple, list)):
                if not isinstance(t, (tuple, list)) or len(t) != len(ax):
                    self.it.raise_("ValueError", f"{name} specification must be a tree prefix of the corresponding value")
                for a, b in zip(t, ax):
                    rec(a, b)
            elif isinstance(ax, dict):
                if not isinstance(t, dict) or set(t) != set(ax):
                    self.it.raise_("ValueError", f"{name} specification must be a tree prefix of the corresponding value")
                for n in sorted(ax, key=str):
                    rec(t[n], ax[n])
            else:
                raise AnalysisError("axes spec")

        rec(dummy, axis_tree)
        return out

    def tree_update(self, x, fn):
        """apply fn to every array leaf (Python numbers become arrays)"""
        leaves, d = self.flatten(x)
        return d.build(iter([fn(l) for l in leaves]))

    # =========================================================== transforms
    def jit(self, f=None, **kw):
        from .interp import Partial, Wrapped

        if f is None:
            return lambda g: self.jit(g, **kw)
        it = self.it
        statnames = kw.get("static_argnames") or ()
        statnums = kw.get("static_argnums")
        if isinstance(statnames, str):
            statnames = (statnames,)
        if statnums is None:
            statnums = ()
        elif isinstance(statnums, int):
            statnums = (statnums,)
        statnums = tuple(statnums)
        statnames = tuple(statnames)

        def call(*args, **kwargs):
            names = self.argnames(f)
            tid = f"jit{next(_ids)}"

            def stat(i, n):
                return i in statnums or (i is not None and names and i - len(names) in statnums) or (n in statnames)

            nargs = []
            for i, a in enumerate(args):
                n = names[i] if names and i < len(names) else None
                if (i in statnums) or (n is not None and n in statnames):
                    self.check_static(a)
                    nargs.append(a)
                else:
                    nargs.append(self.trace_in(a, tid))
            nkw = {}
            for n, a in kwargs.items():
                i = names.index(n) if names and n in names else None
                if n in statnames or (i is not None and i in statnums):
                    self.check_static(a)
                    nkw[n] = a
                else:
                    nkw[n] = self.trace_in(a, tid)
            self.jit_ids.append(tid)
            it.jit_depth += 1
            try:
                r = it.call(f, nargs, nkw)
            finally:
                it.jit_depth -= 1
                self.jit_ids.pop()
            return self.trace_out(r, tid)

        w = Wrapped(call, wrapped=f, binds=True)
        w.attrs["__wrapped__"] = f
        w.jit = (statnums, statnames)
        w.attrs["lower"] = Opaque("lower")
        return w

    def check_static(self, a):
        if isinstance(a, Arr) and a.kind != "py":
            if a.tr:
                self.it.event("concretisation", "traced value passed as a static argument")
            else:
                self.it.raise_("ValueError", "Non-hashable static arguments are used in a jit function")
        if isinstance(a, (list, dict)):
            self.it.raise_("ValueError", "Non-hashable static arguments are used in a jit function")

    def static_leaves(self, x, out=None):
        """values stored in static fields of the modules in a pytree"""
        out = [] if out is None else out
        if isinstance(x, (tuple, list)):
            for y in x:
                self.static_leaves(y, out)
        elif isinstance(x, dict):
            for y in x.values():
                self.static_leaves(y, out)
        elif isinstance(x, Obj) and x.cls.fields is not None:
            for n, fs in x.cls.fields.items():
                if n in x.attrs:
                    if fs.static:
                        out.append((x.cls.name, n, x.attrs[n]))
                    else:
                        self.static_leaves(x.attrs[n], out)
        return out

    def _arrays_in(self, v):
        if isinstance(v, Arr):
            return [v]
        if isinstance(v, Qty):
            return self._arrays_in(v.m)
        if isinstance(v, (tuple, list)):
            return [a for y in v for a in self._arrays_in(y)]
        if isinstance(v, dict):
            return [a for y in v.values() for a in self._arrays_in(y)]
        return []

    def trace_in(self, x, tid):
        for c, n, v in self.static_leaves(x):
            if any(a.kind in ("jax", "np") for a in self._arrays_in(v)):
                self.it.raise_("TypeError", f"unhashable type: the array in the static field {c}.{n}")
        def f(l):
            if isinstance(l, (bool, int)):
                return Arr(tm.const(l), "b" if isinstance(l, bool) else "i", "jax", frozenset([tid]))
            if isinstance(l, Arr):
                r = Arr(l.d, l.dt, "jax", (l.tr or EMPTY) | {tid}, l.origin)
                r.dtt = l.dtt
                return r
            if isinstance(l, (str, Unit)) or callable(l):
                self.it.raise_("TypeError", f"{type(l).__name__} is not a valid JAX type")
            return l

        return self.tree_update(x, f)

    def trace_out(self, x, tid):
        for c, n, v in self.static_leaves(x):
            if any(tid in (a.tr or ()) for a in self._arrays_in(v)):
                self.it.event("concretisation", f"traced value stored in the static field {c}.{n} of a result")
        def f(l):
            if isinstance(l, Arr):
                r = Arr(l.d, l.dt, "jax" , frozenset(t for t in (l.tr or EMPTY) if t != tid))
                r.dtt = l.dtt
                return r
            if isinstance(l, (bool, int)):
                return Arr(tm.const(l), "b" if isinstance(l, bool) else "i", "jax")
            return l

        try:
            return self.tree_update(x, f)
        except TypeError:
            return x

    def argnames(self, f):
        try:
            sig = self.signature(f)
        except (PyRaise, AnalysisError):
            return None
        return [p.name for p in sig.parameters.values() if p.kind in (0, 1)]

    def vmap(self, f=None, in_axes=0, out_axes=0, axis_size=None, **k):
        from .interp import Wrapped

        if f is None:
            return lambda g: self.vmap(g, in_axes=in_axes, out_axes=out_axes)
        it = self.it

        def call(*args, **kwargs):
            tid = f"vmap{next(_ids)}"
            leaves, td = self.flatten(tuple(args))
            ax = in_axes
            if isinstance(ax, list):
                ax = tuple(ax)
            if isinstance(ax, tuple) and len(ax) != len(args):
                it.raise_("ValueError", f"vmap in_axes must be an int, None, or a tuple of entries corresponding to the positional arguments; got {len(ax)} axes for {len(args)} args")
            axes = self.flatten_axes("vmap in_axes", td, ax)
            kleaves, ktd = self.flatten(kwargs)
            n = axis_size
            allv = list(zip(leaves, axes)) + [(l, 0) for l in kleaves]
            arrs = []
            for l, a in allv:
                if a is None:
                    arrs.append((l, None))
                    continue
                if isinstance(a, Arr):
                    a = self.np.int_(a)
                A = self.np.A(l)
                if A.ndim == 0:
                    it.raise_("ValueError", "vmap was requested to map its argument along an axis, which implies that its rank should be at least 1, but is only 0")
                a = self.np.axis_(a, A.ndim)
                s = A.shape[a]
                if n is not None and s != n:
                    it.raise_("ValueError", "vmap got inconsistent sizes for array axes to be mapped")
                n = s
                arrs.append((A, a))
            if n is None:
                it.raise_("ValueError", "vmap must have at least one non-None value in in_axes")
            empty = n == 0
            if empty:  # trace one generic lane for the structure of the result
                n = 1
                for k_, (l, a) in enumerate(arrs):
                    if a is not None:
                        sh = list(l.shape)
                        sh[a] = 1
                        d = obj_array(tuple(sh))
                        for j_, idx in enumerate(np.ndindex(*sh)):
                            d[idx] = tm.var(f"@lane{tid}_{k_}_{j_}")
                        arrs[k_] = (Arr(d, l.dt, "jax", l.tr), a)
            res = []
            it.vmap_depth += 1
            try:
                for i in range(n):
                    ls = []
                    for l, a in arrs:
                        if a is None:
                            ls.append(l)
                        else:
                            d = np.take(l.d, i, axis=a)
                            if not isinstance(d, np.ndarray):
                                dd = obj_array(())
                                dd[()] = d
                                d = dd
                            r = Arr(d, l.dt, "jax", (l.tr or EMPTY) | {tid})
                            r.dtt = l.dtt
                            ls.append(r)
                    a_ = td.build(iter(ls[: len(leaves)]))
                    k_ = ktd.build(iter(ls[len(leaves):]))
                    res.append(it.call(f, list(a_), dict(k_)))
            finally:
                it.vmap_depth -= 1
            return self.stack_out(res, out_axes, tid, n, empty)

        w = Wrapped(call, wrapped=f, binds=True)
        return w

    def stack_out(self, res, out_axes, tid, n, empty=False):
        it = self.it
        fl = [self.flatten(r) for r in res]
        td = fl[0][1]
        for _, t in fl[1:]:
            if t.key != td.key:
                raise AnalysisError("vmap outputs differ in structure")
        axes = self.flatten_axes("vmap out_axes", td, tuple(out_axes) if isinstance(out_axes, list) else out_axes)
        outs = []
        for j, a in enumerate(axes):
            col = [self.np.A(f[0][j]) for f in fl]
            if a is None:
                if any((c.tr and tid in c.tr) for c in col):
                    it.raise_("ValueError", "vmap has mapped output but out_axes is None")
                outs.append(self._untr(col[0], tid))
                continue
            s = self.np.f_stack(col, 0)
            if empty:
                s = Arr(s.d[:0], s.dt, "jax", s.tr)
            if a != 0:
                s = Arr(np.moveaxis(s.d, 0, a), s.dt, "jax", s.tr)
            outs.append(self._untr(s, tid))
        return td.build(iter(outs))

    def _untr(self, a, tid):
        return Arr(a.d, a.dt, "jax", frozenset(t for t in (a.tr or EMPTY) if t != tid))

    def vectorize(self, f=None, *, signature=None, excluded=(), **k):
        from .interp import Wrapped

        if f is None:
            return lambda g: self.vectorize(g, signature=signature, excluded=excluded)
        it = self.it

        def call(*args):
            arrs = [self.np.A(a) for a in args]
            if signature is None:
                cores = [() for _ in arrs]
                outc = None
            else:
                ins, _, outs = signature.replace(" ", "").partition("->")
                cores = _parse_sig(ins)
                outc = _parse_sig(outs)
                if len(cores) != len(arrs):
                    it.raise_("TypeError", "wrong number of positional arguments: vectorize")
            tid = f"vmap{next(_ids)}"
            loops = []
            dims = {}
            for c, a in zip(cores, arrs):
                if a.ndim < len(c):
                    it.raise_("ValueError", f"vectorize: input with shape {a.shape} does not have enough dimensions for core {c}")
                core = a.shape[a.ndim - len(c):]
                for nm, s in zip(c, core):
                    want = int(nm) if nm.isdigit() else dims.setdefault(nm, s)
                    if want != s:
                        it.raise_("ValueError", f"vectorize: dimension mismatch for core dimension {nm}: {s} != {want}")
                loops.append(a.shape[: a.ndim - len(c)])
            try:
                loop = np.broadcast_shapes(*loops)
            except ValueError:
                it.raise_("ValueError", "vectorize: incompatible loop dimensions")
            if loop == ():
                r = it.call(f, [self._jaxify(a, None) for a in arrs], {})
                self._check_sig(r, outc)
                return self.jx_tree(r)
            results = []
            for idx in np.ndindex(loop):
                xs = []
                for a, l in zip(arrs, loops):
                    ix = tuple(0 if l[j - (len(loop) - len(l))] == 1 else idx[j] for j in range(len(loop) - len(l), len(loop)))
                    d = a.d[ix]
                    if not isinstance(d, np.ndarray):
                        dd = obj_array(())
                        dd[()] = d
                        d = dd
                    xs.append(Arr(d, a.dt, "jax", (a.tr or EMPTY) | ({tid} if l else EMPTY)))
                r = it.call(f, xs, {})
                self._check_sig(r, outc)
                results.append(r)

            def comb(rs):
                if isinstance(rs[0], tuple):
                    return tuple(comb([r[i] for r in rs]) for i in range(len(rs[0])))
                s = self.np.f_stack([self.np.A(r) for r in rs], 0)
                s = Arr(s.d.reshape(tuple(loop) + s.shape[1:]), s.dt, "jax", s.tr)
                return self.jx(self._untr(s, tid))

            return comb(results)

        return Wrapped(call, wrapped=f, binds=True)

    def _jaxify(self, a, tid):
        r = Arr(a.d, a.dt, "jax", a.tr)
        r.dtt = a.dtt
        return r

    def jx_tree(self, r):
        if isinstance(r, tuple):
            return tuple(self.jx_tree(x) for x in r)
        return self.jx(self.np.A(r))

    def _check_sig(self, r, outc):
        if outc is None:
            return
        rs = r if isinstance(r, tuple) else (r,)
        if len(rs) != len(outc):
            self.it.raise_("TypeError", "vectorize: wrong number of outputs")
        for x, c in zip(rs, outc):
            s = self.np.A(x).shape
            if len(s) != len(c):
                self.it.raise_("ValueError", f"vectorize: output shape {s} does not match core dims {c}")
            for nm, v in zip(c, s):
                if nm.isdigit() and int(nm) != v:
                    self.it.raise_("ValueError", f"vectorize: output core dimension {v} != {nm}")

    def custom_jvp(self, f=None, **k):
        from .interp import Wrapped

        if f is None:
            return lambda g: self.custom_jvp(g, **k)
        models = self
        it = self.it
        st = {}

        def call(*args, **kwargs):
            r = it.call(f, list(args), kwargs)
            if models.grad_mode and "jvp" in st and not st.get("busy"):
                st["busy"] = True
                try:
                    r = models.attach_jvp(f, st["jvp"], args, r)
                finally:
                    st["busy"] = False
            return r

        w = Wrapped(call, wrapped=f, binds=True)

        def defjvp(g, **kk):
            st["jvp"] = g
            w.attrs["@jvp"] = g
            return g

        w.attrs["defjvp"] = defjvp
        w.attrs["defjvps"] = lambda *a, **k: None
        w.st = st
        return w

    def attach_jvp(self, f, rule, args, r):
        """wrap each output element in a jvp node carrying its tangent graph"""
        xs = [self.np.A(a) for a in args]
        tang = []
        ins = []
        n = next(_ids)
        for i, x in enumerate(xs):
            d = obj_array(x.shape)
            for j in np.ndindex(x.shape):
                tv = tm.var(f"@t{n}_{i}_{'_'.join(map(str, j))}")
                d[j] = tv
                ins += [x.d[j], tv]
            tang.append(Arr(d, x.dt, "jax", x.tr))
        out = self.it.call(rule, [tuple(Arr(x.d, x.dt, "jax", x.tr) for x in xs), tuple(tang)], {})
        prim, tan = out

        def wrap(p, t, orig):
            if isinstance(p, tuple):
                return tuple(wrap(a, b, c) for a, b, c in zip(p, t, orig))
            p, t = self.np.A(p), self.np.A(t)
            d = obj_array(p.shape)
            tb = np.broadcast_to(t.d, p.shape)
            for j in np.ndindex(p.shape):
                d[j] = tm._mk("jvp", p.d[j], tb[j], *ins)
            return Arr(d, p.dt, "jax", p.tr)

        return wrap(prim, tan, r)

    def stop_gradient(self, x):
        if not self.grad_mode:
            return x

        def leaf(a):
            if isinstance(a, Qty):
                return Qty(leaf(a.m), a.unit)
            if not isinstance(a, Arr):
                return a
            d = obj_array(a.shape)
            for j in np.ndindex(a.shape):
                d[j] = tm._mk("jvp", tm.lift(a.d[j]), tm.ZERO)
            return Arr(d, a.dt, a.kind, a.tr)

        return self.t_map(leaf, x)

    def cond(self, pred, tf, ff, *ops, **k):
        it = self.it
        p = self.np.A(pred).item_t() if not isinstance(pred, bool) else tm.const(pred)
        a = it.call(tf, list(ops), {})
        b = it.call(ff, list(ops), {})
        la, da = self.flatten(a)
        lb, db = self.flatten(b)
        if da.key != db.key:
            it.raise_("TypeError", "cond branches must have the same structure")
        p = tm.boolean(p)
        pa = pred if isinstance(pred, Arr) else self.np.A(pred)
        return da.build(iter([self.jx(self.np.f_where(pa, x, y)) for x, y in zip(la, lb)]))

    def fori_loop(self, lo, hi, body, init, **k):
        v = init
        for i in range(self.np.int_(lo), self.np.int_(hi)):
            v = self.it.call(body, [Arr(tm.const(i), "i", "jax"), v], {})
        return v

    def while_loop(self, c, b, init):
        v = init
        if self.diff_ids and set(tr_of([x for x in self.flatten(init)[0]])) & set(self.diff_ids):
            self.it.event("nondifferentiable", "while_loop carrying a differentiated value has no reverse-mode derivative")
        for _ in range(64):
            t = tm.boolean(self.np.A(self.it.call(c, [v], {})).item_t())
            if t.op != "b":
                raise AnalysisError("while_loop with data-dependent trip count")
            if not t.args[0]:
                return v
            v = self.it.call(b, [v], {})
        raise AnalysisError("while_loop bound")

    def scan(self, f, init, xs=None, length=None, **k):
        ys = []
        if xs is None:
            seq = [None] * self.np.int_(length)
        else:
            leaves, td = self.flatten(xs)
            n = self.np.A(leaves[0]).shape[0]
            seq = [td.build(iter([self.elem_or(self.np.A(l), i) for l in leaves])) for i in range(n)]
        c = init
        rev = bool(k.get("reverse", False))
        for x in seq[:: -1 if rev else 1]:
            c, y = self.it.iterate(self.it.call(f, [c, x], {}))
            ys.append(y)
        if all(y is None for y in ys):
            return (c, None)
        if rev:
            ys.reverse()
        fl = [self.flatten(y) for y in ys]
        return (c, fl[0][1].build(iter([self.jx(self.np.f_stack([self.np.A(f[0][j]) for f in fl], 0)) for j in range(fl[0][1].num_leaves)])))

    def elem_or(self, a, i):
        d = a.d[i]
        if not isinstance(d, np.ndarray):
            dd = obj_array(())
            dd[()] = d
            d = dd
        return Arr(d, a.dt, a.kind, a.tr)

    def lax_map(self, f, xs):
        return self.vmap(f)(xs)

    # ============================================================== inspect
    def signature(self, f, follow=True, **k):
        from .interp import BoundMethod, Partial, PyFunc, Wrapped

        if isinstance(f, BoundMethod):
            s = self.signature(f.func)
            return Signature(self, list(s.parameters.values())[1:])
        if isinstance(f, PyFunc):
            if "__wrapped__" in f.attrs and follow:
                return self.signature(f.attrs["__wrapped__"])
            if "__signature__" in f.attrs:
                return f.attrs["__signature__"]
            a = f.node.args
            ps = []
            pos = a.posonlyargs + a.args
            nd = len(f.defaults)
            for i, x in enumerate(pos):
                j = i - (len(pos) - nd)
                ps.append(Param(x.arg, 0 if i < len(a.posonlyargs) else 1, f.defaults[j] if j >= 0 else PEMPTY))
            if a.vararg:
                ps.append(Param(a.vararg.arg, 2, PEMPTY))
            for x in a.kwonlyargs:
                ps.append(Param(x.arg, 3, f.kwdefaults.get(x.arg, PEMPTY)))
            if a.kwarg:
                ps.append(Param(a.kwarg.arg, 4, PEMPTY))
            return Signature(self, ps)
        if isinstance(f, Wrapped):
            if "__wrapped__" in f.attrs:
                return self.signature(f.attrs["__wrapped__"])
            raise AnalysisError("signature of a host wrapper")
        if isinstance(f, PyClass):
            init = self._init_for(f)
            if init is None and f.fields is not None:
                return Signature(self, [Param(n, 1, fs.default if fs.has_default else PEMPTY) for n, fs in f.fields.items()])
            s = self.signature(init)
            return Signature(self, list(s.parameters.values())[1:])
        if isinstance(f, Partial):
            s = self.signature(f.func)
            ps = []
            left = len(f.args)
            for p in s.parameters.values():
                if left > 0 and p.kind in (0, 1):
                    left -= 1
                    continue
                if p.name in f.keywords:
                    p = Param(p.name, 3, f.keywords[p.name])
                ps.append(p)
            return Signature(self, ps)
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__")
            return self.signature(BoundMethod(m, f))
        raise AnalysisError(f"signature of {f!r}")

    # ============================================================ functools
    def wraps(self, wrapped, *a, **k):
        from .interp import PyFunc, Wrapped

        def deco(f):
            if isinstance(f, (PyFunc, Wrapped)):
                for n in ("__name__", "__doc__", "__qualname__", "__module__"):
                    try:
                        f.attrs[n] = self.it.getattr(wrapped, n)
                    except (PyRaise, AnalysisError):
                        pass
                f.attrs["__wrapped__"] = wrapped
                if isinstance(wrapped, (PyFunc, Wrapped)):
                    for n, v in wrapped.attrs.items():
                        f.attrs.setdefault(n, v)
            return f

        return deco

    def partial(self, f, *a, **k):
        from .interp import Partial

        return Partial(f, a, k)

    def reduce_(self, f, xs, *init):
        xs = self.it.iterate(xs)
        if init:
            r = init[0]
        else:
            if not xs:
                self.it.raise_("TypeError", "reduce() of empty iterable with no initial value")
            r, xs = xs[0], xs[1:]
        for x in xs:
            r = self.it.call(f, [r, x], {})
        return r

    def lru_cache(self, *a, **k):
        from .interp import PyFunc, Wrapped

        def deco(f):
            cache = {}

            def call(*ar, **kw):
                key = (self.key(tuple(ar)), tuple(sorted((n, self.key(v)) for n, v in kw.items())))
                if key not in cache:
                    cache[key] = self.it.call(f, list(ar), kw)
                return cache[key]

            w = Wrapped(call, wrapped=f, binds=True)
            w.attrs["cache_clear"] = cache.clear
            return w

        if a and isinstance(a[0], (PyFunc, Wrapped)):
            return deco(a[0])
        return deco

    # =========================================================== externals
    def jnp_wrap(self, name, f):
        def g(*a, **k):
            r = f(*a, **k)
            tr = frozenset(tr_of([a, k]))
            return self.jx(self._addtr(r, tr))

        g.__name__ = name
        g.npname = name
        return g

    def _addtr(self, r, tr):
        if isinstance(r, Arr):
            q = Arr(r.d, r.dt, r.kind, (r.tr or EMPTY) | tr, None)
            q.dtt = r.dtt
            return q
        if isinstance(r, (list, tuple)):
            return type(r)([self._addtr(x, tr) for x in r])
        return r

    STRIP_OK = ("ndim", "shape", "size", "result_type", "ones_like", "zeros_like", "full_like")

    def np_wrap(self, name, f):
        def g(*a, **k):
            tr = tr_of([a, k])
            if tr and name not in self.STRIP_OK and name != "dtype":
                self.it.event("concretisation", f"numpy.{name} applied to a traced value")
            r = f(*a, **k)
            return self._npk(r)

        g.__name__ = name
        g.npname = name
        return g

    def _npk(self, r):
        if isinstance(r, Arr):
            q = Arr(r.d, r.dt, "np", r.tr)
            return q
        if isinstance(r, (list, tuple)):
            return type(r)([self._npk(x) for x in r])
        return r

    # ---- jpu
    def is_q(self, x):
        return isinstance(x, Qty)

    def consistent(self, xs):
        """pint unwrap_and_wrap_consistent_units"""
        u = next((x.unit for x in xs if isinstance(x, Qty)), None)
        if u is None:
            return list(xs), None
        return [self.conv(x, u) for x in xs], u

    def conv(self, x, u):
        """pint convert_arg"""
        if isinstance(x, Qty):
            return self.to(x, u).m
        if isinstance(x, (list, tuple)) and any(isinstance(y, Qty) for y in x):
            return [self.conv(y, u) for y in x]
        if x is None or isinstance(x, (str, bool, int)) and isinstance(x, str):
            return x
        if not self.ut.dim(u):
            if isinstance(x, (list, tuple)):
                return x
            return self.to(Qty(x, Unit()), u).m
        if self.is_zero(x) or (isinstance(x, Arr) and x.size == 0):
            return x
        self.dim_error(Unit(), u)

    def get_jpu(self, name):
        return self.jpu_funcs.get(name)

    def _jpu(self):
        F = self.np.funcs
        base = {n: self.jnp_wrap(n, f) for n, f in F.items()}
        if "asarray" in base:
            base["asarray"] = self.jnp_wrap("asarray", self.np.f_array)
        out = {}
        q = self.is_q
        rad = self.ut.unit("radian")
        deg = self.ut.unit("deg")
        DL = Unit()
        specs = {}

        def first(a, k):
            for x in list(a) + list(k.values()):
                if isinstance(x, Qty):
                    return x.unit
                if isinstance(x, (list, tuple)):
                    for y in x:
                        if isinstance(y, Qty):
                            return y.unit
            return None

        def strip(x):
            if isinstance(x, Qty):
                return x.m
            if isinstance(x, (list, tuple)):
                return type(x)(strip(y) for y in x)
            return x

        def mk(name, inp, outp):
            f = base[name]

            def g(*a, **k):
                u0 = first(a, k)
                if u0 is None:
                    return f(*a, **k)
                if inp is None:
                    aa = [strip(x) for x in a]
                    kk = {n: strip(v) for n, v in k.items()}
                else:
                    u = u0 if inp == "all" else inp
                    aa = [self.conv(x, u) if (isinstance(x, (Qty, Arr, Fraction)) or isinstance(x, (int,)) and not isinstance(x, bool) or isinstance(x, (list, tuple))) else x for x in a]
                    kk = {n: (self.conv(v, u) if isinstance(v, Qty) else v) for n, v in k.items()}
                r = f(*aa, **kk)
                if outp is None:
                    return r
                if outp == "match":
                    ru = u0
                elif isinstance(outp, Unit):
                    ru = outp
                elif outp == "sum":
                    ru = u0
                elif outp == "square":
                    ru = u0.pow(2)
                elif outp == "sqrt":
                    ru = u0.pow(Fraction(1, 2))
                elif outp == "cbrt":
                    ru = u0.pow(Fraction(1, 3))
                elif outp == "reciprocal":
                    ru = u0.pow(-1)
                elif outp == "mul":
                    ru = DL
                    for x in a:
                        if isinstance(x, Qty):
                            ru = ru.mul(x.unit)
                elif outp == "div":
                    ru = a[0].unit if isinstance(a[0], Qty) else DL
                    for x in a[1:]:
                        if isinstance(x, Qty):
                            ru = ru.mul(x.unit, -1)
                else:
                    raise AnalysisError(outp)
                if isinstance(r, (list, tuple)):
                    return type(r)(Qty(x, ru) for x in r)
                return Qty(r, ru)

            g.__name__ = "jpu." + name
            out[name] = g

        for n in "isnan isinf isfinite sign".split():
            mk(n, None, None)
        for n in "equal greater greater_equal less less_equal not_equal".split():
            mk(n, "all", None)
        mk("arctan2", "all", rad)
        for n in "arccos arcsin arctan arctanh arcsinh".split():
            mk(n, DL, rad)
        for n in "exp expm1 log log1p log2 log10".split():
            mk(n, DL, DL)
        for n in "sin cos tan sinh cosh tanh".split():
            mk(n, rad, DL)
        mk("radians", deg, rad)
        mk("degrees", rad, deg)
        mk("deg2rad", deg, rad)
        mk("rad2deg", rad, deg)
        for n in "conj conjugate ceil floor hypot rint trunc absolute positive negative maximum minimum fabs abs".split():
            mk(n, "all", "match")
        for n in "fmod mod remainder".split():
            mk(n, None, "match")
        mk("var", None, "square")
        mk("multiply", None, "mul")
        mk("matmul", None, "mul")
        for n in "true_divide divide floor_divide".split():
            mk(n, None, "div")
        mk("sqrt", None, "sqrt")
        mk("cbrt", None, "cbrt")
        mk("square", None, "square")
        mk("reciprocal", None, "reciprocal")
        for n in "std sum cumsum diff".split():
            mk(n, None, "sum")
        for n in "hstack vstack column_stack broadcast_arrays".split():
            mk(n, "all", "match")
        for n in "size shape ones_like zeros_like argsort argmin argmax ndim count_nonzero nonzero result_type".split():
            mk(n, None, None)

        def power(a, b):
            if isinstance(a, Qty) or isinstance(b, Qty):
                return self.q_binop("Pow", a, b)
            return base["power"](a, b)

        out["power"] = power

        def addsub(n, op):
            def g(a, b):
                if not (q(a) or q(b)):
                    return base[n](a, b)
                (x, y), u = self.consistent([a, b])
                return Qty(base[n](x, y), u)
            return g

        out["add"] = addsub("add", "Add")
        out["subtract"] = addsub("subtract", "Sub")

        def full_like(a, fill_value, **k):
            if not (q(a) or q(fill_value)):
                return base["full_like"](a, fill_value, **k)
            ones = base["ones_like"](strip(a), **k)
            if q(fill_value):
                return Qty(self.binop("Mult", ones, fill_value.m), fill_value.unit)
            return self.binop("Mult", ones, fill_value)

        out["full_like"] = full_like

        def seqf(n):
            def g(xs, *a, **k):
                if not isinstance(xs, (list, tuple)):
                    xs = self.it.iterate(xs)
                if not any(q(x) for x in xs):
                    return base[n](xs, *a, **k)
                ys, u = self.consistent(xs)
                return Qty(base[n](ys, *a, **k), u)
            return g

        # NOTE: jpu's `implements` falls back to jnp when no *direct* argument is
        # a Quantity; a list of Quantities is then handed to jnp.
        def seq_fallback(n):
            def g(xs, *a, **k):
                ys = xs if isinstance(xs, (list, tuple)) else self.it.iterate(xs)
                if any(q(x) for x in ys):
                    return seqf(n)(ys, *a, **k)
                return base[n](ys, *a, **k)
            return g

        for n in ("stack", "concatenate"):
            out[n] = seq_fallback(n)

        def where(c, *a):
            c = strip(c)
            if not any(q(x) for x in a):
                return base["where"](c, *a)
            ys, u = self.consistent(list(a))
            return Qty(base["where"](c, *ys), u)

        out["where"] = where
        for n in ("any", "all"):
            def aa(x, *a, _n=n, **k):
                return base[_n](strip(x), *a, **k)
            out[n] = aa

        def mulf(n):
            def g(a, b, **k):
                if not (q(a) or q(b)):
                    return base[n](a, b, **k)
                if not q(a):
                    self.it.raise_("AttributeError", "jpu dot/outer with a non-quantity first argument")
                u = a.unit
                bm = b
                if q(b):
                    u = u.mul(b.unit)
                    bm = b.m
                return Qty(base[n](a.m, bm, **k), u)
            return g

        for n in ("cross", "dot", "outer"):
            out[n] = mulf(n)

        def argf(n, labels):
            def g(*a, **k):
                if not any(q(x) for x in list(a) + list(k.values())):
                    return base[n](*a, **k)
                vals = list(a)
                qs = [x for x in list(a) + list(k.values()) if q(x)]
                u = qs[0].unit
                npos = labels
                aa = [self.conv(x, u) if i < npos else strip(x) for i, x in enumerate(a)]
                kk = {m: (self.conv(v, u) if q(v) else v) for m, v in k.items()}
                r = base[n](*aa, **kk)
                return Qty(r, u) if n != "searchsorted" else r
            return g

        for n, l in (("expand_dims", 1), ("squeeze", 1), ("moveaxis", 1), ("around", 1), ("mean", 1), ("ravel", 1), ("repeat", 1), ("round", 1), ("take", 1), ("sort", 1),
                     ("transpose", 1), ("copy", 1), ("average", 1), ("swapaxes", 1), ("flip", 1), ("broadcast_to", 1), ("amax", 1), ("amin", 1), ("max", 1), ("min", 1),
                     ("searchsorted", 2), ("nan_to_num", 1), ("clip", 3), ("append", 2), ("linspace", 2), ("tile", 1), ("reshape", 1)):
            out[n] = argf(n, l)

        def atleast(n):
            def g(*xs):
                if not any(q(x) for x in xs):
                    return base[n](*xs)
                r = [Qty(base[n](x.m), x.unit) if q(x) else base[n](x) for x in xs]
                return r[0] if len(r) == 1 else r
            return g

        for n in ("atleast_1d", "atleast_2d"):
            out[n] = atleast(n)

        def einsum(spec, *ops, **k):
            if not any(q(x) for x in ops):
                return base["einsum"](spec, *ops, **k)
            u = DL
            for x in ops:
                if q(x):
                    u = u.mul(x.unit)
            return Qty(base["einsum"](spec, *[strip(x) for x in ops], **k), u)

        out["einsum"] = einsum

        def interp_(x, xp, fp, left=None, right=None, period=None):
            if not any(q(z) for z in (x, xp, fp, left, right, period)):
                return base["interp"](x, xp, fp, left=left, right=right, period=period)
            (x, xp, period), _ = self.consistent([x, xp, period])
            (fp, right, left), u = self.consistent([fp, left, right])
            r = base["interp"](x, xp, fp, left=left, right=right, period=period)
            return Qty(r, u) if u is not None else r

        out["interp"] = interp_

        def prod(a, *x, **k):
            if not q(a):
                return base["prod"](a, *x, **k)
            arr = self.np.A(a.m)
            ax = k.get("axis", x[0] if x else None)
            n = arr.size if ax is None else arr.shape[ax]
            return Qty(base["prod"](a.m, *x, **k), a.unit.pow(n))

        out["prod"] = prod
        return out

    def _externals(self):
        it = self.it
        from .interp import PyFunc, Wrapped

        E = self.ext
        self.quantity_type = BType("Quantity", self.quantity, lambda x: isinstance(x, Qty))
        self.array_type = BType("Array", lambda *a: it.raise_("TypeError", "Array() not constructible"), lambda x: isinstance(x, Arr) and x.kind == "jax")
        self.tracer_type = BType("Tracer", lambda *a: None, lambda x: isinstance(x, Arr) and bool(x.tr))
        nd = BType("ndarray", lambda *a: None, lambda x: isinstance(x, Arr) and x.kind == "np")

        def mod(name, **ns):
            m = ExtModule(name, ns)
            E[name] = m
            return m

        # numpy-like
        jn = {n: self.jnp_wrap(n, f) for n, f in self.np.funcs.items()}
        nn = {n: self.np_wrap(n, f) for n, f in self.np.funcs.items()}
        pi = scalar(tm.PI, "f", "py")
        consts = dict(pi=pi, inf=scalar(tm.INF, "f"), nan=scalar(tm.NAN, "f"), newaxis=None, e=scalar(tm.fn("exp", tm.ONE), "f"))
        jn.update(consts)
        nn.update(consts)

        def dtype_t(name, k, conv):
            return BType(name, lambda x=0: conv(x), lambda x: isinstance(x, Arr) and x.dt == k, DT(k, name))

        for k, names in (("f", "float64 float32 float16 floating double"), ("i", "int64 int32 uint32 uint64 int8 int16 uint8 uint16 integer int_"), ("b", "bool_"), ("c", "complex128 complex64")):
            for nme in names.split():
                jn[nme] = dtype_t(nme, k, lambda x, k=k, nme=nme: self.jx(self.np.f_array(x, DT(k, nme))))
                nn[nme] = dtype_t(nme, k, lambda x, k=k, nme=nme: self._npk(self.np.f_array(x, DT(k, nme))))
        jn["number"] = nn["number"] = dtype_t("number", "f", lambda x: x)
        jn["ndarray"] = BType("jnp.ndarray", lambda *a: None, lambda x: isinstance(x, Arr) and x.kind == "jax")
        jn["generic"] = nn["generic"] = dtype_t("generic", "f", lambda x: x)
        nn["ndarray"] = nd
        jn["vectorize"] = self.vectorize
        jn["finfo"] = nn["finfo"] = self.finfo
        jn["asarray"] = self.jnp_wrap("asarray", self.np.f_array)
        jn["iinfo"] = nn["iinfo"] = lambda x: Opaque("iinfo")
        jn["issubdtype"] = nn["issubdtype"] = lambda a, b: self.np.f_dtype(a).k == self.np.f_dtype(b).k
        nn["errstate"] = lambda **k: Opaque("errstate")
        J = mod("jax.numpy")
        J.ns_.update(jn)
        N = mod("numpy")
        N.ns_.update(nn)
        N.ns_["random"] = mod("numpy.random", seed=self._eff("random", "np.random.seed"), rand=self._eff("random", "np.random.rand"))
        jl = dict(
            norm=self.jnp_wrap("linalg.norm", self.np.norm), solve=self.jnp_wrap("linalg.solve", self.np.solve), inv=self.jnp_wrap("linalg.inv", self.np.inv),
        )
        nl = dict(norm=self.np_wrap("linalg.norm", self.np.norm), solve=self.np_wrap("linalg.solve", self.np.solve), inv=self.np_wrap("linalg.inv", self.np.inv))
        jl["lstsq"] = self._lstsq
        J.ns_["linalg"] = mod("jax.numpy.linalg", **jl)
        N.ns_["linalg"] = mod("numpy.linalg", **nl)
        # jpu
        self.jpu_funcs = self._jpu()
        jp = mod("jpu.numpy")
        jp.ns_.update(self.jpu_funcs)

        def jlin(n):
            def g(x, *a, **k):
                if isinstance(x, Qty):
                    return Qty(jl[n](x.m, *a, **k), x.unit if n == "norm" else x.unit.pow(-1))
                return jl[n](x, *a, **k)
            return g

        jp.ns_["linalg"] = mod("jpu.numpy.linalg", norm=jlin("norm"), inv=jlin("inv"))
        is_quantity = lambda x: isinstance(x, Qty)  # noqa
        mod("jpu.core", is_quantity=is_quantity)
        mod("jpu", numpy=jp, core=E["jpu.core"], UnitRegistry=lambda *a, **k: self.registry)
        mod("pint", DimensionalityError=self.exc["DimensionalityError"], Quantity=self.quantity_type, Unit=BType("Unit", self.to_unit, lambda x: isinstance(x, Unit)),
            UndefinedUnitError=self.exc["UndefinedUnitError"])
        mod("pint.errors", DimensionalityError=self.exc["DimensionalityError"])
        # jax
        tree = dict(tree_map=self.t_map, tree_flatten=self.t_flatten, tree_unflatten=self.t_unflatten, tree_leaves=self.t_leaves, tree_structure=self.t_structure,
                    Partial=self.partial, tree_all=lambda x: self.b_all(self.t_leaves(x)))
        tu = mod("jax.tree_util", **tree)
        tr = mod("jax.tree", map=self.t_map, flatten=self.t_flatten, unflatten=self.t_unflatten, leaves=self.t_leaves, structure=self.t_structure)
        lax = mod("jax.lax", cond=self.cond, select=lambda c, a, b: jn["where"](c, a, b), fori_loop=self.fori_loop, while_loop=self.while_loop, scan=self.scan,
                  map=self.lax_map, stop_gradient=self.stop_gradient, square=jn["square"], sqrt=jn["sqrt"], rsqrt=lambda x: jn["reciprocal"](jn["sqrt"](x)),
                  lt=jn["less"], le=jn["less_equal"], gt=jn["greater"], ge=jn["greater_equal"], eq=jn["equal"], max=jn["maximum"], min=jn["minimum"],
                  abs=jn["abs"], add=jn["add"], sub=jn["subtract"], mul=jn["multiply"], div=jn["divide"], sin=jn["sin"], cos=jn["cos"], tan=jn["tan"],
                  atan2=jn["arctan2"], floor=jn["floor"], ceil=jn["ceil"], exp=jn["exp"], log=jn["log"], neg=jn["negative"], sign=jn["sign"], pow=jn["power"], integer_pow=jn["power"], rem=jn["fmod"], switch=Opaque("switch"), logistic=jn["logistic"], tanh=jn["tanh"], expm1=jn["expm1"], log1p=jn["log1p"])
        zero_t = BType("Zero", lambda *a: None, lambda x: False)
        ad = mod("jax.interpreters.ad", Zero=zero_t, zeros_like_aval=Opaque("zeros_like_aval"), instantiate_zeros=lambda x: x)
        batching = mod("jax.interpreters.batching", is_vmappable=lambda x: False)
        interps = mod("jax.interpreters", ad=ad, batching=batching)
        lu = mod("jax.extend.linear_util", wrap_init=lambda f, *a, **k: WFun(self, f), transformation=self.lu_transformation, transformation_with_aux=self.lu_transformation_aux)
        ext = mod("jax.extend", linear_util=lu)
        rot = mod("jax.scipy.spatial.transform")
        jspecial = mod("jax.scipy.special", expit=jn["logistic"])
        jsp = mod("jax.scipy", special=jspecial)
        bcoo = BType("BCOO", self.bcoo, lambda x: isinstance(x, Sparse) and x.jax)
        bcoo.attrs = dict(from_scipy_sparse=lambda s, **k: Sparse(self.jx(Arr(s.arr.d, s.arr.dt, "jax", s.arr.tr)), True),
                          fromdense=lambda a, **k: Sparse(self.jx(self.np.f_copy(a)), True))
        spm = mod("jax.experimental.sparse", BCOO=bcoo)
        exper = mod("jax.experimental", sparse=spm)
        cfg = mod("jax.config", update=lambda *a: it.event("config", f"jax.config.update{a}"))
        cfg.ns_["jax_enable_x64"] = True
        cfg.ns_["x64_enabled"] = True
        core = mod("jax.core", Tracer=self.tracer_type)
        api = mod("jax.api_util", flatten_axes=self.flatten_axes)
        mod("jax._src.public_test_util", check_close=Opaque("check_close"))
        mod("jax.test_util")
        jd = mod("jax.dtypes", result_type=self.np.f_result_type)
        mod("jax.nn", sigmoid=jn["logistic"])
        mod("jax", numpy=J, jit=self.jit, vmap=self.vmap, custom_jvp=self.custom_jvp, lax=lax, tree_util=tu, tree=tr, interpreters=interps, extend=ext, scipy=jsp,
            experimental=exper, config=cfg, core=core, api_util=api, dtypes=jd, Array=self.array_type, device_get=lambda x: x, device_put=lambda x, *a: x,
            named_call=lambda f, **k: f, checkpoint=lambda f, **k: f, nn=E["jax.nn"], debug=Opaque("jax.debug"), linear_util=Opaque("lu"))
        del E["jax"].ns_["linear_util"]
        E["jax"].ns_["linear_util"] = lu
        # equinox
        mod("equinox", Module=self.modcls, field=lambda **k: FieldCall(**k), tree_pformat=lambda *a, **k: OStr("<tree>"), filter_jit=self.jit, filter_vmap=self.vmap,
            is_array=lambda x: isinstance(x, Arr) and x.kind == "jax", error_if=lambda x, p, m: x, tree_at=Opaque("tree_at"), AbstractVar=Opaque("AbstractVar"))
        # stdlib
        mod("functools", partial=self.partial, wraps=self.wraps, reduce=self.reduce_, lru_cache=self.lru_cache, cache=self.lru_cache(), cached_property=lambda f: _cached_property(f),
            singledispatch=Opaque("singledispatch"), update_wrapper=lambda f, w: self.wraps(w)(f))
        any_t = Opaque("typing")
        mod("typing", Any=Opaque("Any"), Generic=self.generic, TypeVar=lambda *a, **k: Opaque("TypeVar"), Protocol=self.protocol, Callable=Opaque("Callable"),
            Optional=Opaque("Optional"), Union=Opaque("Union"), TYPE_CHECKING=False, cast=lambda t, x: x, NamedTuple=Opaque("NamedTuple"), Sequence=Opaque("S"))
        seq = BType("Sequence", lambda *a: None, lambda x: isinstance(x, (list, tuple, str, range)))
        mapping = BType("Mapping", lambda *a: None, lambda x: isinstance(x, dict))
        iterable = BType("Iterable", lambda *a: None, lambda x: isinstance(x, (list, tuple, str, range, dict, set)) or (isinstance(x, Arr) and x.ndim > 0))
        callable_t = BType("Callable", lambda *a: None, self.b_callable)
        cabc = mod("collections.abc", Sequence=seq, Mapping=mapping, Iterable=iterable, Callable=callable_t, Iterator=iterable, Hashable=BType("Hashable", None, lambda x: not isinstance(x, (list, dict, set))))
        mod("collections", defaultdict=lambda f=None, *a: DefaultDict(f, *[self.b_dict(x) for x in a]), OrderedDict=self.b_dict, abc=cabc, namedtuple=Opaque("namedtuple"), deque=lambda x=(): list(it.iterate(x)), Counter=Opaque("Counter"))
        mod("inspect", signature=self.signature, Parameter=ExtModule("inspect.Parameter", {**KINDS, "empty": PEMPTY}), Signature=Opaque("Signature"))
        m = self.np.funcs

        def mw(name):
            def f(*a):
                for x in a:
                    if isinstance(x, Arr) and x.tr:
                        it.event("concretisation", f"math.{name} applied to a traced value")
                r = m[name](*a)
                t = r.item_t()
                if name in ("floor", "ceil"):
                    v = self.np.const_num(t)
                    return int(v) if v is not None else Arr(t, "i", "py")
                return Arr(t, "f", "py")
            return f

        mm = {n: mw(n) for n in "sin cos tan sqrt exp log arccos arcsin arctan floor ceil hypot power arctan2 cbrt".split()}
        mm.update(acos=mm["arccos"], asin=mm["arcsin"], atan=mm["arctan"], atan2=mm["arctan2"], pow=mm["power"], fabs=lambda x: Arr(m["abs"](x).item_t(), "f", "py"))
        mm.update(pi=pi, inf=scalar(tm.INF, "f"), nan=scalar(tm.NAN, "f"), tau=scalar(tm.mul(tm.TWO, tm.PI), "f"), e=consts["e"])
        mm["factorial"] = lambda n: self._fact(n)
        mm["comb"] = lambda n, k: _math.comb(self.np.int_(n), self.np.int_(k))
        mm["isqrt"] = lambda n: _math.isqrt(self.np.int_(n))
        mm["gcd"] = _math.gcd
        mm["prod"] = lambda xs: self.reduce_(lambda a, b: self.binop("Mult", a, b), xs, 1)
        mm["isclose"] = lambda a, b, **k: self.np.f_isclose(a, b)
        mm["copysign"] = lambda a, b: self.binop("Mult", self.unop("abs", a), self.np.f_sign(b))
        mod("math", **mm)
        mod("operator", add=lambda a, b: self.binop("Add", a, b), mul=lambda a, b: self.binop("Mult", a, b), sub=lambda a, b: self.binop("Sub", a, b), itemgetter=lambda i: (lambda x: self.getitem(x, i)),
            attrgetter=lambda n: (lambda x: it.getattr(x, n)))
        mod("itertools", chain=ItChain(self), product=lambda *a, repeat=1: list(itertools.product(*[it.iterate(x) for x in a], repeat=repeat)), count=Opaque("count"),
            combinations=lambda x, r: list(itertools.combinations(it.iterate(x), r)), zip_longest=lambda *a, fillvalue=None: list(itertools.zip_longest(*[it.iterate(x) for x in a], fillvalue=fillvalue)),
            repeat=lambda x, n: [x] * n, accumulate=Opaque("accumulate"), islice=lambda x, *a: pylang.islice(self, x, *a), pairwise=lambda x: list(zip(it.iterate(x)[:-1], it.iterate(x)[1:])))
        mod("warnings", warn=lambda *a, **k: it.event("warn", str(a[0]) if a else ""), catch_warnings=lambda **k: Opaque("cw"), simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)
        mod("__future__", annotations=None)
        mod("dataclasses", dataclass=Opaque("dataclass"), field=lambda **k: FieldCall(**k), replace=self.dc_replace)
        mod("copy", copy=self.copy_, deepcopy=self.copy_)
        mod("contextlib", contextmanager=Opaque("contextmanager"))
        mod("importlib.resources", as_file=lambda x: Opaque("file"), files=lambda x: Opaque("files"))
        mod("importlib")
        mod("abc", ABC=self.object_cls, abstractmethod=lambda f: f)
        mod("numbers", Number=BType("Number", None, lambda x: isinstance(x, int) or (isinstance(x, Arr) and x.kind == "py")), Real=BType("Real", None, lambda x: isinstance(x, int) or (isinstance(x, Arr) and x.kind == "py")))
        mod("enum", Enum=self.object_cls)
        # scipy
        def host(f):
            def g(*a, **k):
                if tr_of([a, k]):
                    it.event("concretisation", "scipy function applied to a traced value")
                return f(*a, **k)

            return g

        sp = mod("scipy.special", roots_legendre=self.roots_legendre, legendre=self._legendre, binom=host(lambda n, k: self._npk(self.np.map(self._binom, n, k))),
                 comb=host(lambda n, k, exact=False, **kk: self._npk(self.np.map(self._binom, n, k)) if exact is not True else _math.comb(self.np.int_(n), self.np.int_(k))),
                 gamma=host(lambda x: self._npk(self.np.map(self._gamma, x))), factorial=lambda n, *a, **k: self._fact(n))
        lin = mod("scipy.sparse.linalg", inv=lambda s: Sparse(self._npk(self.np.inv(s.arr)), False), spsolve=self._spsolve)
        csc = BType("csc_array", self.csc, lambda x: isinstance(x, Sparse) and not x.jax)
        ss = mod("scipy.sparse", linalg=lin, csc_array=csc, csc_matrix=csc, csr_array=csc, csr_matrix=csc, coo_array=csc, identity=lambda n: Sparse(self.np.f_eye(n), False), eye=lambda n: Sparse(self.np.f_eye(n), False))
        mod("scipy.spatial.transform", Rotation=Opaque("Rotation"))
        mod("scipy", special=sp, sparse=ss)
        for n in ("matplotlib", "matplotlib.pyplot", "mpmath", "h5py", "numpyro"):
            mod(n)
        E["mpmath"].ns_["mp"] = Opaque("mp")

    def _lstsq(self, a, b, **k):
        at = self.np.f_transpose(a)
        return (self.jx(self.np.solve(self.np.f_matmul(at, a), self.np.f_matmul(at, b))), None, None, None)

    def dc_replace(self, o, **k):
        return self.instantiate(o.cls, [], {**{n: o.attrs[n] for n in o.cls.fields}, **k})

    def copy_(self, x):
        if isinstance(x, dict):
            return self.dict_attr(x, "copy")()
        if isinstance(x, list):
            return list(x)
        if isinstance(x, Obj):
            o = Obj(x.cls)
            o.attrs.update(x.attrs)
            o.frozen = x.frozen
            return o
        if isinstance(x, Arr):
            return self.np.f_copy(x)
        return x

    def _eff(self, kind, text):
        def f(*a, **k):
            self.it.event(kind, text)
            return Opaque(text)
        return f

    def _fact(self, n):
        n = self.np.int_(n)
        if n < 0:
            self.it.raise_("ValueError", "factorial() not defined for negative values")
        return _math.factorial(n)

    def _legendre(self, n):
        """scipy.special.legendre(n): the polynomial P_n as a callable"""
        from .checks.sph import legendre_deriv

        co = [tm.lift(c) for c in legendre_deriv(self.np.int_(n), 0)]

        def p(x):
            a = self.np.A(x)
            if a.tr:
                self.it.event("concretisation", "scipy polynomial evaluated at a traced value")

            def horner(t):
                r = tm.ZERO
                for c in reversed(co):
                    r = tm.add(tm.mul(r, t), c)
                return r

            d = obj_array(a.shape)
            for i in np.ndindex(a.shape):
                d[i] = horner(a.d[i])
            return Arr(d, "f", a.kind, a.tr)

        return p

    def _binom(self, n, k):
        if tm.isc(n) and tm.isc(k):
            a, b = tm.cval(n), tm.cval(k)
            if a.denominator == 1 and b.denominator == 1:
                a, b = int(a), int(b)
                return tm.const(_math.comb(a, b) if 0 <= b <= a else 0)
        return tm.fn("?binom", n, k)

    def _gamma(self, x):
        if tm.isc(x):
            v = tm.cval(x)
            if v.denominator == 1:
                if v <= 0:
                    return tm.INF
                return tm.const(_math.factorial(int(v) - 1))
            if v.denominator == 2:
                # gamma(1/2 + n) = sqrt(pi) * prod
                f = Fraction(1)
                w = v
                while w > Fraction(1, 2):
                    w -= 1
                    f *= w
                while w < Fraction(1, 2):
                    f /= w
                    w += 1
                return tm.mul(tm.const(f), tm.sqrt(tm.PI))
        return tm.fn("?gamma", x)

    def roots_legendre(self, n):
        if isinstance(n, Arr) and n.tr:
            self.it.event("concretisation", "roots_legendre of a traced order")
        n = self.np.int_(n)
        x, w = obj_array((n,)), obj_array((n,))
        for i in range(n):
            x[i] = tm.var(f"gl:x{n}_{i}")
            w[i] = tm.var(f"gl:w{n}_{i}")
        return (Arr(x, "f", "np"), Arr(w, "f", "np"))

    def csc(self, arg, shape=None, dtype=None, **k):
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (r, c) = arg
            r, c = self.np.A(r), self.np.A(c)
            data = self.np.A(data)
            if shape is None:
                raise AnalysisError("csc without shape")
            d = obj_array(self.np.shape_(shape), tm.ZERO)
            for v, i, j in zip(data.flat(), r.flat(), c.flat()):
                i, j = int(tm.cval(i)), int(tm.cval(j))
                try:
                    d[i, j] = tm.add(d[i, j], v)
                except IndexError:
                    self.it.raise_("ValueError", "sparse index exceeds matrix dimensions")
            return Sparse(Arr(d, "f", "np"), False)
        if isinstance(arg, Sparse):
            return arg
        return Sparse(self._npk(self.np.A(arg)), False)

    def _spsolve(self, a, b):
        r = self._npk(self.np.solve(a.arr, b.arr if isinstance(b, Sparse) else b))
        if isinstance(b, Sparse) and b.arr.shape[1] > 1:
            return Sparse(r, False)
        return Arr(r.d.reshape(-1), "f", "np")

    def bcoo(self, args, shape=None, **k):
        data, idx = self.it.iterate(args)
        data, idx = self.np.A(data), self.np.A(idx)
        sh = self.np.shape_(shape)
        if idx.tr and self._has_dynamic(idx):
            raise AnalysisError("dynamic BCOO indices")
        d = obj_array(sh, tm.ZERO)
        for n in range(idx.shape[0]):
            ix = tuple(int(tm.cval(t)) for t in idx.d[n])
            if all(0 <= i < s for i, s in zip(ix, sh)):
                v = data.d[n]
                d[ix] = tm.add(d[ix], v if isinstance(v, T) else v)
        return Sparse(self.jx(Arr(d, data.dt, "jax", frozenset(tr_of([data, idx])))), True)

    def finfo(self, dt):
        if not isinstance(dt, DT):
            dt = self.np.f_dtype(dt)
        if dt.k != "f":
            self.it.raise_("ValueError", "finfo of a non-floating dtype")
        o = Finfo()
        if dt.name:
            o.eps = scalar(tm.const(Fraction(1, 2 ** {"float64": 52, "float32": 23, "float16": 10}.get(dt.name, 52))), "f", "np")
            o.explicit = dt.name
        else:
            o.eps = scalar(tm.EPS, "f", "np")
        o.tiny = scalar(tm.var("@tiny"), "f", "np")
        o.max = scalar(tm.var("@fmax"), "f", "np")
        o.dtype = dt
        return o

    def lu_transformation(self, gen):
        def tr(wf, *params):
            return WFun(self, wf.f, ((gen, params, None),) + wf.transforms)
        return tr

    def lu_transformation_aux(self, gen):
        def tr(wf, *params):
            store = []
            return (WFun(self, wf.f, ((gen, params, store),) + wf.transforms), lambda: store[0])
        return tr

    # ------------------------------------------------------------- imports
    def module_override(self, name):
        if name == "jaxoplanet.units.registry":
            def f(m):
                m.ns["unit_registry"] = self.registry
            return f
        if name == "jaxoplanet.jaxoplanet_version":
            def f(m):
                m.ns["__version__"] = "0"
            return f
        return None

    def external(self, name):
        m = self.ext.get(name)
        if m is None:
            m = self.ext[name] = ExtModule(name)
        if name in STUBS and not m.ns_.get("_loaded"):
            m.ns_["_loaded"] = True
            m.ns_.update(self.stub(STUBS[name]))
        return m

    def stub(self, name):
        """library semantics written as interpreted code (sa/stubs)"""
        import ast
        import os

        from .interp import Module

        m = Module("stub." + name, None)
        m.rel = f"<library model {name}>"
        m.ns["__name__"] = "stub." + name
        with open(os.path.join(os.path.dirname(__file__), "stubs", name + ".py")) as f:
            src = "import jax.numpy as jnp\nimport numpy as np\n" + f.read()
        it = self.it
        saved = it.stack, it.line, tm.SITE[0], it.jit_depth, it.vmap_depth
        it.stack = [(m.rel, "<module>")]
        try:
            it.exec_block(ast.parse(src).body, m.env)
        finally:
            it.stack, it.line, tm.SITE[0], it.jit_depth, it.vmap_depth = saved
        return {k: v for k, v in m.ns.items() if not k.startswith("_") and k not in ("jnp", "np")}

    def from_external(self, m, base, name):
        if isinstance(m, ExtModule):
            if name in m.ns_:
                return m.ns_[name]
            if base + "." + name in self.ext:
                return self.ext[base + "." + name]
            return Opaque(f"{base}.{name}")
        return self.it.getattr(m, name)


_NO = object()
STUBS = {"mpmath": "mpmath", "jax.scipy.spatial.transform": "rotation", "scipy.spatial.transform": "rotation", "matplotlib.pyplot": "pyplot", "jax._src.public_test_util": "checkclose"}


class UnionType(HostObj):
    def __init__(self, ts):
        self.ts = ts


class Wrappedish:
    pass


class TreePartial(HostObj):
    pass


class _Leaf(HostObj):
    pass


class Finfo(HostObj):
    explicit = None


class ItChain(HostObj):
    def __init__(self, models):
        self.m = models

    def __call__(self, *a):
        return self.from_iterable(a)

    def from_iterable(self, xs):
        return pylang.IterObj(y for x in self.m.it.lazy(xs) for y in self.m.it.lazy(x))


class Masked(HostObj):
    """array filtered by an unknown boolean mask"""

    def __init__(self, models, arr, mask):
        self.models = models
        self.arr = arr
        self.mask = mask


class Signature(HostObj):
    def __init__(self, models, params):
        self.models = models
        self.parameters = {p.name: p for p in params}

    def bind(self, *args, **kwargs):
        return self._bind(args, kwargs, False)

    def bind_partial(self, *args, **kwargs):
        return self._bind(args, kwargs, True)

    def _bind(self, args, kwargs, partial):
        it = self.models.it
        args = list(args)
        kwargs = dict(kwargs)
        out = {}
        ps = list(self.parameters.values())
        for p in ps:
            if p.kind == 2:
                if args:
                    out[p.name] = tuple(args)
                    args = []
                continue
            if p.kind == 4:
                continue
            if p.kind in (0, 1) and args:
                if p.name in kwargs and p.kind == 1:
                    it.raise_("TypeError", f"multiple values for argument '{p.name}'")
                out[p.name] = args.pop(0)
            elif p.name in kwargs and p.kind != 0:
                out[p.name] = kwargs.pop(p.name)
            elif p.default is PEMPTY and not partial:
                it.raise_("TypeError", f"missing a required argument: '{p.name}'")
        if args:
            it.raise_("TypeError", "too many positional arguments")
        kw = next((p for p in ps if p.kind == 4), None)
        if kwargs:
            if kw is None:
                it.raise_("TypeError", f"got an unexpected keyword argument '{next(iter(kwargs))}'")
            out[kw.name] = kwargs
        ordered = {p.name: out[p.name] for p in ps if p.name in out}
        return Bound(self, ordered)


class Bound(HostObj):
    def __init__(self, sig, arguments):
        self.signature = sig
        self.arguments = arguments

    def apply_defaults(self):
        new = {}
        for p in self.signature.parameters.values():
            if p.name in self.arguments:
                new[p.name] = self.arguments[p.name]
            elif p.default is not PEMPTY:
                new[p.name] = p.default
            elif p.kind == 2:
                new[p.name] = ()
            elif p.kind == 4:
                new[p.name] = {}
        self.arguments = new

    @property
    def args(self):
        out = []
        for p in self.signature.parameters.values():
            if p.kind in (3, 4):
                break
            if p.name not in self.arguments:
                break
            if p.kind == 2:
                out.extend(self.arguments[p.name])
            else:
                out.append(self.arguments[p.name])
        return tuple(out)

    @property
    def kwargs(self):
        out = {}
        started = False
        for p in self.signature.parameters.values():
            if not started:
                if p.kind in (3, 4):
                    started = True
                elif p.name not in self.arguments:
                    started = True
                    continue
            if not started:
                continue
            if p.name not in self.arguments:
                continue
            if p.kind == 4:
                out.update(self.arguments[p.name])
            else:
                out[p.name] = self.arguments[p.name]
        return out


def _parse_sig(s):
    out = []
    for part in s.replace(" ", "").strip().split("),("):
        part = part.strip("()")
        out.append(tuple(x for x in part.split(",") if x))
    return out


def _cached_property(f):
    from .interp import CachedProperty

    return CachedProperty(f)
