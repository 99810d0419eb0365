"""Record types and control constructs of the language library: dataclasses,
named tuples, enumerations, context-manager functions, single dispatch."""
from __future__ import annotations

from .values import AnalysisError, HostObj, Obj, Opaque, OStr, PyClass, PyRaise


class NT(tuple):
    """an instance of a named tuple class"""

    pycls = None
    fields_: tuple = ()


def nt_host(cls, fields):
    return type("NT_" + cls.name, (NT,), {"pycls": cls, "fields_": tuple(fields)})


def eqx_class(cls):
    return any(c.builtin == "eqx" for c in cls.mro)


def dc_class(cls):
    """the dataclass whose generated methods `cls` has (its own or inherited)"""
    for c in cls.mro:
        if getattr(c, "dataclass", False):
            return c
    return None


# ---------------------------------------------------------------- dataclass
def dataclass(M):
    def deco(cls, **kw):
        if not isinstance(cls, PyClass):
            return cls
        if eqx_class(cls):
            return cls
        M.make_fields(cls, getattr(cls, "anns", []) or [])
        cls.dataclass = True
        cls.dc_frozen = bool(kw.get("frozen", False)) or any(getattr(c, "dc_frozen", False) for c in cls.mro[1:])
        cls.dc_eq = bool(kw.get("eq", True))
        cls.dc_order = bool(kw.get("order", False))
        cls.dc_kw_only = bool(kw.get("kw_only", False))
        if cls.dc_kw_only:
            raise AnalysisError("keyword-only dataclass")
        return cls

    def g(cls=None, **kw):
        if cls is None:
            return lambda c: deco(c, **kw)
        return deco(cls, **kw)

    return g


# -------------------------------------------------------------- named tuples
def make_nt(M, name, fields, defaults, module=None):
    cls = PyClass(name, [M.object_cls], {}, module)
    cls.builtin = "nt"
    set_nt(cls, fields, defaults)
    return cls


def set_nt(cls, fields, defaults):
    cls.nt_fields = tuple(fields)
    cls.nt_defaults = dict(defaults)


def nt_of(cls):
    for c in cls.mro:
        if getattr(c, "nt_fields", None) is not None:
            return c
    return None


def nt_make(M, cls, args, kwargs):
    it = M.it
    base = nt_of(cls)
    if cls.lookup("__new__")[0] is not None:
        raise AnalysisError("named tuple with __new__")
    f = base.nt_fields
    if len(args) > len(f):
        it.raise_("TypeError", f"{cls.name}() takes {len(f)} positional arguments but {len(args)} were given")
    vals = dict(zip(f, args))
    for k, v in kwargs.items():
        if k not in f or k in vals:
            it.raise_("TypeError", f"{cls.name}() got an unexpected or repeated argument '{k}'")
        vals[k] = v
    for k in f:
        if k not in vals:
            if k not in base.nt_defaults:
                it.raise_("TypeError", f"{cls.name}() missing argument '{k}'")
            vals[k] = base.nt_defaults[k]
    return nt_new(cls, [vals[k] for k in f])


def nt_new(cls, vals):
    host = getattr(cls, "nt_host", None)
    if host is None:
        host = cls.nt_host = nt_host(cls, nt_of(cls).nt_fields)
    return host(vals)


def nt_attr(M, o, name):
    if name in o.fields_:
        return o[o.fields_.index(name)]
    if name == "_fields":
        return o.fields_
    if name == "_asdict":
        return lambda: dict(zip(o.fields_, o))
    if name == "_replace":
        def rep(**k):
            for n in k:
                if n not in o.fields_:
                    M.it.raise_("ValueError", f"Got unexpected field names: {n}")
            return type(o)([k.get(n, v) for n, v in zip(o.fields_, o)])
        return rep
    if name == "__class__":
        return o.pycls
    v, c = o.pycls.lookup(name)
    if c is not None:
        return M.it.bind_desc(v, o, o.pycls)
    return None


def namedtuple(M):
    def f(name, fields, *, defaults=None, rename=False, module=None):
        if isinstance(fields, str):
            fields = fields.replace(",", " ").split()
        fields = list(M.it.iterate(fields))
        d = [] if defaults is None else list(M.it.iterate(defaults))
        return make_nt(M, name, fields, zip(fields[len(fields) - len(d):], d))

    return f


# ------------------------------------------------------------ enumerations
def enum_class(M):
    c = PyClass("Enum", [M.object_cls], {})
    c.builtin = "enum"
    return c


def is_enum(cls):
    return any(c.builtin == "enum" for c in cls.mro) and cls.builtin != "enum"


def finish_enum(M, cls):
    from .interp import ClassMethod, Property, PyFunc, StaticMethod, Wrapped

    cls.members = {}
    n = 0
    for k, v in list(cls.ns.items()):
        if k.startswith("_") or isinstance(v, (PyFunc, Property, StaticMethod, ClassMethod, Wrapped)):
            continue
        if isinstance(v, EnumAuto):
            v = n + 1
        if isinstance(v, int):
            n = v
        for m in cls.members.values():
            if type(m.attrs["value"]) is type(v) and M.it.truth(M.compare("Eq", m.attrs["value"], v)):
                cls.ns[k] = m
                break
        else:
            o = Obj(cls)
            o.attrs["name"] = k
            o.attrs["value"] = v
            cls.ns[k] = o
            cls.members[k] = o


class EnumAuto(HostObj):
    pass


def enum_call(M, cls, args):
    for m in cls.members.values():
        if m is args[0] or M.it.truth(M.compare("Eq", m.attrs["value"], args[0])):
            return m
    M.it.raise_("ValueError", f"{args[0]!r} is not a valid {cls.name}")


# ------------------------------------------------------- context managers
class GenContext(HostObj):
    def __init__(self, M, gen):
        self.M = M
        self.gen = gen

    def enter_(self):
        k, v = self.gen.resume()
        if k == "ret":
            self.M.it.raise_("RuntimeError", "generator didn't yield")
        return v

    def exit_(self, exc=None):
        if exc is None:
            k, _ = self.gen.resume()
            if k != "ret":
                self.M.it.raise_("RuntimeError", "generator didn't stop")
            return False
        try:
            k, _ = self.gen.throw(exc)
        except PyRaise as e:
            if e.exc is exc.exc:
                return False
            raise
        if k != "ret":
            self.M.it.raise_("RuntimeError", "generator didn't stop after throw()")
        return True


def contextmanager(M):
    def deco(f):
        def g(*a, **k):
            return GenContext(M, M.it.call(f, list(a), k))

        return M.wraps(f)(g)

    return deco


class Suppress(HostObj):
    def __init__(self, M, ts):
        self.M, self.ts = M, ts

    def enter_(self):
        return None

    def exit_(self, exc=None):
        return exc is not None and self.M.it.exc_match(exc.exc, tuple(self.ts))


class Null(HostObj):
    def __init__(self, v=None):
        self.v = v

    def enter_(self):
        return self.v

    def exit_(self, exc=None):
        return False


# ------------------------------------------------------------ single dispatch
class Dispatch(HostObj):
    def __init__(self, M, f):
        self.M = M
        self.default = f
        self.table = []

    def register(self, t, f=None):
        from .interp import PyFunc

        if isinstance(t, PyFunc):
            a = t.node.args
            first = (a.posonlyargs + a.args)[0]
            if first.annotation is None:
                raise AnalysisError("singledispatch registration without annotation")
            from .interp import Env

            ty = self.M.it.ev(first.annotation, t.env if t.env is not None else Env(t.module))
            self.table.append((ty, t))
            return t
        if f is not None:
            self.table.append((t, f))
            return f

        def deco(fn):
            self.table.append((t, fn))
            return fn

        return deco

    def pick(self, x):
        M = self.M
        hits = [(t, f) for t, f in self.table if M.b_isinstance(x, t)]
        if not hits:
            return self.default
        if isinstance(x, Obj):
            hits.sort(key=lambda h: x.cls.mro.index(h[0]) if h[0] in x.cls.mro else 99)
        elif isinstance(x, bool):
            for t, f in hits:
                if getattr(t, "name", "") == "bool":
                    return f
        return hits[0][1]

    def __call__(self, *a, **k):
        if not a:
            self.M.it.raise_("TypeError", "singledispatch function requires at least 1 positional argument")
        return self.M.it.call(self.pick(a[0]), list(a), k)


def plain(x):
    """its text is that of the host object"""
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return all(plain(y) for y in x)
    return x is None or (isinstance(x, (int, str)) and not isinstance(x, OStr))


class IterObj(HostObj):
    """one-shot iterator"""

    def __init__(self, xs):
        self.gen = iter(xs)

    def iter_(self):
        return list(self.gen)


class Count(HostObj):
    """itertools.count / cycle: as many elements as asked for"""

    def __init__(self, gen):
        def bounded():
            for i, v in enumerate(gen):
                if i > 20000:
                    raise AnalysisError("iteration over an endless iterator")
                yield v

        self.gen = bounded()

    def iter_(self):
        raise AnalysisError("iteration over an endless iterator")


def islice(M, x, *a):
    import itertools

    return IterObj(itertools.islice(M.it.lazy(x), *[None if i is None else M.np.int_(i) for i in a]))


def _count(M):
    def count(start=0, step=1):
        def g():
            v = start
            while True:
                yield v
                v = M.binop("Add", v, step)

        return Count(g())

    return count


def install(M):
    import itertools

    E = M.ext
    ns = E["itertools"].ns_
    ns["count"] = _count(M)
    ns["cycle"] = lambda xs: Count(itertools.cycle(M.it.iterate(xs)))
    ns["repeat"] = lambda x, n=None: Count(itertools.repeat(x)) if n is None else [x] * M.np.int_(n)

    def takewhile(p, xs):
        return IterObj(itertools.takewhile(lambda x: M.it.truth(M.it.call(p, [x], {})), M.it.lazy(xs)))

    ns["takewhile"] = takewhile

    def one_shot(f):
        def g(*a, **k):
            r = f(*a, **k)
            return IterObj(r) if isinstance(r, list) else r

        return g

    for k, f in list(ns.items()):
        if k not in ("count", "cycle", "takewhile", "islice", "chain", "tee") and not isinstance(f, Opaque):
            ns[k] = one_shot(f)
    ns["tee"] = lambda xs, m=2: tuple(IterObj(x) for x in itertools.tee(M.it.lazy(xs), M.np.int_(m)))
    E["dataclasses"].ns_["dataclass"] = dataclass(M)
    E["dataclasses"].ns_["InitVar"] = Opaque("InitVar")
    E["dataclasses"].ns_["fields"] = lambda o: tuple(FieldView(n) for n in (o.cls if isinstance(o, Obj) else o).fields)
    E["collections"].ns_["namedtuple"] = namedtuple(M)
    M.nt_base = PyClass("NamedTuple", [M.object_cls], {})
    M.nt_base.builtin = "ntbase"
    E["typing"].ns_["NamedTuple"] = M.nt_base
    en = enum_class(M)
    for n in ("Enum", "StrEnum", "IntEnum"):
        E["enum"].ns_[n] = en if n == "Enum" else _sub_enum(M, n, en)
    E["enum"].ns_["auto"] = EnumAuto
    E["enum"].ns_["unique"] = lambda c: c
    E["contextlib"].ns_["contextmanager"] = contextmanager(M)
    E["contextlib"].ns_["nullcontext"] = lambda v=None: Null(v)
    E["contextlib"].ns_["suppress"] = lambda *ts: Suppress(M, ts)
    E["functools"].ns_["singledispatch"] = lambda f: Dispatch(M, f)


class FieldView(HostObj):
    def __init__(self, name):
        self.name = name


def _sub_enum(M, name, en):
    c = PyClass(name, [en], {})
    c.builtin = "enum"
    return c

