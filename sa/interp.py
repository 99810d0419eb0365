"""A syntax-directed abstract interpreter for the repository's Python.

It evaluates the *abstract syntax tree* of the modules under
/repo/src/jaxoplanet over the abstract domain of values.py; no repository code
is imported or run.  Python control flow on statically known values (configuration:
which optional arguments are None, static integers, shapes) is followed;
data-dependent selection in this code base is expressed by jnp.where & co and
becomes a gamma node.  A Python-level branch on a data-dependent value is an
event ("concretisation") because it is an error under jit/vmap/grad.
"""
from __future__ import annotations

import ast
import os
import sys
import threading
from fractions import Fraction

import numpy as np

from . import pylang
from . import terms as tm
from .terms import T
from .values import (
    AnalysisError, Arr, HostObj, Obj, Opaque, OStr, PyClass, PyRaise, Qty, Unit, scalar,
)

sys.setrecursionlimit(20000)
threading.stack_size(256 * 1024 * 1024)

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "module", "nonlocals", "globals_", "func", "cls", "comp")

    def __init__(self, module, parent=None, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.nonlocals = set()
        self.globals_ = set()
        self.func = func
        self.cls = None
        self.comp = False

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)


class PyFunc:
    def __init__(self, name, node, env, defaults, kwdefaults, module, cls=None):
        self.name = name
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.module = module
        self.cls = cls
        self.attrs = {}
        self.qualname = (cls.name + "." if cls else "") + name
        self.is_gen = _has_yield(node)

    def __repr__(self):
        return f"<function {self.module.name}.{self.qualname}>"


class Wrapped(HostObj):
    """host-implemented wrapper that still binds like a function"""

    def __init__(self, call, wrapped=None, name=None, binds=True):
        self._call = call
        self.attrs = {}
        if wrapped is not None:
            self.attrs["__wrapped__"] = wrapped
        self.name = name
        self.binds = binds

    def __call__(self, *a, **k):
        return self._call(*a, **k)


class BoundMethod:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return f"<bound {self.func!r}>"


class Property:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class CachedProperty(Property):
    """computed on first access, then an attribute of the instance"""


class StaticMethod:
    def __init__(self, f):
        self.f = f


class ClassMethod:
    def __init__(self, f):
        self.f = f


class Module:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.env = Env(self)
        self.env.module = self
        self.tree = None

    @property
    def ns(self):
        return self.env.vars

    def __repr__(self):
        return f"<module {self.name}>"


class Partial(HostObj):
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = tuple(args)
        self.keywords = dict(kwargs)


class Super:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class GenExit(BaseException):
    pass


class _Throw:
    def __init__(self, exc):
        self.exc = exc


class Generator(HostObj):
    """generator function activation, run as a coroutine on a helper thread"""

    def __init__(self, interp, body):
        self.interp = interp
        self.body = body
        self.started = False
        self.done = False
        self._to = threading.Semaphore(0)
        self._from = threading.Semaphore(0)
        self.msg = None
        self.out = None
        self.saved = None

    def _run(self):
        self._to.acquire()
        try:
            if self.msg is GenExit:
                return
            self.out = ("ret", self.body(self))
        except GenExit:
            self.out = ("ret", None)
        except BaseException as e:  # noqa
            self.out = ("exc", e)
        self.done = True
        self._from.release()

    def yield_(self, value):
        self.out = ("yield", value)
        self._from.release()
        self._to.acquire()
        if self.msg is GenExit:
            raise GenExit()
        m = self.msg
        self.msg = None
        if isinstance(m, _Throw):
            raise m.exc
        return m

    def throw(self, exc):
        """raise `exc` at the suspended yield"""
        if self.done or not self.started:
            self.done = True
            raise exc
        return self.resume(_Throw(exc))

    def resume(self, value=None):
        """returns ('yield', v) or ('ret', None)"""
        if self.done:
            return ("ret", None)
        if not self.started:
            self.started = True
            self.th = threading.Thread(target=self._run, daemon=True)
            self.th.start()
        self.msg = value
        it = self.interp
        it._lines = getattr(it, "_lines", [])
        base, lines, line = list(it.stack), list(it._lines), it.line
        if self.saved is not None:
            it.stack.extend(self.saved[0])
            it._lines.extend(self.saved[1])
        self._to.release()
        self._from.acquire()
        self.saved = (it.stack[len(base):], it._lines[len(lines):])
        it.stack[:], it._lines[:], it.line = base, lines, line
        kind, v = self.out
        if kind == "exc":
            raise v
        return kind, v

    def iterate(self):
        out = []
        while True:
            k, v = self.resume()
            if k == "ret":
                return out
            out.append(v)


def _has_yield(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Event:
    def __init__(self, kind, site, text, chain=()):
        self.kind = kind
        self.site = site
        self.text = text
        self.chain = chain

    def __repr__(self):
        return f"{self.kind} at {fmt_site(self.site)}: {self.text}"


def fmt_site(s):
    if not s:
        return "<model>"
    return f"{s[0]}:{s[1]} in {s[2]}"


_MODCACHE: dict = {}


class Interp:
    MAXDEPTH = 400

    def __init__(self, src=SRC, unit_table=None):
        from . import models

        self.src = src
        self.modules = {}
        self.events = []
        self.stack = []  # (module file, func qualname)
        self.line = None
        self.summaries = {}  # (module, qualname) -> host callable(interp, args, kwargs)
        self.jit_depth = 0
        self.vmap_depth = 0
        self.analysed = {}  # (file, func) -> count
        self.calls = 0
        self.call_log = None
        self.steps = 0
        self.step_limit = 40_000_000
        self.models = models.install(self, unit_table)
        self.exc_classes = self.models.exc
        self.mutations = []
        self.writes = []  # (object, site) of every heap write
        self.opaque_writes = []

    # ---------------------------------------------------------- utilities
    def site(self):
        if self.stack:
            f, q = self.stack[-1]
            return (f, self.line, q)
        return None

    def event(self, kind, text):
        chain = tuple(f"{f}:{q}" for f, q in self.stack)
        self.events.append(Event(kind, self.site(), text, chain))

    def wrote(self, o):
        self.writes.append((o, self.site()))
        b = getattr(o, "base", None)
        while b is not None:
            self.writes.append((b, self.site()))
            b = getattr(b, "base", None)

    def raise_(self, name, msg=""):
        cls = self.exc_classes[name]
        o = Obj(cls)
        o.attrs["args"] = (msg,)
        raise PyRaise(o, self.site())

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        if os.path.isdir(p):
            return p  # namespace package
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == "jaxoplanet" or name.startswith("jaxoplanet."):
            # parents first
            if "." in name:
                parent = self.import_module(name.rsplit(".", 1)[0])
                if name in self.modules:
                    return self.modules[name]
            path = self.module_path(name)
            if path is None and name == "jaxoplanet.jaxoplanet_version":
                # written by the build (setuptools-scm), not part of the sources
                m = self.modules[name] = Module(name, None)
                m.rel = "src/jaxoplanet/jaxoplanet_version.py"
                m.ns.update({k: "0" for k in ("__version__", "version", "__version_tuple__", "version_tuple")})
                return m
            if path is None:
                self.raise_("ModuleNotFoundError", f"No module named {name}")
            m = Module(name, path)
            self.modules[name] = m
            m.ns["__name__"] = name
            m.ns["__file__"] = path
            ov = self.models.module_override(name)
            if os.path.isdir(path):
                m.rel = os.path.relpath(path, REPO)
                if "." in name:
                    parent.ns.setdefault(name.rsplit(".", 1)[1], m)
                return m
            key = (path, os.stat(path).st_mtime_ns)
            if key not in _MODCACHE:
                with open(path) as f:
                    _MODCACHE[key] = ast.parse(f.read(), path)
            m.tree = _MODCACHE[key]
            rel = os.path.relpath(path, REPO)
            m.rel = rel
            saved = self.stack, self.line, tm.SITE[0], self.jit_depth, self.vmap_depth
            self.stack = [(rel, "<module>")]
            self.jit_depth = self.vmap_depth = 0
            try:
                if ov is not None:
                    ov(m)
                else:
                    self.exec_block(m.tree.body, m.env)
            except BaseException:
                self.modules.pop(name, None)
                raise
            finally:
                self.stack, self.line, tm.SITE[0], self.jit_depth, self.vmap_depth = saved
            if "." in name:
                parent.ns.setdefault(name.rsplit(".", 1)[1], m)
            return m
        return self.models.external(name)

    def get(self, dotted):
        """'jaxoplanet.orbits.keplerian:Body.x'"""
        mod, _, q = dotted.partition(":")
        v = self.import_module(mod)
        for part in q.split(".") if q else []:
            v = self.getattr(v, part)
        return v

    # --------------------------------------------------------- statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisError("step limit")
        self.line = s.lineno
        if self.stack:
            f, q = self.stack[-1]
            tm.SITE[0] = (f, s.lineno, q)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"statement {type(s).__name__} at {fmt_site(self.site())}")
        m(s, env)

    def x_Expr(self, s, env):
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Global(self, s, env):
        env.globals_.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Return(self, s, env):
        raise _Ret(self.ev(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise _Break

    def x_Continue(self, s, env):
        raise _Continue

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
        if env.cls is not None and isinstance(s.target, ast.Name):
            env.cls.append((s.target.id, s.value is not None, s.annotation))

    def x_AugAssign(self, s, env):
        tgt = s.target
        if isinstance(tgt, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(tgt.id, ast.Load()), tgt), env)
            new = self.inplace(type(s.op).__name__, cur, self.ev(s.value, env))
            self.assign(tgt, new, env)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, env)
            new = self.inplace(type(s.op).__name__, self.getattr(o, tgt.attr), self.ev(s.value, env))
            self.setattr(o, tgt.attr, new)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, env)
            k = self.ev(tgt.slice, env)
            new = self.inplace(type(s.op).__name__, self.models.getitem(o, k), self.ev(s.value, env))
            self.models.setitem(o, k, new)
        else:
            raise AnalysisError("augassign target")

    def inplace(self, op, a, b):
        if op == "Add" and isinstance(a, list):
            self.wrote(a)
            a.extend(self.iterate(b))
            return a
        if isinstance(a, Arr) and a.kind == "np" and a.ndim > 0:
            r = self.models.binop(op, a, b)
            if isinstance(r, Arr) and r.shape == a.shape:
                self.mutations.append((a.origin, self.site()))
                self.wrote(a.d)
                a.d[...] = r.d
                return a
            return r
        if isinstance(a, (Obj,)):
            name = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(op)
            if name:
                f, _ = a.cls.lookup(name)
                if f is not None:
                    return self.call(BoundMethod(f, a), [b], {})
        if isinstance(a, (set, dict)) and op == "BitOr":
            a.update(b)
            return a
        return self.models.binop(op, a, b)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                del o[self.models.key(k)]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Obj):
                    o.attrs.pop(t.attr, None)
                else:
                    raise AnalysisError("del attr")

    def x_If(self, s, env):
        c = self.truth(self.ev(s.test, env), s.test)
        self.exec_block(s.body if c else s.orelse, env)

    def x_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env), s.test):
            n += 1
            if n > 10000:
                raise AnalysisError("while bound")
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        for v in self.lazy(self.ev(s.iter, env)):
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env), s.test):
            msg = ""
            try:
                msg = ast.unparse(s.test)
            except Exception:
                pass
            self.raise_("AssertionError", msg)

    def x_Raise(self, s, env):
        if s.exc is None:
            e = getattr(self, "current_exc", None)
            raise e if e is not None else AnalysisError("bare raise")
        v = self.ev(s.exc, env)
        self.line = s.lineno
        if isinstance(v, PyClass):
            v = self.instantiate(v, [], {})
        if not isinstance(v, Obj):
            raise AnalysisError(f"raise of {v!r}")
        if s.cause is not None:
            v.attrs["__cause__"] = self.ev(s.cause, env)
        raise PyRaise(v, self.site())

    def x_Try(self, s, env):
        try:
            try:
                depth = len(self.stack)
                self.exec_block(s.body, env)
            except PyRaise as e:
                del self.stack[depth:]
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, env)):
                        if h.name:
                            env.vars[h.name] = e.exc
                        saved = getattr(self, "current_exc", None)
                        self.current_exc = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.current_exc = saved
                        return
                raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            self.exec_block(s.finalbody, env)

    def exc_match(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_match(exc, x) for x in spec)
        return isinstance(spec, PyClass) and isinstance(exc, Obj) and exc.cls.subclass_of(spec)

    def x_With(self, s, env):
        ctxs = []
        for it in s.items:
            cm = self.ev(it.context_expr, env)
            v = self.models.enter(cm)
            ctxs.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            depth = len(self.stack)
            self.exec_block(s.body, env)
        except PyRaise as e:
            del self.stack[depth:]
            exc = e
            for cm in reversed(ctxs):
                if self.models.exit(cm, exc):
                    exc = None
            if exc is not None:
                raise
            return
        except (_Ret, _Break, _Continue):
            for cm in reversed(ctxs):
                self.models.exit(cm)
            raise
        for cm in reversed(ctxs):
            self.models.exit(cm)

    def x_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                top = a.name.split(".")[0]
                env.vars[top] = self.import_module(top)

    def x_ImportFrom(self, s, env):
        base = s.module or ""
        if s.level:
            pkg = env.module.name.split(".")
            is_pkg = env.module.path.endswith("__init__.py") or os.path.isdir(env.module.path)
            up = s.level - (1 if is_pkg else 0)
            pkg = pkg[: len(pkg) - up] if up else pkg
            base = ".".join(pkg + ([s.module] if s.module else []))
        m = self.import_module(base)
        for a in s.names:
            if a.name == "*":
                env.vars.update({k: v for k, v in m.ns.items() if not k.startswith("_")})
                continue
            if isinstance(m, Module):
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif self.module_path(base + "." + a.name):
                    v = self.import_module(base + "." + a.name)
                else:
                    self.raise_("ImportError", f"cannot import name {a.name} from {base}")
            else:
                v = self.models.from_external(m, base, a.name)
            env.vars[a.asname or a.name] = v

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            dec = self.ev(d, env)
            f = self.call(dec, [f], {})
        self.bind(s.name, f, env)

    def x_Match(self, s, env):
        subj = self.ev(s.subject, env)
        for c in s.cases:
            b = self.match_pattern(c.pattern, subj, env)
            if b is not None:
                for k, v in b.items():
                    self.bind(k, v, env)
                if c.guard is None or self.truth(self.ev(c.guard, env), c.guard):
                    self.exec_block(c.body, env)
                    return

    def match_pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return {} if self.truth(self.models.compare("Eq", v, self.ev(p.value, env)), p) else None
        if isinstance(p, ast.MatchSingleton):
            return {} if v is p.value else None
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return {p.name: v} if p.name else {}
            b = self.match_pattern(p.pattern, v, env)
            if b is not None and p.name:
                b[p.name] = v
            return b
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                b = self.match_pattern(q, v, env)
                if b is not None:
                    return b
            return None
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (Opaque, Arr)):
                raise AnalysisError("sequence pattern against an array")
            if not isinstance(v, (tuple, list, range)):
                return None
            v = list(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if (not star and len(v) != n) or (star and len(v) < n - 1):
                return None
            out = {}
            if star:
                i = star[0]
                k = len(v) - (n - 1)
                if p.patterns[i].name:
                    out[p.patterns[i].name] = v[i : i + k]
                pairs = list(zip(p.patterns[:i], v[:i])) + list(zip(p.patterns[i + 1 :], v[i + k :]))
            else:
                pairs = list(zip(p.patterns, v))
            for q, x in pairs:
                b = self.match_pattern(q, x, env)
                if b is None:
                    return None
                out.update(b)
            return out
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return None
            out, rest = {}, dict(v)
            for ke, q in zip(p.keys, p.patterns):
                k = self.models.key(self.ev(ke, env))
                if k not in v:
                    return None
                rest.pop(k, None)
                b = self.match_pattern(q, v[k], env)
                if b is None:
                    return None
                out.update(b)
            if p.rest:
                out[p.rest] = rest
            return out
        if isinstance(p, ast.MatchClass):
            t = self.ev(p.cls, env)
            if not self.models.b_isinstance(v, t):
                return None
            out = {}
            pos = list(p.patterns)
            if pos:
                if not isinstance(t, PyClass):
                    if len(pos) != 1:
                        raise AnalysisError("class pattern")
                    b = self.match_pattern(pos[0], v, env)
                    if b is None:
                        return None
                    out.update(b)
                    pos = []
                names = getattr(t, "nt_fields", None) or (list(t.fields) if t.fields else None) if isinstance(t, PyClass) else ()
                if isinstance(t, PyClass) and t.lookup("__match_args__")[0] is not None:
                    names = t.lookup("__match_args__")[0]
                if names is None:
                    raise AnalysisError("class pattern")
            else:
                names = ()
            for n, q in list(zip(names, pos)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                x = self.getattr(v, n, None)
                b = self.match_pattern(q, x, env)
                if b is None:
                    return None
                out.update(b)
            return out
        raise AnalysisError("match pattern")

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: (self.ev(d, env)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        # closures do not see class scopes
        penv = env
        while penv is not None and penv.cls is not None:
            penv = penv.parent
        f = PyFunc(name, node, penv, defaults, kwd, env.module)
        return f

    def x_ClassDef(self, s, env):
        bases = [self.models.generic_base(self.ev(b, env)) for b in s.bases]
        bases = [b for b in bases if isinstance(b, PyClass)]
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords}
        cenv = Env(env.module, env)
        cenv.cls = []
        self.stack.append((self.stack[-1][0], s.name))
        try:
            self.exec_block(s.body, cenv)
        finally:
            self.stack.pop()
        cls = PyClass(s.name, bases or [self.models.object_cls], dict(cenv.vars), env.module, s)
        for v in list(cls.ns.values()):
            self._set_cls(v, cls)
        self.models.finish_class(cls, cenv.cls, kw)
        c = cls
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, env), [c], {})
        # `super()` inside methods refers to the undecorated class
        self.bind(s.name, c, env)

    def _set_cls(self, v, cls, depth=0):
        if depth > 6:
            return
        if isinstance(v, PyFunc):
            if v.cls is None and v.node.__class__ is ast.FunctionDef:
                v.cls = cls
                v.qualname = cls.name + "." + v.name
            for w in ("__wrapped__",):
                if w in v.attrs:
                    self._set_cls(v.attrs[w], cls, depth + 1)
        elif isinstance(v, Property):
            self._set_cls(v.fget, cls, depth + 1)
            if v.fset:
                self._set_cls(v.fset, cls, depth + 1)
        elif isinstance(v, (StaticMethod, ClassMethod)):
            self._set_cls(v.f, cls, depth + 1)
        elif isinstance(v, Wrapped) and "__wrapped__" in v.attrs:
            self._set_cls(v.attrs["__wrapped__"], cls, depth + 1)

    # --------------------------------------------------------- assignment
    def bind(self, name, v, env):
        if name in env.globals_:
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                n_after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, list(vs[i: len(vs) - n_after]), env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - n_after:]):
                    self.assign(e, x, env)
            else:
                if len(vs) != len(t.elts):
                    self.raise_("ValueError", f"cannot unpack {len(vs)} values into {len(t.elts)}")
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            self.models.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v)), env)
        else:
            raise AnalysisError("assign target")

    # -------------------------------------------------------- expressions
    def ev(self, e, env):
        m = _EV.get(type(e))
        if m is None:
            raise AnalysisError(f"expression {type(e).__name__} at {fmt_site(self.site())}")
        return m(self, e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return scalar(tm.const(v), "f", "py")
        if isinstance(v, complex):
            return scalar(tm.cx(tm.const(v.real), tm.const(v.imag)), "c", "py")
        return v

    def e_Name(self, e, env):
        if e.id in env.globals_:
            try:
                return env.module.ns[e.id]
            except KeyError:
                pass
        try:
            return env.lookup(e.id)
        except KeyError:
            pass
        b = self.models.builtins
        if e.id in b:
            return b[e.id]
        # maybe a defined module global that appears later / unbound
        self.raise_("NameError", e.id)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        self.line = e.lineno
        return self.getattr(o, e.attr)

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return list(self._elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.models.key(x) for x in self._elts(e.elts, env))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.models.key(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        self.line = e.lineno
        if self.stack:
            f, q = self.stack[-1]
            tm.SITE[0] = (f, e.lineno, q)
        return self.models.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            return not self.truth(v, e.operand)
        return self.models.unop(op, v)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v, x)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            self.line = e.lineno
            res = self.models.compare(type(op).__name__, left, right)
            if len(e.ops) > 1 and r is not e.comparators[-1] and not self.truth(res, e):
                return res
            left = right
        return res

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env), e.test) else e.orelse, env)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        # super() needs lexical context
        if f is self.models.super_marker:
            return self._super(e, env)
        args = self._elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                mapping = self.ev(k.value, env)
                if mapping is None or isinstance(mapping, (int, float, str, list, tuple)):
                    self.line = e.lineno
                    self.raise_("TypeError", "argument after ** must be a mapping")
                for kk, vv in mapping.items():
                    if kk in kwargs:
                        self.line = e.lineno
                        self.raise_("TypeError", f"got multiple values for keyword argument {kk!r}")
                    kwargs[kk] = vv
            else:
                v = self.ev(k.value, env)
                if k.arg in kwargs:
                    self.line = e.lineno
                    self.raise_("TypeError", f"got multiple values for keyword argument {k.arg!r}")
                kwargs[k.arg] = v
        self.line = e.lineno
        if self.stack:
            fi, q = self.stack[-1]
            tm.SITE[0] = (fi, e.lineno, q)
        r = self.call(f, args, kwargs)
        self.line = e.lineno
        if self.stack:
            fi, q = self.stack[-1]
            tm.SITE[0] = (fi, e.lineno, q)
        return r

    def _super(self, e, env):
        if e.args:
            c, o = (self.ev(a, env) for a in e.args)
            return Super(c, o)
        en = env
        while en is not None and en.func is None:
            en = en.parent
        # innermost function that belongs to a class
        while en is not None and (en.func is None or en.func.cls is None):
            en = en.parent
        if en is None:
            raise AnalysisError("super() outside method")
        fn = en.func
        first = fn.node.args.args[0].arg
        return Super(fn.cls, en.vars[first])

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev(e.slice, env)
        self.line = e.lineno
        return self.models.getitem(o, k)

    def e_Slice(self, e, env):
        return slice(
            None if e.lower is None else self.ev(e.lower, env),
            None if e.upper is None else self.ev(e.upper, env),
            None if e.step is None else self.ev(e.step, env),
        )

    def e_JoinedStr(self, e, env):
        out = []
        opaque = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
                if pylang.plain(x) and not isinstance(spec, OStr):
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    try:
                        out.append(format(x, spec))
                    except (ValueError, TypeError) as err:
                        self.raise_(type(err).__name__, str(err))
                else:
                    opaque = True
                    out.append("{…}")
        s = "".join(out)
        return OStr(s) if opaque else s

    def e_FormattedValue(self, e, env):
        return OStr("…")

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        while env.comp:
            env = env.parent
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise AnalysisError("starred")

    def _comp(self, gens, env, elt):
        """generator of the elements; the first iterable is evaluated at once"""
        cenv = Env(env.module, env)
        cenv.comp = True
        cenv.nonlocals = env.nonlocals
        cenv.globals_ = env.globals_
        first = self.lazy(self.ev(gens[0].iter, env))

        def rec(i):
            if i == len(gens):
                yield elt(cenv)
                return
            g = gens[i]
            for v in first if i == 0 else self.lazy(self.ev(g.iter, cenv)):
                self.assign(g.target, v, cenv)
                if all(self.truth(self.ev(c, cenv), c) for c in g.ifs):
                    yield from rec(i + 1)

        return rec(0)

    def e_ListComp(self, e, env):
        return list(self._comp(e.generators, env, lambda en: self.ev(e.elt, en)))

    def e_GeneratorExp(self, e, env):
        return pylang.IterObj(self._comp(e.generators, env, lambda en: self.ev(e.elt, en)))

    def e_SetComp(self, e, env):
        return set(self._comp(e.generators, env, lambda en: self.models.key(self.ev(e.elt, en))))

    def e_DictComp(self, e, env):
        return dict(self._comp(e.generators, env, lambda en: (self.models.key(self.ev(e.key, en)), self.ev(e.value, en))))

    def e_Yield(self, e, env):
        return self._yield(self.ev(e.value, env) if e.value is not None else None, env)

    def e_YieldFrom(self, e, env):
        src = self.ev(e.value, env)
        if not isinstance(src, Generator):
            for x in self.iterate(src):
                self._yield(x, env)
            return None
        sent = None
        while True:
            k, v = src.resume(sent)
            if k == "ret":
                return v
            sent = self._yield(v, env)

    def _yield(self, v, env):
        en = env
        while en is not None and en.func is None:
            en = en.parent
        gen = en.vars["@gen"]
        saved = list(self.stack), self.line
        r = gen.yield_(v)
        self.stack[:], self.line = saved
        return r

    # -------------------------------------------------------------- truth
    def truth(self, v, node=None):
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (int, str, tuple, list, dict, set)):
            return bool(v)
        if isinstance(v, Arr):
            if v.size != 1:
                self.raise_("ValueError", "truth value of an array with more than one element is ambiguous")
            t = tm.boolean(v.item_t())
            if v.tr:
                self.event("concretisation", "Python truth test on a traced value" + (f": {ast.unparse(node)}" if node is not None else ""))
            if t.op == "b":
                return t.args[0]
            if not tm.free_vars(t) and not tm.opaques(t):
                r = tm.Val({})(t)
                return bool(r)
            if self.models.np.box is not None:
                r = self.models.np.box.truth(t)
                if r is not None:
                    return r
            if self.branch_oracle is not None:
                r = self.branch_oracle(t)
                if r is not None:
                    return r
            raise AbstractBranch(self.site(), t, v.tr)
        if isinstance(v, Qty):
            return self.truth(v.m, node)
        if isinstance(v, Obj):
            for nm in ("__bool__", "__len__"):
                f, _ = v.cls.lookup(nm)
                if f is not None:
                    return self.truth(self.call(BoundMethod(f, v), [], {}))
            return True
        if isinstance(v, Opaque):
            raise AnalysisError(f"branch on unknown value {v} at {fmt_site(self.site())}")
        if isinstance(v, Generator):
            return True
        if isinstance(v, T):
            raise AnalysisError("raw term truth")
        if hasattr(v, "truth_"):
            return v.truth_()
        return True

    branch_oracle = None

    # ------------------------------------------------------------ iterate
    def lazy(self, v):
        """host iterator over `v`; one-shot iterators are advanced only as far as asked for"""
        if isinstance(v, Generator):
            def run():
                while True:
                    k, x = v.resume()
                    if k == "ret":
                        return
                    yield x

            return run()
        if hasattr(v, "gen"):
            return v.gen
        return iter(self.iterate(v))

    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (str, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=lambda x: str(x))
        if isinstance(v, Generator):
            return v.iterate()
        if isinstance(v, Arr):
            if v.ndim == 0:
                self.raise_("TypeError", "iteration over a 0-d array")
            return [Arr(v.d[i], v.dt, v.kind, v.tr, v.origin) if v.ndim > 1 else self.models.elem(v, i) for i in range(v.shape[0])]
        if isinstance(v, Qty):
            return [Qty(x, v.unit) for x in self.iterate(v.m)]
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(BoundMethod(f, v), [], {}))
            f, _ = v.cls.lookup("__getitem__")
            g, _ = v.cls.lookup("__len__")
            if f is not None and g is not None:
                n = self.call(BoundMethod(g, v), [], {})
                return [self.call(BoundMethod(f, v), [i], {}) for i in range(n)]
        if isinstance(v, PyClass) and pylang.is_enum(v):
            return list(v.members.values())
        if hasattr(v, "iter_"):
            return v.iter_()
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if isinstance(v, Opaque):
            raise AnalysisError(f"iteration over unknown value {v} at {fmt_site(self.site())}")
        if isinstance(v, np.ndarray):
            return list(v)
        self.raise_("TypeError", f"object is not iterable: {type(v).__name__}")

    # ---------------------------------------------------------------- call
    def call(self, f, args, kwargs):
        self.calls += 1
        if isinstance(f, PyFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_, *args], kwargs)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.func, [*f.args, *args], {**f.keywords, **kwargs})
        if isinstance(f, StaticMethod):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f"call of {f.why}")
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(BoundMethod(m, f), args, kwargs)
            self.raise_("TypeError", f"{f.cls.name} object is not callable")
        if callable(f):
            if isinstance(getattr(f, "__self__", None), (list, dict, str, tuple, set, frozenset)):
                try:
                    return f(*args, **kwargs)
                except (ValueError, KeyError, IndexError) as e:  # of a container of the program
                    self.raise_(type(e).__name__, str(e))
            return f(*args, **kwargs)
        self.raise_("TypeError", f"not callable: {f!r}")

    def call_func(self, f, args, kwargs):
        key = (f.module.name, f.qualname)
        s = self.summaries.get(key)
        if s is not None and not getattr(s, "busy", False):
            r = s(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        env = Env(f.module, f.env, f)
        self.bind_args(f, args, kwargs, env)
        if isinstance(f.node, ast.Lambda):
            self._push(f)
            try:
                return self.ev(f.node.body, env)
            finally:
                self._pop()
        if f.is_gen:
            def body(gen):
                env.vars["@gen"] = gen
                saved = list(self.stack), self.line
                self._push(f)
                try:
                    self.exec_block(f.node.body, env)
                except _Ret as r:
                    return r.v
                finally:
                    self.stack[:], self.line = saved
                return None

            return Generator(self, body)
        self._push(f)
        try:
            self.exec_block(f.node.body, env)
        except _Ret as r:
            if self.call_log is not None:
                self.call_log.append((key, args, kwargs, r.v))
            return r.v
        finally:
            self._pop()
        return None

    def _push(self, f):
        rel = getattr(f.module, "rel", f.module.name)
        if len(self.stack) > self.MAXDEPTH:
            raise AnalysisError("call depth")
        self.stack.append((rel, f.qualname))
        self._lines = getattr(self, "_lines", [])
        self._lines.append(self.line)
        k = (rel, f.qualname)
        self.analysed[k] = self.analysed.get(k, 0) + 1

    def _pop(self):
        self.stack.pop()
        self.line = self._lines.pop()

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nposonly = len(a.posonlyargs)
        vars_ = env.vars
        kwargs = dict(kwargs)
        for n, v in zip(pos, args):
            vars_[n] = v
        extra = args[len(pos):]
        if extra:
            if a.vararg is None:
                self.raise_("TypeError", f"{f.qualname}() takes {len(pos)} positional arguments but {len(args)} were given")
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(extra)
        for i, n in enumerate(pos):
            if n in kwargs and i >= nposonly:
                if i < len(args):
                    self.raise_("TypeError", f"{f.qualname}() got multiple values for argument '{n}'")
                vars_[n] = kwargs.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vars_:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vars_[n] = f.defaults[j]
                else:
                    self.raise_("TypeError", f"{f.qualname}() missing required argument: '{n}'")
        for k in a.kwonlyargs:
            n = k.arg
            if n in kwargs:
                vars_[n] = kwargs.pop(n)
            elif n in f.kwdefaults:
                vars_[n] = f.kwdefaults[n]
            else:
                self.raise_("TypeError", f"{f.qualname}() missing required keyword-only argument: '{n}'")
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = kwargs
        elif kwargs:
            self.raise_("TypeError", f"{f.qualname}() got an unexpected keyword argument '{next(iter(kwargs))}'")

    def instantiate(self, cls, args, kwargs):
        return self.models.instantiate(cls, args, kwargs)

    # --------------------------------------------------------- attributes
    def getattr(self, o, name, default=AnalysisError):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if e.name == "AttributeError" and default is not AnalysisError:
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            v, c = o.cls.lookup(name)
            if isinstance(v, CachedProperty):
                if name not in o.attrs:
                    o.attrs[name] = self.call(v.fget, [o], {})
                return o.attrs[name]
            if isinstance(v, Property):
                return self.call(v.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if c is not None and not (name in (o.cls.fields or {}) and name not in o.attrs and not o.frozen and not o.cls.fields[name].has_default):
                return self.bind_desc(v, o, o.cls)
            if name == "__dict__":
                return o.attrs
            g, _ = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(g, [o, name], {})
            self.raise_("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, PyClass):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, ClassMethod):
                    return BoundMethod(v.f, o)
                if isinstance(v, StaticMethod):
                    return v.f
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__module__":
                return o.module.name if o.module else "builtins"
            if name == "__init__":
                return self.models.object_init
            if pylang.nt_of(o) is not None:
                if name == "_fields":
                    return pylang.nt_of(o).nt_fields
                if name == "_make":
                    return lambda xs: pylang.nt_make(self.models, o, self.iterate(xs), {})
            if name == "__members__" and pylang.is_enum(o):
                return dict(o.members)
            self.raise_("AttributeError", f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            if self.module_path(o.name + "." + name):
                return self.import_module(o.name + "." + name)
            self.raise_("AttributeError", f"module {o.name} has no attribute {name}")
        if isinstance(o, Super):
            ob = o.obj
            mro = (ob.cls if isinstance(ob, Obj) else ob).mro
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind_desc(c.ns[name], ob, ob.cls if isinstance(ob, Obj) else ob)
            if name == "__init__":
                return BoundMethod(self.models.auto_init_from(mro[i + 1:]), ob)
            self.raise_("AttributeError", name)
        if isinstance(o, (PyFunc,)):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qualname
            if name == "__doc__":
                import ast

                try:
                    return ast.get_docstring(o.node)
                except TypeError:
                    return None
            if name == "__module__":
                return o.module.name
            if name == "__call__":
                return o
            if name == "__get__":
                return lambda obj, cls=None: BoundMethod(o, obj) if obj is not None else o
            self.raise_("AttributeError", f"function has no attribute {name}")
        if isinstance(o, BoundMethod):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, Property):
            if name == "setter":
                return lambda f: Property(o.fget, f)
            if name == "fget":
                return o.fget
            if name == "getter":
                return lambda f: Property(f, o.fset)
        if isinstance(o, Opaque):
            return Opaque(f"{o.why}.{name}")
        if isinstance(o, pylang.NT):
            v = pylang.nt_attr(self.models, o, name)
            if v is not None or name in o.fields_:
                return v
        return self.models.getattr(o, name)

    def bind_desc(self, v, o, cls):
        if isinstance(v, PyFunc):
            return BoundMethod(v, o)
        if isinstance(v, Wrapped) and v.binds:
            return BoundMethod(v, o)
        if isinstance(v, StaticMethod):
            return v.f
        if isinstance(v, ClassMethod):
            return BoundMethod(v.f, cls)
        if isinstance(v, Property):
            return self.call(v.fget, [o], {})
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            d, _ = o.cls.lookup(name)
            if o.cls.fields is not None and o.frozen:
                self.raise_("FrozenInstanceError", f"cannot assign to field '{name}'")
            dc = o.cls.fields is not None and not pylang.eqx_class(o.cls)
            if dc:
                if any(getattr(c, "dc_frozen", False) for c in o.cls.mro):
                    self.raise_("FrozenInstanceError", f"cannot assign to field '{name}'")
            if isinstance(d, Property):
                if d.fset is None:
                    self.raise_("AttributeError", f"can't set attribute '{name}'")
                if o.cls.fields is None or dc:
                    self.call(d.fset, [o, v], {})
                    return
            if o.cls.fields is not None and not dc and name not in o.cls.fields:
                self.raise_("FrozenInstanceError", f"cannot assign to field '{name}'")
            if o.origin is not None:
                self.mutations.append((o.origin, self.site()))
            self.wrote(o)
            o.attrs[name] = v
        elif isinstance(o, PyClass):
            o.ns[name] = v
        elif isinstance(o, (PyFunc, Wrapped)):
            o.attrs[name] = v
        elif isinstance(o, Module):
            o.ns[name] = v
        elif isinstance(o, BoundMethod):
            o.func.attrs[name] = v
        elif isinstance(o, HostObj):
            setattr(o, name, v)
        elif isinstance(o, Opaque):
            self.opaque_writes.append((o.why, name, self.site()))
        else:
            self.raise_("AttributeError", f"cannot set attribute {name} on {type(o).__name__}")


class AbstractBranch(AnalysisError):
    def __init__(self, site, cond, traced):
        self.site = site
        self.cond = cond
        self.traced = traced
        super().__init__(f"Python branch on data-dependent value {tm.show(cond, 4)} at {fmt_site(site)}")


_EV = {}
for _n in dir(Interp):
    if _n.startswith("e_"):
        _c = getattr(ast, _n[2:], None)
        if _c is not None:
            _EV[_c] = getattr(Interp, _n)
