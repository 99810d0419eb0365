"""Further library names (jax.lax, operator, itertools, math, ...), defined in
terms of the transfer functions of sa/npmodel.py and the operators of sa/models.py."""
from __future__ import annotations

import itertools
import math

import numpy as np

from . import terms as tm
from .values import AnalysisError, Arr, Obj, Qty


def install(M):
    it = M.it
    E = M.ext
    jn = E["jax.numpy"].ns_
    n = M.np
    call = lambda f, *a, **k: it.call(f, list(a), k)  # noqa: E731
    lst = lambda x: list(it.iterate(x))  # noqa: E731

    def add(mod, /, **ns):
        for k, v in ns.items():
            E[mod].ns_.setdefault(k, v)

    # ---------------------------------------------------------------- jax.lax
    def starts(x, idx):
        """dynamic_slice clamps its start indices"""
        return lst(idx) if isinstance(idx, (list, tuple)) or (isinstance(idx, Arr) and idx.ndim) else [idx]

    def window(x, st, size, axis):
        hi = x.shape[axis] - size
        if hi < 0:
            it.raise_("TypeError", "slice size exceeds the operand")
        s = jn["clip"](st, 0, hi)
        return jn["take"](x, jn["add"](s, n._ints(np.arange(size))), axis=axis)

    def dynamic_slice(x, start_indices, slice_sizes):
        x = n.A(x)
        for ax, (s, w) in enumerate(zip(starts(x, start_indices), n.shape_(slice_sizes))):
            x = window(x, s, w, ax)
        return M.jx(x)

    def dynamic_slice_in_dim(x, start_index, slice_size, axis=0):
        x = n.A(x)
        return M.jx(window(x, start_index, n.int_(slice_size), n.axis_(axis, x.ndim)))

    def dynamic_index_in_dim(x, index, axis=0, keepdims=True):
        r = dynamic_slice_in_dim(x, index, 1, axis)
        return r if keepdims else jn["squeeze"](r, axis=axis)

    def dynamic_update_slice_in_dim(x, update, start_index, axis):
        x, u = n.A(x), n.A(update)
        axis = n.axis_(axis, x.ndim)
        while u.ndim < x.ndim:
            u = n.f_expand_dims(u, axis)
        m = x.shape[axis] - u.shape[axis]
        s = n.f_clip(start_index, 0, m)
        v = n.const_num(s.item_t())
        if v is None:
            rows = []
            for i in range(x.shape[axis]):
                r = n.f_take(x, i, axis)
                for j in range(u.shape[axis]):
                    r = n.f_where(n.f_equal(n.f_add(s, j), i), n.f_take(u, j, axis), r)
                rows.append(r)
            return M.jx(n.f_stack(rows, axis))
        d = x.d.copy()
        sel = [slice(None)] * x.ndim
        sel[axis] = slice(int(v), int(v) + u.shape[axis])
        d[tuple(sel)] = np.broadcast_to(u.d, d[tuple(sel)].shape)
        return M.jx(Arr(d, x.dt, "jax", frozenset(x.tr or ()) | frozenset(u.tr or ())))

    def dynamic_update_index_in_dim(x, update, index, axis):
        return dynamic_update_slice_in_dim(x, update, index, axis)

    def dynamic_update_slice(x, update, start_indices):
        x, u = n.A(x), n.A(update)
        st = starts(x, start_indices)
        vs = [n.const_num(n.f_clip(s, 0, a - b).item_t()) for s, a, b in zip(st, x.shape, u.shape)]
        if any(v is None for v in vs):
            raise AnalysisError("dynamic_update_slice at a data-dependent place")
        d = x.d.copy()
        d[tuple(slice(int(v), int(v) + b) for v, b in zip(vs, u.shape))] = u.d
        return M.jx(Arr(d, x.dt, "jax", frozenset(x.tr or ()) | frozenset(u.tr or ())))

    def index_in_dim(x, index, axis=0, keepdims=True):
        r = jn["take"](x, n.int_(index), axis=axis)
        return jn["expand_dims"](r, axis) if keepdims else r

    def slice_in_dim(x, start, limit, stride=1, axis=0):
        x = n.A(x)
        sel = [slice(None)] * x.ndim
        sel[axis] = slice(start, limit, stride)
        return M.jx(n.re(x, x.d[tuple(sel)]))

    def lslice(x, start, limit, strides=None):
        x = n.A(x)
        st = strides or [1] * x.ndim
        return M.jx(n.re(x, x.d[tuple(slice(n.int_(a), n.int_(b), n.int_(c)) for a, b, c in zip(start, limit, st))]))

    def select_n(which, *cases):
        w = n.A(which)
        if w.dt == "b":
            if len(cases) == 1:
                return n.A(cases[0])
            return jn["where"](which, cases[1], cases[0])
        return jn["choose"](which, list(cases))

    def switch(index, branches, *ops, **k):
        br = lst(branches)
        if len(br) == 1:
            return call(br[0], *ops)
        i = n.A(index)
        v = n.const_num(i.item_t())
        if v is not None and not i.tr:
            return call(br[min(max(int(v), 0), len(br) - 1)], *ops)
        outs = [M.flatten(call(b, *ops)) for b in br]
        if len({d.key for _, d in outs}) != 1:
            it.raise_("TypeError", "switch branches must have the same structure")
        leaves = outs[-1][0]
        for j in range(len(br) - 2, -1, -1):
            c = n.f_less_equal(i, j)
            leaves = [n.f_where(c, x, y) for x, y in zip(outs[j][0], leaves)]
        return outs[0][1].build(iter([M.jx(x) for x in leaves]))

    def associative_scan(fn, elems, reverse=False, axis=0):
        leaves, td = M.flatten(elems)
        leaves = [n.A(x) for x in leaves]
        m = leaves[0].shape[axis]
        idx = list(range(m))[:: -1 if it.truth(reverse) else 1]
        at = lambda i: td.build(iter([M.jx(n.re(x, np.take(x.d, [i], axis))) for x in leaves]))  # noqa: E731
        out, acc = {}, None
        for i in idx:
            acc = at(i) if acc is None else call(fn, acc, at(i))
            out[i] = M.flatten(acc)[0]
        return td.build(iter([M.jx(n.f_concatenate([out[i][k] for i in range(m)], axis)) for k in range(len(leaves))]))

    def iota(dtype, size):
        return M.jx(n.f_arange(n.int_(size), dtype=dtype))

    def red(name):
        return lambda x, axes=None, **k: jn[name](x, axis=None if axes is None else tuple(n.shape_(axes)))

    def broadcast(x, sizes):
        x = n.A(x)
        return jn["broadcast_to"](x, n.shape_(sizes) + x.shape)

    def broadcast_in_dim(x, shape, broadcast_dimensions):
        x = n.A(x)
        sh = n.shape_(shape)
        to = [1] * len(sh)
        for s, d in zip(x.shape, n.shape_(broadcast_dimensions)):
            to[d] = s
        return jn["broadcast_to"](n.re(x, x.d.reshape(to)), sh)

    def dot_general(a, b, dimension_numbers, **k):
        a, b = n.A(a), n.A(b)
        (ca, cb), (ba, bb) = [tuple(tuple(n.shape_(y)) for y in x) for x in dimension_numbers]
        if ba or bb:
            raise AnalysisError("batched dot_general")
        return jn["tensordot"](a, b, (ca, cb))

    def lax_rev(x, dimensions):
        return jn["flip"](x, tuple(n.shape_(dimensions)))

    def squeeze(x, dimensions):
        return jn["squeeze"](x, axis=tuple(n.shape_(dimensions)))

    add(
        "jax.lax",
        dynamic_slice=dynamic_slice, dynamic_slice_in_dim=dynamic_slice_in_dim, dynamic_index_in_dim=dynamic_index_in_dim,
        dynamic_update_slice=dynamic_update_slice, dynamic_update_slice_in_dim=dynamic_update_slice_in_dim,
        dynamic_update_index_in_dim=dynamic_update_index_in_dim, index_in_dim=index_in_dim, slice_in_dim=slice_in_dim, slice=lslice,
        select_n=select_n, associative_scan=associative_scan, iota=iota, broadcast=broadcast, broadcast_in_dim=broadcast_in_dim,
        dot_general=dot_general, rev=lax_rev, squeeze=squeeze, clamp=lambda lo, x, hi: jn["clip"](x, lo, hi),
        full=jn["full"], full_like=jn["full_like"], dot=jn["dot"], batch_matmul=jn["matmul"], concatenate=lambda xs, dimension=0: jn["concatenate"](xs, dimension),
        reshape=lambda x, new_sizes, dimensions=None: jn["reshape"](x, new_sizes), expand_dims=lambda x, dimensions: jn["expand_dims"](x, tuple(n.shape_(dimensions))),
        transpose=lambda x, permutation: jn["transpose"](x, tuple(n.shape_(permutation))), cumsum=lambda x, axis=0, **k: _cum(jn, "cumsum", x, axis, k),
        cumprod=lambda x, axis=0, **k: _cum(jn, "cumprod", x, axis, k), reduce_sum=red("sum"), reduce_prod=red("prod"), reduce_max=red("max"),
        reduce_min=red("min"), reduce_and=red("all"), reduce_or=red("any"), convert_element_type=lambda x, t: jn["array"](x, t), ne=jn["not_equal"],
        bitwise_and=jn["bitwise_and"], bitwise_or=jn["bitwise_or"], bitwise_xor=jn["bitwise_xor"], bitwise_not=jn["bitwise_not"],
        is_finite=jn["isfinite"], reciprocal=jn["reciprocal"], real=jn["real"], imag=jn["imag"], conj=jn["conj"], cbrt=jn["cbrt"],
        asin=jn["arcsin"], acos=jn["arccos"], atan=jn["arctan"], sinh=jn["sinh"], cosh=jn["cosh"], asinh=jn["arcsinh"], acosh=jn["arccosh"],
        atanh=jn["arctanh"], zeros_like_array=jn["zeros_like"], split=lambda x, sizes, axis=0: jn["split"](x, list(np.cumsum(n.shape_(sizes))[:-1].tolist()), axis),
        broadcast_shapes=jn["broadcast_shapes"], sort=lambda x, dimension=-1, **k: jn["sort"](x, axis=dimension), argmax=lambda x, axis, index_dtype=None: jn["argmax"](x, axis=axis),
        argmin=lambda x, axis, index_dtype=None: jn["argmin"](x, axis=axis), optimization_barrier=lambda x: x, exp2=jn["exp2"],
        complex=lambda a, b: jn["add"](a, jn["multiply"](b, tm_i())),
    )
    E["jax.lax"].ns_["switch"] = switch

    # ------------------------------------------------------------ jax.tree_util
    def tree_reduce(f, tree, *init, **k):
        kw = {a: b for a, b in k.items() if a == "initializer"}
        start = list(init[:1]) or list(kw.values())
        is_leaf = k.get("is_leaf", init[1] if len(init) > 1 else None)
        return M.reduce_(f, M.t_leaves(tree) if is_leaf is None else M.t_leaves(tree, is_leaf), *start)

    add("jax.tree_util", tree_reduce=tree_reduce)
    add("jax.tree", reduce=tree_reduce, all=lambda x, **k: M.b_all(M.t_leaves(x)))
    add(
        "jax.nn",
        relu=lambda x: jn["maximum"](x, 0), softplus=lambda x: jn["log1p"](jn["exp"](x)), identity=lambda x: x,
        silu=lambda x: jn["multiply"](x, jn["logistic"](x)),
    )
    add("jax", block_until_ready=lambda x: x, named_scope=lambda *a, **k: it_null(M), disable_jit=lambda *a, **k: it_null(M), ensure_compile_time_eval=lambda: it_null(M))

    # ------------------------------------------------------- linear algebra
    def det(a):
        a = n.A(a)
        if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 4:
            raise AnalysisError("determinant")

        def go(rows, cols):
            if not rows:
                return tm.ONE
            s = tm.ZERO
            for j, c in enumerate(cols):
                t = tm.mul(a.d[rows[0], c], go(rows[1:], cols[:j] + cols[j + 1 :]))
                s = tm.add(s, t if j % 2 == 0 else tm.neg(t))
            return s

        return Arr(go(list(range(a.shape[0])), list(range(a.shape[0]))), "f", a.kind, a.tr)

    def multi_dot(xs):
        return M.reduce_(jn["dot"], xs)

    def matrix_power(a, k):
        k = n.int_(k)
        if k < 0:
            a, k = n.inv(a), -k
        r = n.f_eye(n.A(a).shape[0])
        for _ in range(k):
            r = n.f_matmul(r, a)
        return r

    for lib, wrap in (("jax.numpy.linalg", M.jnp_wrap), ("numpy.linalg", M.np_wrap)):
        add(
            lib,
            det=wrap("linalg.det", det), multi_dot=wrap("linalg.multi_dot", multi_dot), matrix_power=wrap("linalg.matrix_power", matrix_power),
            matmul=wrap("matmul", n.f_matmul), outer=wrap("outer", n.f_outer), cross=wrap("cross", n.f_cross), vecdot=wrap("vecdot", n.f_vecdot),
            trace=wrap("trace", lambda x, offset=0: n.f_trace(x, offset, -2, -1)), diagonal=wrap("diagonal", lambda x, offset=0: n.f_diagonal(x, offset, -2, -1)),
            matrix_transpose=wrap("matrix_transpose", n.f_matrix_transpose), vector_norm=wrap("linalg.norm", lambda x, axis=None, keepdims=False, ord=2: n.norm(x, axis=axis, keepdims=keepdims) if ord == 2 else _bad("vector_norm")),
            tensordot=wrap("tensordot", n.f_tensordot),
        )

    # ---------------------------------------------------------------- operator
    bi = dict(truediv="Div", floordiv="FloorDiv", mod="Mod", pow="Pow", matmul="MatMult", and_="BitAnd", or_="BitOr", xor="BitXor", lshift="LShift", rshift="RShift")
    add("operator", **{k: (lambda a, b, o=o: M.binop(o, a, b)) for k, o in bi.items()})
    add("operator", **{"i" + k.rstrip("_"): (lambda a, b, o=o: M.binop(o, a, b)) for k, o in bi.items()})
    cmp_ = dict(eq="Eq", ne="NotEq", lt="Lt", le="LtE", gt="Gt", ge="GtE", is_="Is", is_not="IsNot")
    add("operator", **{k: (lambda a, b, o=o: M.compare(o, a, b)) for k, o in cmp_.items()})
    add(
        "operator",
        neg=lambda a: M.unop("USub", a), pos=lambda a: M.unop("UAdd", a), abs=lambda a: M.unop("abs", a), inv=lambda a: M.unop("Invert", a),
        invert=lambda a: M.unop("Invert", a), not_=lambda a: not it.truth(a), truth=lambda a: it.truth(a), getitem=lambda a, k: M.getitem(a, k),
        contains=lambda a, x: M.contains(a, x), call=lambda f, *a, **k: it.call(f, list(a), k), index=lambda x: n.int_(x),
        methodcaller=lambda name, *a, **k: (lambda o: it.call(it.getattr(o, name), list(a), dict(k))), iadd=lambda a, b: M.binop("Add", a, b), isub=lambda a, b: M.binop("Sub", a, b), imul=lambda a, b: M.binop("Mult", a, b),
        setitem=lambda o, k, v: M.setitem(o, k, v),
    )

    # ---------------------------------------------------------------- itertools
    def takewhile(p, xs):
        out = []
        for x in lst(xs):
            if not it.truth(call(p, x)):
                break
            out.append(x)
        return out

    def dropwhile(p, xs):
        xs = lst(xs)
        while xs and it.truth(call(p, xs[0])):
            xs = xs[1:]
        return xs

    def accumulate(xs, func=None, *, initial=None):
        out = [] if initial is None else [initial]
        for x in lst(xs):
            out.append(x if not out else (M.binop("Add", out[-1], x) if func is None else call(func, out[-1], x)))
        return out

    def groupby(xs, key=None):
        out = []
        for x in lst(xs):
            k = x if key is None else call(key, x)
            if out and M.key(out[-1][0]) == M.key(k):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return out

    def batched(xs, m):
        xs, m = lst(xs), n.int_(m)
        return [tuple(xs[i : i + m]) for i in range(0, len(xs), m)]

    add(
        "itertools",
        permutations=lambda x, r=None: list(itertools.permutations(lst(x), r)), combinations_with_replacement=lambda x, r: list(itertools.combinations_with_replacement(lst(x), r)),
        starmap=lambda f, xs: [it.call(f, lst(x), {}) for x in lst(xs)], takewhile=takewhile, dropwhile=dropwhile,
        filterfalse=lambda p, xs: [x for x in lst(xs) if not it.truth(x if p is None else call(p, x))],
        compress=lambda xs, ss: [x for x, s in zip(lst(xs), lst(ss)) if it.truth(s)], groupby=groupby, batched=batched,
        tee=lambda xs, m=2: tuple(list(lst(xs)) for _ in range(m)),
    )
    E["itertools"].ns_["accumulate"] = accumulate

    # ---------------------------------------------------------------- math
    def num(x):
        return n.A(x).item_t()

    def host(name, f):
        def g(*a):
            for x in a:
                if isinstance(x, Arr) and x.tr:
                    it.event("concretisation", f"math.{name} applied to a traced value")
                if isinstance(x, Qty):
                    it.raise_("TypeError", f"math.{name} of a quantity")
            r = f(*a)
            return Arr(r.item_t(), r.dt, "py") if isinstance(r, Arr) else r

        return g

    F = n.funcs
    un = dict(sinh="sinh", cosh="cosh", tanh="tanh", asinh="arcsinh", acosh="arccosh", atanh="arctanh", expm1="expm1", log1p="log1p", log10="log10", log2="log2",
              exp2="exp2", degrees="rad2deg", radians="deg2rad", isfinite="isfinite", isinf="isinf", isnan="isnan", fmod="fmod", ldexp="ldexp")
    add("math", **{k: host(k, F[v]) for k, v in un.items()})
    add(
        "math",
        trunc=host("trunc", lambda x: n.int_(F["trunc"](x)) if n.const_num(num(F["trunc"](x))) is not None else F["trunc"](x)),
        fsum=host("fsum", lambda xs: M.b_sum(xs)), sumprod=host("sumprod", lambda a, b: M.b_sum([M.binop("Mult", x, y) for x, y in zip(lst(a), lst(b))])),
        perm=lambda a, b=None: math.perm(n.int_(a), None if b is None else n.int_(b)), lcm=lambda *a: math.lcm(*[n.int_(x) for x in a]),
        dist=host("dist", lambda p, q: n.f_sqrt(M.b_sum([M.binop("Pow", M.binop("Sub", x, y), 2) for x, y in zip(lst(p), lst(q))]))),
    )
    E["math"].ns_["copysign"] = host("copysign", n.f_copysign)
    E["math"].ns_["prod"] = lambda xs, start=1: M.reduce_(lambda a, b: M.binop("Mult", a, b), xs, start)

    def isclose(a, b, rel_tol=None, abs_tol=0):
        r = n.A(rel_tol if rel_tol is not None else 0)
        rt = r.item_t() if rel_tol is not None else tm.div(tm.ONE, tm.const(10**9))
        x, y = num(a), num(b)
        t = tm.le(tm.abs_(tm.sub(x, y)), tm.max_(tm.mul(rt, tm.max_(tm.abs_(x), tm.abs_(y))), num(abs_tol)))
        return Arr(t, "b", "py")

    E["math"].ns_["isclose"] = host("isclose", isclose)

    # -------------------------------------------------------------- dataclasses
    def asdict(o):
        return {k: o.attrs[k] for k in o.cls.fields}

    add("dataclasses", asdict=asdict, astuple=lambda o: tuple(o.attrs[k] for k in o.cls.fields), is_dataclass=lambda o: isinstance(o, Obj) and bool(o.cls.fields))


def _cum(jn, name, x, axis, k):
    if k.get("reverse"):
        return jn["flip"](jn[name](jn["flip"](x, axis), axis=axis), axis)
    return jn[name](x, axis=axis)


def _bad(what):
    raise AnalysisError(what)


def it_null(M):
    from .values import Opaque

    return Opaque("context")


def tm_i():
    return Arr(tm.cx(tm.ZERO, tm.ONE), "c", "py")
