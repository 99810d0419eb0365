"""Further transfer functions of the array library: rearrangements (decided on
the index level, exactly) and short definitions in terms of others."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from . import terms as tm
from .values import AnalysisError, Arr, obj_array

EMPTY = frozenset()
RANK = {"b": 0, "i": 1, "f": 2, "c": 3}


class More:
    # ------------------------------------------------------ rearrangements
    def _pieces(self, x, what, axis, exact):
        x = self.A(x)
        axis = self.axis_(axis, x.ndim)
        if isinstance(what, (list, tuple)) or (isinstance(what, Arr) and what.ndim):
            cuts = list(self.shape_(what))
            parts = np.split(x.d, cuts, axis=axis)
        else:
            k = self.int_(what)
            if k <= 0 or (exact and x.shape[axis] % k):
                self.err("ValueError", "array split does not result in an equal division")
            parts = np.array_split(x.d, k, axis=axis)
        return [self.re(x, p) for p in parts]

    def f_split(self, x, indices_or_sections, axis=0):
        return self._pieces(x, indices_or_sections, axis, True)

    def f_array_split(self, x, indices_or_sections, axis=0):
        return self._pieces(x, indices_or_sections, axis, False)

    def f_hsplit(self, x, indices_or_sections):
        return self._pieces(x, indices_or_sections, 0 if self.A(x).ndim == 1 else 1, True)

    def f_vsplit(self, x, indices_or_sections):
        return self._pieces(x, indices_or_sections, 0, True)

    def f_unstack(self, x, axis=0):
        x = self.A(x)
        d = np.moveaxis(x.d, self.axis_(axis, x.ndim), 0)
        return tuple(Arr(d[i], x.dt, x.kind, x.tr) for i in range(d.shape[0]))

    def f_fliplr(self, x):
        return self.f_flip(x, 1)

    def f_flipud(self, x):
        return self.f_flip(x, 0)

    def f_rot90(self, x, k=1, axes=(0, 1)):
        x = self.A(x)
        return self.re(x, np.rot90(x.d, self.int_(k), axes))

    def f_matrix_transpose(self, x):
        return self.f_swapaxes(x, -1, -2)

    def f_rollaxis(self, x, axis, start=0):
        x = self.A(x)
        return self.re(x, np.rollaxis(x.d, axis, start))

    def f_atleast_3d(self, *xs):
        r = [self.re(self.A(x), np.atleast_3d(self.A(x).d)) for x in xs]
        return r[0] if len(r) == 1 else r

    def f_dstack(self, xs, **k):
        return self.f_concatenate([self.f_atleast_3d(x) for x in self._seq(xs)], 2)

    def f_block(self, xs):
        def go(b, depth):
            if isinstance(b, (list, tuple)):
                return self.f_concatenate([go(y, depth - 1) for y in b], -depth)
            a = self.A(b)
            return a

        def dep(b):
            return 1 + max(dep(y) for y in b) if isinstance(b, (list, tuple)) and b else 0

        n = dep(xs)
        if n == 0:
            return self.A(xs)

        def lift(b):
            if isinstance(b, (list, tuple)):
                return [lift(y) for y in b]
            a = self.A(b)
            while a.ndim < n:
                a = Arr(a.d[None], a.dt, a.kind, a.tr)
            return a

        return go(lift(xs), n)

    def f_diagonal(self, x, offset=0, axis1=0, axis2=1):
        x = self.A(x)
        return self.re(x, np.diagonal(x.d, self.int_(offset), axis1, axis2).copy())

    def f_trace(self, x, offset=0, axis1=0, axis2=1, **k):
        return self.f_sum(self.f_diagonal(x, offset, axis1, axis2), axis=-1)

    def _tri(self, x, keep):
        x = self.A(x)
        if x.ndim < 2:
            self.err("ValueError", "argument to tril/triu must be at least 2-d")
        d = x.d.copy()
        z = tm.FALSE if x.dt == "b" else tm.ZERO
        for i in np.ndindex(d.shape):
            if not keep(i[-2], i[-1]):
                d[i] = z
        return self.re(x, d)

    def f_tril(self, x, k=0):
        k = self.int_(k)
        return self._tri(x, lambda i, j: j <= i + k)

    def f_triu(self, x, k=0):
        k = self.int_(k)
        return self._tri(x, lambda i, j: j >= i + k)

    def f_tri(self, n, m=None, k=0, dtype=None):
        n = self.int_(n)
        return self.f_tril(self.f_ones((n, n if m is None else self.int_(m)), dtype), k)

    def _ints(self, a):
        d = obj_array(a.shape)
        for i in np.ndindex(a.shape):
            d[i] = tm.const(int(a[i]))
        return Arr(d, "i", "np")

    def f_tril_indices(self, n, k=0, m=None):
        return tuple(self._ints(a) for a in np.tril_indices(self.int_(n), self.int_(k), None if m is None else self.int_(m)))

    def f_triu_indices(self, n, k=0, m=None):
        return tuple(self._ints(a) for a in np.triu_indices(self.int_(n), self.int_(k), None if m is None else self.int_(m)))

    def f_diag_indices(self, n, ndim=2):
        return tuple(self._ints(a) for a in np.diag_indices(self.int_(n), self.int_(ndim)))

    def f_indices(self, dimensions, dtype=None, sparse=False):
        if sparse:
            raise AnalysisError("sparse indices")
        return self._ints(np.indices(self.shape_(dimensions)))

    def f_unravel_index(self, i, shape):
        a = self.A(i)
        v = np.array([self.int_(self.it.models.elem(a, j)) for j in range(a.shape[0])]) if a.ndim else np.array(self.int_(i))
        return tuple(self._ints(np.asarray(y)) for y in np.unravel_index(v, self.shape_(shape)))

    def f_ix_(self, *xs):
        xs = [self.A(x) for x in xs]
        if any(x.dt == "b" for x in xs):
            raise AnalysisError("boolean ix_")
        return tuple(
            self.re(x, x.d.reshape((1,) * i + (-1,) + (1,) * (len(xs) - 1 - i))) for i, x in enumerate(xs)
        )

    def f_broadcast_shapes(self, *shapes):
        try:
            return tuple(int(i) for i in np.broadcast_shapes(*[self.shape_(s) for s in shapes]))
        except ValueError:
            self.err("ValueError", "incompatible shapes")

    def f_take_along_axis(self, x, idx, axis=-1, **k):
        x, idx = self.A(x), self.A(idx)
        if axis is None:
            return self.it.models.getitem(self.f_ravel(x), idx)
        axis = self.axis_(axis, x.ndim)
        xd = np.moveaxis(x.d, axis, 0)
        kd = np.moveaxis(idx.d, axis, 0)
        try:
            sh = np.broadcast_shapes(xd.shape[1:], kd.shape[1:])
        except ValueError:
            self.err("ValueError", "take_along_axis shapes")
        xd = np.broadcast_to(xd, xd.shape[:1] + sh)
        kd = np.broadcast_to(kd, kd.shape[:1] + sh)
        out = obj_array(kd.shape)
        for i in np.ndindex(kd.shape):
            col = Arr(xd[(slice(None),) + i[1:]].copy(), x.dt, x.kind, x.tr)
            out[i] = self.it.models.getitem(col, Arr(kd[i], "i", idx.kind, idx.tr)).item_t()
        return Arr(np.moveaxis(out, 0, axis), x.dt, self.out_kind(x, idx), (x.tr or EMPTY) | (idx.tr or EMPTY))

    def f_delete(self, x, obj, axis=None, **k):
        x = self.A(x)
        if axis is None:
            x, axis = self.f_ravel(x), 0
        axis = self.axis_(axis, x.ndim)
        if isinstance(obj, slice):
            o = obj
        else:
            o = list(self.shape_(obj))
        try:
            return self.re(x, np.delete(x.d, o, axis))
        except IndexError as e:
            self.err("IndexError", str(e))

    def f_insert(self, x, obj, values, axis=None, **k):
        x = self.A(x)
        v = self.A(values)
        if axis is None:
            x, axis = self.f_ravel(x), 0
        axis = self.axis_(axis, x.ndim)
        i = self.int_(obj)
        d = np.insert(x.d, i, v.d if v.ndim else v.item_t(), axis)
        r = Arr(obj_array(d.shape), x.dt, self.out_kind(x, v), (x.tr or EMPTY) | (v.tr or EMPTY))
        r.d[...] = d
        return r

    def f_pad(self, x, pad_width, mode="constant", constant_values=0, **k):
        x = self.A(x)
        if mode not in ("constant", "edge", "reflect", "symmetric", "wrap") or k:
            raise AnalysisError(f"pad mode {mode}")
        if isinstance(pad_width, (int,)) or (isinstance(pad_width, Arr) and not pad_width.ndim):
            w = [(self.int_(pad_width),) * 2] * x.ndim
        else:
            w = [tuple(self.shape_(p)) if isinstance(p, (list, tuple, Arr)) and not (isinstance(p, Arr) and not p.ndim) else (self.int_(p),) * 2 for p in self.it.iterate(pad_width)]
            if len(w) == 2 and all(not isinstance(p, (list, tuple)) for p in self.it.iterate(pad_width)):
                w = [(w[0][0], w[1][0])]
            if len(w) == 1:
                w = w * x.ndim
        if mode == "constant":
            c = self.A(constant_values)
            if c.ndim:
                raise AnalysisError("pad with several constants")
            d = obj_array(tuple(a + n + b for n, (a, b) in zip(x.shape, w)), c.item_t())
            d[tuple(slice(a, a + n) for n, (a, b) in zip(x.shape, w))] = x.d
            return Arr(d, x.dt, x.kind, (x.tr or EMPTY) | (c.tr or EMPTY))
        idx = [np.pad(np.arange(n), p, mode=mode) for n, p in zip(x.shape, w)]
        return self.re(x, x.d[np.ix_(*idx)])

    def f_resize(self, x, shape):
        x = self.A(x)
        sh = self.shape_(shape)
        n = int(np.prod(sh))
        return self.re(x, x.d.reshape(-1)[np.arange(n) % x.size].reshape(sh))

    def f_apply_along_axis(self, fn, axis, x, *a, **k):
        x = self.A(x)
        axis = self.axis_(axis, x.ndim)
        d = np.moveaxis(x.d, axis, -1)
        rows = {}
        for i in np.ndindex(d.shape[:-1]):
            rows[i] = self.A(self.it.call(fn, [self.re(x, d[i])] + list(a), dict(k)))
        if not rows:
            raise AnalysisError("apply_along_axis over nothing")
        r0 = next(iter(rows.values()))
        out = obj_array(d.shape[:-1] + r0.shape)
        tr = set()
        for i, r in rows.items():
            out[i] = r.d if r.ndim else r.item_t()
            tr |= r.tr or EMPTY
        if r0.ndim:
            out = np.moveaxis(out, tuple(range(len(d.shape) - 1, out.ndim)), tuple(range(axis, axis + r0.ndim)))
        return Arr(out, r0.dt, self.out_kind(*rows.values()), frozenset(tr))

    # ------------------------------------------------------- definitions
    def f_divmod(self, a, b):
        return (self.f_floor_divide(a, b), self.f_mod(a, b))

    def f_ptp(self, x, axis=None, **k):
        return self.f_subtract(self.f_max(x, axis=axis), self.f_min(x, axis=axis))

    def f_trapezoid(self, y, x=None, dx=1, axis=-1):
        y = self.A(y)
        axis = self.axis_(axis, y.ndim)
        d = np.moveaxis(y.d, axis, -1)
        ym = Arr(d, y.dt, y.kind, y.tr)
        mid = self.f_multiply(tm_half(self), self.f_add(self.re(ym, d[..., 1:]), self.re(ym, d[..., :-1])))
        if x is None:
            w = self.A(dx)
        else:
            w = self.f_diff(x) if self.A(x).ndim == 1 else self.f_diff(self.f_moveaxis(x, axis, -1))
        return self.f_sum(self.f_multiply(mid, w), axis=-1)

    def f_vecdot(self, a, b, axis=-1, **k):
        return self.f_sum(self.f_multiply(self.f_conj(a), b), axis=axis)

    def f_matvec(self, a, b, **k):
        return self.f_sum(self.f_multiply(a, self.f_expand_dims(b, -2)), axis=-1)

    def f_vecmat(self, a, b, **k):
        return self.f_sum(self.f_multiply(self.f_expand_dims(self.f_conj(a), -1), b), axis=-2)

    def f_kron(self, a, b):
        a, b = self.A(a), self.A(b)
        n = max(a.ndim, b.ndim)
        ad = a.d.reshape((1,) * (n - a.ndim) + a.shape)
        bd = b.d.reshape((1,) * (n - b.ndim) + b.shape)
        ae = ad.reshape(tuple(y for s in ad.shape for y in (s, 1)))
        be = bd.reshape(tuple(y for s in bd.shape for y in (1, s)))
        r = self.f_multiply(Arr(ae, a.dt, a.kind, a.tr), Arr(be, b.dt, b.kind, b.tr))
        return self.re(r, r.d.reshape(tuple(s * t for s, t in zip(ad.shape, bd.shape))))

    def f_polyadd(self, a, b):
        a, b = self.f_atleast_1d(a), self.f_atleast_1d(b)
        n = max(a.size, b.size)
        pad = lambda x: self.f_concatenate([self.f_zeros((n - x.size,)), x])  # noqa: E731
        return self.f_add(pad(a), pad(b))

    def f_convolve(self, a, b, mode="full", **k):
        if mode != "full":
            raise AnalysisError(f"convolve mode {mode}")
        a, b = self.A(a), self.A(b)
        if a.ndim != 1 or b.ndim != 1 or not a.size or not b.size:
            self.err("ValueError", "convolve takes non-empty one-dimensional arrays")
        out = obj_array((a.size + b.size - 1,), tm.ZERO)
        for i in range(a.size):
            for j in range(b.size):
                out[i + j] = tm.add(out[i + j], tm.mul(a.d[i], b.d[j]))
        k = max(a.dt, b.dt, key=lambda d: RANK[d])
        return Arr(out, k, self.out_kind(a, b), (a.tr or EMPTY) | (b.tr or EMPTY))

    def f_polymul(self, a, b, **k):
        return self.f_convolve(self.f_atleast_1d(a), self.f_atleast_1d(b))

    def f_polyder(self, p, m=1):
        p = self.A(p)
        for _ in range(self.int_(m)):
            n = p.size - 1
            if n <= 0:
                return Arr(obj_array((0,)), p.dt, p.kind, p.tr)
            p = self.f_multiply(self.re(p, p.d[:-1]), self._ints(np.arange(n, 0, -1)))
        return p

    def f_vander(self, x, N=None, increasing=False):
        x = self.A(x)
        n = x.size if N is None else self.int_(N)
        d = obj_array((x.size, n))
        for i in range(x.size):
            for j in range(n):
                d[i, j] = tm.pow_(x.d[i], tm.const(j if increasing else n - 1 - j))
        return Arr(d, x.dt, x.kind, x.tr)

    def f_copysign(self, a, b):
        # the sign bit: b = 0 counts as positive (minus zero is not modelled)
        return self.map(lambda x, y: tm.ite(tm.lt(y, tm.ZERO), tm.neg(tm.abs_(x)), tm.abs_(x)), a, b)

    def f_signbit(self, x):
        return self.map(lambda t: tm.lt(t, tm.ZERO), x, dt="b")

    def f_fix(self, x):
        return self.f_trunc(x)

    def f_sinc(self, x):
        def one(t):
            a = tm.mul(tm.PI, t)
            return tm.ite(tm.eq(t, tm.ZERO), tm.ONE, tm.div(tm.fn("sin", a), a))

        return self.map(one, x)

    def f_ldexp(self, a, b):
        return self.f_multiply(a, self.f_power(self.A(2), b))

    def f_logaddexp(self, a, b):
        return self.f_log(self.f_add(self.f_exp(a), self.f_exp(b)))

    def f_isneginf(self, x):
        return self.map(lambda t: tm.eq(t, tm.neg(tm.INF)), x, dt="b")

    def f_isposinf(self, x):
        return self.map(lambda t: tm.eq(t, tm.INF), x, dt="b")

    def f_iscomplex(self, x):
        x = self.A(x)
        return self.f_not_equal(self.f_imag(x), 0) if x.dt == "c" else Arr(obj_array(x.shape, tm.FALSE), "b", x.kind, x.tr)

    def f_isreal(self, x):
        return self.f_logical_not(self.f_iscomplex(x))

    def f_isrealobj(self, x):
        return self.A(x).dt != "c"

    def f_angle(self, x, deg=False):
        x = self.A(x)
        r = self.f_arctan2(self.f_imag(x) if x.dt == "c" else self.f_multiply(x, 0), self.f_real(x))
        return self.f_rad2deg(r) if deg else r

    def f_isin(self, x, test, **k):
        if k:
            raise AnalysisError("isin options")
        ts = self.f_ravel(test).flat()

        def one(t):
            r = tm.FALSE
            for u in ts:
                r = tm.or_(r, tm.eq(t, u))
            return r

        return self.map(one, x, dt="b")

    def f_flatnonzero(self, x, **k):
        return self.f_nonzero(self.f_ravel(x), **k)[0]

    def f_argwhere(self, x, **k):
        return self.f_transpose(self.f_stack(list(self.f_nonzero(x, **k))))

    def f_geomspace(self, start, stop, num=50, endpoint=True, **k):
        return self.f_exp(self.f_linspace(self.f_log(start), self.f_log(stop), num, endpoint))

    def f_logspace(self, start, stop, num=50, endpoint=True, base=10, **k):
        return self.f_power(self.A(base), self.f_linspace(start, stop, num, endpoint))

    def f_choose(self, a, choices, **k):
        a = self.A(a)
        r = self.A(choices[-1])
        for i in range(len(choices) - 2, -1, -1):
            r = self.f_where(self.map(lambda t, i=i: tm.eq(t, tm.const(i)), a, dt="b"), choices[i], r)
        return r

    def f_piecewise(self, x, condlist, funclist, *a, **k):
        conds = list(self.it.iterate(condlist)) if isinstance(condlist, (list, tuple)) or self.A(condlist).ndim > self.A(x).ndim else [condlist]
        ev = lambda f: self.it.call(f, [x] + list(a), dict(k)) if not isinstance(f, (Arr, int, Fraction, tm.T)) else f  # noqa: E731
        vals = [ev(f) for f in funclist]
        r = self.A(vals[len(conds)]) if len(vals) > len(conds) else self.f_multiply(self.A(x), 0)
        for c, v in zip(conds, vals):  # the last true condition wins
            r = self.f_where(c, v, r)
        return r

    def f_asanyarray(self, x, dtype=None, **k):
        return self.f_asarray(x, dtype)

    def f_ascontiguousarray(self, x, dtype=None, **k):
        return self.f_asarray(x, dtype)

    def f_astype(self, x, dtype, **k):
        return self.f_array(x, dtype)

    def f_unwrap(self, *a, **k):
        raise AnalysisError("unwrap")

    def f_gcd(self, a, b):
        import math

        return self.A(math.gcd(self.int_(a), self.int_(b)))

    def f_iterable(self, x):
        return isinstance(x, (list, tuple, dict, str)) or (isinstance(x, Arr) and x.ndim > 0)

    def f_cumulative_sum(self, x, axis=None, **k):
        return self.f_cumsum(x, axis)


def tm_half(np_):
    return np_.A(Fraction(1, 2))
