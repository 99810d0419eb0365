"""Semantics of the mpmath context `mp` (the subset modelled), written over exact
scalars: rounding is not modelled, quadrature is a Gauss-Legendre rule of high order."""
import math

import numpy as np
from scipy.special import roots_legendre

_QUAD = 24


class mpc:
    """complex number"""

    def __init__(self, real, imag):
        self.real = real
        self.imag = imag

    def __add__(self, o):
        o = _c(o)
        return mpc(self.real + o.real, self.imag + o.imag)

    def __radd__(self, o):
        return self + o

    def __neg__(self):
        return mpc(-self.real, -self.imag)

    def __sub__(self, o):
        o = _c(o)
        return mpc(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return _c(o) - self

    def __mul__(self, o):
        o = _c(o)
        return mpc(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        o = _c(o)
        n = o.real * o.real + o.imag * o.imag
        return mpc((self.real * o.real + self.imag * o.imag) / n, (self.imag * o.real - self.real * o.imag) / n)

    def __rtruediv__(self, o):
        return _c(o) / self

    def __abs__(self):
        return np.sqrt(self.real * self.real + self.imag * self.imag)

    def __eq__(self, o):
        o = _c(o)
        return self.real == o.real and self.imag == o.imag


def _c(v):
    return v if isinstance(v, mpc) else mpc(v, 0)


def _re(v):
    return v.real if isinstance(v, mpc) else v


def _abs2(v):
    return v.real * v.real + v.imag * v.imag if isinstance(v, mpc) else v * v


class matrix:
    def __init__(self, a, cols=None):
        if isinstance(a, matrix):
            self._e = [list(r) for r in a._e]
        elif isinstance(a, int):
            self._e = [[0 for _ in range(a if cols is None else cols)] for _ in range(a)]
        else:
            rows = list(a)
            self._e = [list(r) if isinstance(r, (list, tuple)) else [r] for r in rows]
            if len({len(r) for r in self._e}) > 1:
                raise IndexError("rows of different lengths")

    @property
    def rows(self):
        return len(self._e)

    @property
    def cols(self):
        return len(self._e[0]) if self._e else 0

    def __len__(self):
        if self.rows == 1:
            return self.cols
        if self.cols == 1:
            return self.rows
        return self.rows

    def __iter__(self):
        return iter([v for r in self._e for v in r])

    def _key(self, k):
        if not isinstance(k, tuple):
            if self.rows == 1:
                k = (0, k)
            elif self.cols == 1:
                k = (k, 0)
            else:
                raise IndexError("insufficient indices for matrix")
        return k

    def __getitem__(self, key):
        i, j = self._key(key)
        if isinstance(i, slice) or isinstance(j, slice):
            ii = range(self.rows)[i] if isinstance(i, slice) else [self._ix(i, self.rows)]
            jj = range(self.cols)[j] if isinstance(j, slice) else [self._ix(j, self.cols)]
            r = matrix(0)
            r._e = [[self._e[a][b] for b in jj] for a in ii]
            return r
        return self._e[self._ix(i, self.rows)][self._ix(j, self.cols)]

    def _ix(self, i, n):
        if i < 0:
            i = i + n
        if not (0 <= i < n):
            raise IndexError("matrix index out of range")
        return i

    def __setitem__(self, key, v):
        i, j = self._key(key)
        if isinstance(i, slice) or isinstance(j, slice):
            ii = list(range(self.rows)[i]) if isinstance(i, slice) else [self._ix(i, self.rows)]
            jj = list(range(self.cols)[j]) if isinstance(j, slice) else [self._ix(j, self.cols)]
            if isinstance(v, matrix):
                if v.rows != len(ii) or v.cols != len(jj):
                    raise ValueError("Dimensions do not match")
                for a in range(len(ii)):
                    for b in range(len(jj)):
                        self._e[ii[a]][jj[b]] = v._e[a][b]
            else:
                for a in ii:
                    for b in jj:
                        self._e[a][b] = v
        else:
            self._e[self._ix(i, self.rows)][self._ix(j, self.cols)] = v

    def _map(self, f):
        r = matrix(0)
        r._e = [[f(v) for v in row] for row in self._e]
        return r

    def apply(self, f):
        return self._map(f)

    def copy(self):
        return self._map(lambda v: v)

    def tolist(self):
        return [list(r) for r in self._e]

    @property
    def T(self):
        r = matrix(0)
        r._e = [[self._e[i][j] for i in range(self.rows)] for j in range(self.cols)]
        return r

    def transpose(self):
        return self.T

    @property
    def H(self):
        return self.T._map(lambda v: mpc(v.real, -v.imag) if isinstance(v, mpc) else v)

    def __mul__(self, o):
        if isinstance(o, matrix):
            if self.cols != o.rows:
                raise ValueError("dimensions not compatible for multiplication")
            r = matrix(0)
            r._e = [[_dot([self._e[i][k] for k in range(self.cols)], [o._e[k][j] for k in range(self.cols)]) for j in range(o.cols)] for i in range(self.rows)]
            return r
        return self._map(lambda v: v * o)

    def __matmul__(self, o):
        return self.__mul__(o)

    def __rmul__(self, o):
        return self._map(lambda v: o * v)

    def __truediv__(self, o):
        return self._map(lambda v: v / o)

    def __neg__(self):
        return self._map(lambda v: -v)

    def _zip(self, o, f):
        if isinstance(o, matrix):
            if self.rows != o.rows or self.cols != o.cols:
                raise ValueError("incompatible dimensions for addition")
            r = matrix(0)
            r._e = [[f(self._e[i][j], o._e[i][j]) for j in range(self.cols)] for i in range(self.rows)]
            return r
        return self._map(lambda v: f(v, o))

    def __add__(self, o):
        return self._zip(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._zip(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._zip(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._zip(o, lambda a, b: b - a)

    def __pow__(self, n):
        if self.rows != self.cols:
            raise ValueError("only powers of square matrices are defined")
        if n < 0:
            inv = _solve(self, _eye(self.rows))
            r = inv
            for _ in range(-n - 1):
                r = r * inv
            return r
        r = _eye(self.rows)
        for _ in range(n):
            r = r * self
        return r


def _eye(n):
    r = matrix(n, n)
    for i in range(n):
        r._e[i][i] = 1
    return r


def _dot(a, b):
    s = 0
    for x, y in zip(a, b):
        if _nil(x) or _nil(y):
            continue
        s = s + x * y
    return s


def _nil(x):
    return isinstance(x, (int, float)) and x == 0


def _solve(A, B):
    n = A.rows
    a = [list(A._e[i]) + list(B._e[i]) for i in range(n)]
    w = len(a[0]) if n else 0
    for c in range(n):
        p = None
        for i in range(c, n):
            if _abs2(a[i][c]) != 0:
                p = i
                break
        if p is None:
            raise ZeroDivisionError("matrix is numerically singular")
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [v if _nil(v) else v / d for v in a[c]]
        for i in range(n):
            if i == c or _nil(a[i][c]):
                continue
            f = a[i][c]
            a[i] = [a[i][j] if _nil(a[c][j]) else a[i][j] - f * a[c][j] for j in range(w)]
    r = matrix(0)
    r._e = [a[i][n:] for i in range(n)]
    return r


class _Context:
    dps = 15
    pi = np.pi
    j = mpc(0, 1)
    inf = np.inf
    matrix = matrix
    mpc = mpc

    def mpf(self, x):
        return x

    def sqrt(self, x):
        return np.sqrt(x)

    def sin(self, x):
        return np.sin(x)

    def cos(self, x):
        return np.cos(x)

    def tan(self, x):
        return np.tan(x)

    def acos(self, x):
        return np.arccos(x)

    def asin(self, x):
        return np.arcsin(x)

    def atan2(self, y, x):
        return np.arctan2(y, x)

    def exp(self, x):
        if isinstance(x, mpc):
            m = np.exp(x.real)
            return mpc(m * np.cos(x.imag), m * np.sin(x.imag))
        return np.exp(x)

    def floor(self, x):
        return int(np.floor(x))

    def ceil(self, x):
        return int(np.ceil(x))

    def fabs(self, x):
        return abs(x)

    def absmax(self, x):
        return abs(x)

    def re(self, x):
        return _re(x)

    def im(self, x):
        return x.imag if isinstance(x, mpc) else 0

    def norm(self, x, p=2):
        if p != 2:
            raise NotImplementedError("norm")
        s = 0
        for v in x:
            s = s + _abs2(v)
        return np.sqrt(s)

    def fac(self, n):
        h = int(2 * n)
        if h % 2 == 0:
            if h < 0:
                raise ValueError("gamma function pole")
            r = 1
            for k in range(2, h // 2 + 1):
                r = r * k
            return r
        # gamma(n + 1) = sqrt(pi) prod ...
        r = np.sqrt(np.pi)
        k = -1
        while k < h:
            k = k + 2
            r = r * k / 2
        while k > h:
            r = r * 2 / k
            k = k - 2
        return r

    def gamma(self, n):
        return self.fac(n - 1)

    def factorial(self, n):
        return self.fac(n)

    def zeros(self, n, m=None):
        return matrix(n, n if m is None else m)

    def ones(self, n, m=None):
        return matrix(n, n if m is None else m) + 1

    def eye(self, n):
        return _eye(n)

    def inverse(self, A):
        return A ** -1

    def lu_solve(self, A, b):
        if A.rows < A.cols:
            raise ValueError("cannot solve underdetermined system")
        if A.rows > A.cols:
            h = A.H
            return _solve(h * A, h * b)
        return _solve(A, b)

    def quad(self, f, interval):
        a = interval[0]
        b = interval[len(interval) - 1]
        if len(interval) != 2:
            raise NotImplementedError("quad over several intervals")
        x, w = roots_legendre(_QUAD)
        s = 0
        for i in range(_QUAD):
            s = s + w[i] * f(a + (b - a) * (1 + x[i]) / 2)
        return s * (b - a) / 2


mp = _Context()
mpf = mp.mpf
