"""Independent numerical oracle: integrals of x^i y^j z^k over the part of the unit
disc that is not covered by a disc of radius r centred at (0, b), z = sqrt(1-x^2-y^2).

Strips of constant y: |x| <= w = sqrt(1-y^2) minus |x| <= v = sqrt(r^2-(y-b)^2).
The inner integral is done in the angle x = w sin(t), the outer one with the
substitution that removes the square-root end points.  Double precision Gauss-Legendre,
error < 1e-10 for the degrees used here."""
from __future__ import annotations

import numpy as np

_X, _W = np.polynomial.legendre.leggauss(60)
_XI, _WI = np.polynomial.legendre.leggauss(24)


def _breaks(b, r):
    ys = [-1.0, 1.0]
    for y in (b - r, b + r):
        if -1 < y < 1:
            ys.append(y)
    if abs(1 - r) < b < 1 + r:
        ys.append((1 + b * b - r * r) / (2 * b))
    return sorted(ys)


def integrate(f, b, r):
    """integral over the visible region of f(x, y, z) for r >= 0, b >= 0"""
    tot = 0.0
    ys = _breaks(b, r)
    for lo, hi in zip(ys[:-1], ys[1:]):
        if hi - lo < 1e-15:
            continue
        c, h = 0.5 * (lo + hi), 0.5 * (hi - lo)
        # y = c + h sin(pi s / 2) twice smoothed
        s = np.sin(0.5 * np.pi * _X)
        y = c + h * s
        wy = h * 0.5 * np.pi * np.cos(0.5 * np.pi * _X) * _W
        w = np.sqrt(np.clip(1 - y * y, 0, None))
        v2 = r * r - (y - b) ** 2
        v = np.sqrt(np.clip(v2, 0, None))
        t0 = np.where(v >= w, 0.5 * np.pi, np.arcsin(np.clip(v / np.where(w > 0, w, 1), 0, 1)))
        t0 = np.where(v2 > 0, t0, 0.0)
        # x = w sin t, t in [t0, pi/2], both signs of x
        hh = 0.5 * (0.5 * np.pi - t0)
        t = t0[:, None] + hh[:, None] * (_XI[None, :] + 1)
        x = w[:, None] * np.sin(t)
        z = w[:, None] * np.cos(t)
        jac = w[:, None] * np.cos(t) * hh[:, None] * _WI[None, :]
        yy = y[:, None] * np.ones_like(x)
        val = f(x, yy, z) + f(-x, yy, z)
        tot += np.sum(val * jac * wy[:, None])
    return tot


def poly(i, j, k):
    return lambda x, y, z: x**i * y**j * z**k


def limbdark(u):
    """1 - sum u_n (1 - z)^n"""
    def f(x, y, z):
        r = np.ones_like(x)
        for n, c in enumerate(u):
            r = r - c * (1 - z) ** (n + 1)
        return r

    return f


def basis_exponents(deg):
    """(i, j, k) of the starry polynomial basis in order (l, m)"""
    out = []
    for l in range(deg + 1):
        for m in range(-l, l + 1):
            mu, nu = l - m, l + m
            if nu % 2 == 0:
                out.append((mu // 2, nu // 2, 0))
            else:
                out.append(((mu - 1) // 2, (nu - 1) // 2, 1))
    return out
