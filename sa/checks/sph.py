"""Independent definition of the real spherical harmonics used by the library:
orthonormal on the sphere, no Condon-Shortley phase,

    Y_{l,m}(x,y,z) = N_{l|m|} * { Re (x+iy)^m  (m >= 0) | Im (x+iy)^|m| (m < 0) } * d^|m| P_l(z) / dz^|m|

with N^2 = (2 - [m=0]) (2l+1)/(4 pi) (l-|m|)!/(l+|m|)!.  Hence Y_{1,0} ~ z, Y_{1,1} ~ x,
Y_{1,-1} ~ y.  Coefficients are exact rationals times N."""
from __future__ import annotations

import math
from fractions import Fraction

import mpmath
import numpy as np


def legendre_deriv(l, m):
    """coefficients (ascending) of d^m P_l / dz^m"""
    p0, p1 = [Fraction(1)], [Fraction(0), Fraction(1)]
    if l == 0:
        p = p0
    else:
        for k in range(2, l + 1):
            q = [Fraction(0)] * (k + 1)
            for i, c in enumerate(p1):
                q[i + 1] += Fraction(2 * k - 1, k) * c
            for i, c in enumerate(p0):
                q[i] -= Fraction(k - 1, k) * c
            p0, p1 = p1, q
        p = p1
    for _ in range(m):
        p = [i * c for i, c in enumerate(p)][1:] or [Fraction(0)]
    return p


def norm2(l, m):
    """N^2 * 4 pi"""
    m = abs(m)
    return Fraction((2 - (m == 0)) * (2 * l + 1) * math.factorial(l - m), math.factorial(l + m))


def poly(l, m):
    """{(i, j, k): rational} with arbitrary powers k of z; multiply by N"""
    a = abs(m)
    out = {}
    for t in range(a + 1):
        # (x + i y)^a : C(a,t) x^(a-t) (i y)^t
        if (t % 2 == 0) != (m >= 0):
            continue
        s = math.comb(a, t) * (-1) ** (t // 2)
        for k, c in enumerate(legendre_deriv(l, a)):
            if c:
                key = (a - t, t, k)
                out[key] = out.get(key, 0) + s * c
    return out


def reduce_z(p):
    """z^2 -> 1 - x^2 - y^2"""
    out = {}
    for (i, j, k), c in p.items():
        h = k // 2
        for a in range(h + 1):
            for b in range(h - a + 1):
                # (1 - x^2 - y^2)^h
                co = math.factorial(h) // (math.factorial(a) * math.factorial(b) * math.factorial(h - a - b)) * (-1) ** (a + b)
                key = (i + 2 * a, j + 2 * b, k % 2)
                out[key] = out.get(key, 0) + c * co
    return {k: v for k, v in out.items() if v}


def lm(deg):
    return [(l, m) for l in range(deg + 1) for m in range(-l, l + 1)]


def evaluate(l, m, x, y, z, num=float):
    """Y_lm at points (arrays or mpf)"""
    N = num(mpmath.sqrt(mpmath.mpf(norm2(l, m).numerator) / norm2(l, m).denominator / (4 * mpmath.pi)))
    r = 0
    for (i, j, k), c in poly(l, m).items():
        r = r + num(mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else c) * x**i * y**j * z**k
    return N * r


def intensity(coef, x, y, z):
    """sum_n coef_n * (2/sqrt(pi)) Y_n on numpy arrays; coef: list in (l, m) order"""
    deg = int(round(math.sqrt(len(coef)))) - 1
    r = np.zeros_like(x)
    for c, (l, m) in zip(coef, lm(deg)):
        if c:
            r = r + c * evaluate(l, m, x, y, z)
    return r * (2 / math.sqrt(math.pi))


def axis_rotation(axis, th):
    """3x3 matrix of the rotation by th about axis (right handed)"""
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * (K @ K)


_PTS = None


def points(n=64):
    """fixed well spread unit vectors"""
    i = np.arange(n) + 0.5
    z = 1 - 2 * i / n
    ph = np.pi * (1 + 5**0.5) * i + 0.3
    s = np.sqrt(1 - z * z)
    return np.stack([s * np.cos(ph), s * np.sin(ph), z])


def rotated_coef(coef, S):
    """coefficients c' with I'(v) = I(S v), by least squares on the sphere (the system is
    orthogonal: well conditioned)"""
    deg = int(round(math.sqrt(len(coef)))) - 1
    P = points(4 * (deg + 1) ** 2 + 20)
    B = np.stack([evaluate(l, m, *P) for l, m in lm(deg)]).T
    SP = S @ P
    I = np.stack([evaluate(l, m, *SP) for l, m in lm(deg)]).T @ np.asarray(coef, float)
    return np.linalg.lstsq(B, I, rcond=None)[0]
