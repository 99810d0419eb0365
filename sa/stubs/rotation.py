"""Semantics of scipy.spatial.transform.Rotation (the subset modelled), written over
the array model.  Quaternions are (x, y, z, w); Euler sequences as in SciPy."""


def _norm(v):
    return jnp.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def _from_rotvec1(v):
    angle = _norm(v)
    zero = angle == 0.0
    scale = jnp.where(zero, 0.5, jnp.sin(angle / 2) / jnp.where(zero, 1.0, angle))
    return jnp.array([scale * v[0], scale * v[1], scale * v[2], jnp.cos(angle / 2)])


def _compose(p, q):
    return jnp.array([
        p[3] * q[0] + q[3] * p[0] + p[1] * q[2] - p[2] * q[1],
        p[3] * q[1] + q[3] * p[1] + p[2] * q[0] - p[0] * q[2],
        p[3] * q[2] + q[3] * p[2] + p[0] * q[1] - p[1] * q[0],
        p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2],
    ])


def _elem(axis, a):
    v = [0.0, 0.0, 0.0]
    v["xyz".index(axis)] = 1.0
    return _from_rotvec1(jnp.array([v[0] * a, v[1] * a, v[2] * a]))


class Rotation:
    def __init__(self, quat):
        self._q = quat

    @classmethod
    def from_rotvec(cls, rotvec, degrees=False):
        v = jnp.asarray(rotvec)
        if degrees:
            v = jnp.deg2rad(v)
        if v.ndim == 1:
            return cls(_from_rotvec1(v))
        return cls(jnp.stack([_from_rotvec1(w) for w in v]))

    @classmethod
    def from_quat(cls, quat):
        q = jnp.asarray(quat)
        n = jnp.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3])
        return cls(q / n)

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        if degrees:
            angles = jnp.deg2rad(jnp.asarray(angles))
        angles = jnp.atleast_1d(jnp.asarray(angles))
        intrinsic = seq.isupper()
        q = jnp.array([0.0, 0.0, 0.0, 1.0])
        for i, s in enumerate(seq.lower()):
            e = _elem(s, angles[i])
            q = _compose(q, e) if intrinsic else _compose(e, q)
        return cls(q)

    @classmethod
    def identity(cls):
        return cls(jnp.array([0.0, 0.0, 0.0, 1.0]))

    def __mul__(self, other):
        return Rotation(_compose(self._q, other._q))

    def inv(self):
        return Rotation(jnp.array([-self._q[0], -self._q[1], -self._q[2], self._q[3]]))

    def as_quat(self):
        return self._q

    def magnitude(self):
        return 2.0 * jnp.arctan2(_norm(self._q), jnp.abs(self._q[3]))

    def as_matrix(self):
        x, y, z, w = self._q[0], self._q[1], self._q[2], self._q[3]
        return jnp.array([
            [x * x - y * y - z * z + w * w, 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), -x * x + y * y - z * z + w * w, 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), -x * x - y * y + z * z + w * w],
        ])

    def as_rotvec(self):
        q = self._q
        q = jnp.where(q[3] < 0, -q, q)
        n = _norm(q)
        angle = 2.0 * jnp.arctan2(n, q[3])
        zero = n == 0.0
        scale = jnp.where(zero, 2.0, angle / jnp.where(zero, 1.0, n))
        return jnp.array([scale * q[0], scale * q[1], scale * q[2]])

    def apply(self, vectors, inverse=False):
        m = self.as_matrix()
        if inverse:
            m = m.T
        v = jnp.asarray(vectors)
        if v.ndim == 1:
            return m @ v
        return v @ m.T

    def as_euler(self, seq, degrees=False):
        extrinsic = seq.islower()
        s = seq.lower()
        if len(s) != 3 or s[0] == s[1] or s[1] == s[2]:
            raise ValueError("bad Euler sequence")
        if not extrinsic:
            s = s[::-1]
        i, j, k = "xyz".index(s[0]), "xyz".index(s[1]), "xyz".index(s[2])
        first, third = (0, 2) if extrinsic else (2, 0)
        symmetric = i == k
        if symmetric:
            k = 3 - i - j
        sign = (i - j) * (j - k) * (k - i) // 2
        q = self._q
        if symmetric:
            a, b, c, d = q[3], q[i], q[j], q[k] * sign
        else:
            a, b, c, d = q[3] - q[j], q[i] + q[k] * sign, q[j] + q[3], q[k] * sign - q[i]
        a1 = 2 * jnp.arctan2(jnp.sqrt(c * c + d * d), jnp.sqrt(a * a + b * b))
        case1 = jnp.abs(a1) <= 1e-7
        case2 = jnp.logical_and(jnp.logical_not(case1), jnp.abs(a1 - jnp.pi) <= 1e-7)
        degen = jnp.logical_or(case1, case2)
        hs = jnp.arctan2(b, a)
        hd = jnp.arctan2(d, c)
        fst = jnp.where(degen, 0.0, hs - hd)
        trd = jnp.where(degen, 0.0, hs + hd)
        zero_angle = jnp.where(case1, 2 * hs, 2 * hd * (-1 if extrinsic else 1))
        if first == 0:
            fst = jnp.where(degen, zero_angle, fst)
        else:
            trd = jnp.where(degen, zero_angle, trd)
        if not symmetric:
            trd = trd * sign
            a1 = a1 - jnp.pi / 2
        out = [None, None, None]
        out[first] = fst
        out[1] = a1
        out[third] = trd
        r = jnp.array(out)
        r = (r + jnp.pi) % (2 * jnp.pi) - jnp.pi
        return jnp.rad2deg(r) if degrees else r
