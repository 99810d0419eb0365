"""Sources of the planted bugs: edits (file under src/jaxoplanet, old, new) plus a demonstration."""
KEP = "orbits/keplerian.py"
TRA = "orbits/transit.py"
TTV = "orbits/ttv.py"
LLD = "light_curves/limb_dark.py"
LEM = "light_curves/emission.py"
LTR = "light_curves/transforms.py"
LUT = "light_curves/utils.py"
CLD = "core/limb_dark.py"
KPC = "core/kepler.py"
UDE = "units/decorator.py"
UFI = "units/field.py"
STK = "object_stack.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


H = "import numpy as np, jax, jax.numpy as jnp\nfrom jaxoplanet.units import unit_registry as ureg\n"
O = H + "from jaxoplanet.orbits.keplerian import Central, Body, OrbitalBody, System\n"

bug("k03-semimajor-mass", "K03",
    [(KEP, "2 * jnp.pi * body.semimajor * jnpu.sqrt(body.semimajor / mass_factor)",
      "2\n                * jnp.pi\n                * jnpu.sqrt(\n                    body.semimajor**3\n                    / (ureg.gravitational_constant * central.mass)\n                )")],
    "a body given by its semi-major axis that also has a mass",
    "the mass of the body is left out of Kepler's third law",
    O + """
o = OrbitalBody(Central(mass=1.0, radius=1.0), Body(semimajor=10.0, mass=0.5))
G = ureg.gravitational_constant
x = (4 * np.pi**2 * o.semimajor**3 / (G * 1.5 * ureg.M_sun * o.period**2)).to("").magnitude
assert abs(x - 1) < 1e-8, x
""")

bug("k04-sin-inclination", "K04",
    [(KEP, "            self.sin_inclination = jnpu.sin(body.inclination)\n",
      "            self.sin_inclination = jnpu.sqrt(1 - self.cos_inclination**2)\n")],
    "an inclination outside of [0, pi] (e.g. a negative one while sampling)",
    "the sine of the inclination loses its sign, so the reported inclination and the line of sight direction are wrong",
    O + """
o = OrbitalBody(Central(), Body(period=3.0, inclination=-0.6))
assert abs(float(o.inclination.magnitude) + 0.6) < 1e-6, o.inclination
""")

bug("k06-parallax-override", "K06",
    [(KEP, "        if parallax is None:\n            parallax = self.parallax\n", "        if self.parallax is not None:\n            parallax = self.parallax\n")],
    "a body with its own parallax evaluated with another explicit parallax",
    "the explicit parallax argument is ignored",
    O + """
c = Central(mass=1.0, radius=1.0)
kw = dict(period=100.0, inclination=1.2)
a = OrbitalBody(c, Body(parallax=0.02, **kw)).relative_position(3.0, parallax=0.05)[0]
b = OrbitalBody(c, Body(**kw)).relative_position(3.0, parallax=0.05)[0]
assert np.allclose(a.magnitude, b.magnitude), (a, b)
""")

bug("k07-parallax-velocity", "K07",
    [(KEP, "k0 = k0.to(ureg.au / ureg.d).magnitude * parallax / ureg.day", "k0 = (k0.to(ureg.au / ureg.year).magnitude / 365.0) * parallax / ureg.day")],
    "velocities of a body with a parallax", "angular velocities are off by the length of the year used",
    O + """
o = OrbitalBody(Central(mass=1.0, radius=1.0), Body(period=100.0, inclination=1.2, parallax=0.05))
f = lambda t: o.relative_position(t)[0].magnitude
v = o.relative_velocity(3.0)[0].to("arcsec/d").magnitude
assert abs(float(jax.grad(f)(3.0)) / float(v) - 1) < 1e-5, (jax.grad(f)(3.0), v)
""")

bug("k08-inclined-explicit-k", "K08",
    [(KEP, "        k = -semiamplitude * self.central.mass / self.mass\n", "        k = -semiamplitude * self.total_mass / self.mass\n")],
    "the barycentric velocity of a body evaluated with an explicit semi-amplitude",
    "the body's barycentric velocity uses the relative mass ratio: momentum is not conserved",
    O + """
o = OrbitalBody(Central(mass=1.0, radius=1.0), Body(period=10.0, mass=0.3))
k = 5.0 * ureg.R_sun / ureg.d
v = np.array([x.magnitude for x in o.velocity(1.0, semiamplitude=k)])
c = np.array([x.magnitude for x in o.central_velocity(1.0, semiamplitude=k)])
assert np.allclose(0.3 * v + 1.0 * c, 0, atol=1e-6), (v, c)
""")

bug("k02-omega-without-ecc", "K02",
    [(KEP, "        if (self.eccentricity is not None) ^ has_omega_peri:", "        if self.eccentricity is not None and not has_omega_peri:")],
    "an argument of periastron without an eccentricity", "an ill-formed body is silently accepted",
    O + """
try:
    Body(period=1.0, omega_peri=0.3)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

bug("k11-fmod", "K11",
    [(TRA, "        ref_time = self.time_transit - half_period\n        dt = jnpu.mod(t - ref_time, self.period) - half_period\n",
      "        phase = ((t - self.time_transit) / self.period).to(ureg.dimensionless)\n        dt = (phase - jnp.trunc(phase.magnitude + 0.5)) * self.period\n")],
    "times more than half a period before the reference transit",
    "transits before the reference epoch are lost (truncation instead of floor)",
    H + """
from jaxoplanet.orbits import TransitOrbit
o = TransitOrbit(period=3.0, duration=0.2, time_transit=0.0)
x, _, z = o.relative_position(-9.0 + 0.05)
y, _, w = o.relative_position(0.05)
assert np.allclose(x.magnitude, y.magnitude) and z.magnitude == w.magnitude, (x, y)
x, _, z = o.relative_position(-9.0 - 2.0)
y, _, w = o.relative_position(1.0)
assert np.allclose(x.magnitude, y.magnitude) and z.magnitude == w.magnitude, (x, y)
""")

bug("k12-inds-gaps", "K12",
    [(TTV, "                transit_times_list.append(t0_i + period_i * inds + ttv)",
      "                n0 = inds[0] + jnp.arange(ttv.shape[0])\n                transit_times_list.append(t0_i + period_i * n0 + ttv)")],
    "ttvs with transit indices that have gaps", "transit times after a gap are those of the missing transits",
    H + """
from jaxoplanet.orbits import TTVOrbit
o = TTVOrbit(period=4.0, time_transit=0.5, duration=0.2, ttvs=(jnp.array([0.01, -0.02, 0.01]),), transit_inds=(jnp.array([0, 1, 4]),))
assert np.allclose(o.transit_times[0], 0.5 + 4 * np.array([0, 1, 4]) + np.array([0.01, -0.02, 0.01])), o.transit_times
""")

bug("l02-any-front", "L02",
    [(LLD, "        lc = jnp.where(z > 0, lc, 0)\n", "        in_front = z.magnitude > 0\n        lc = jnp.where(in_front.any(), lc, 0)\n")],
    "several planets, one in front while another is behind the star",
    "a secondary eclipse of one planet shows up while another one is in front",
    O + """
from jaxoplanet.light_curves import limb_dark_light_curve
s = System(Central()).add_body(period=2.0, radius=0.1, time_transit=1.0).add_body(period=50.0, radius=0.1, time_transit=5.0)
f = limb_dark_light_curve(s, 0.1)(jnp.array([0.0]))
assert np.allclose(f, 0.0), f
""")

bug("l03-body-radius", "L03",
    [(LEM, "            b = zero_safe_sqrt(((x**2 + y**2) / body.radius**2).magnitude)\n", "            b = zero_safe_sqrt(((x**2 + y**2) / system.radius[0] ** 2).magnitude)\n")],
    "two bodies with surfaces and different radii", "the second body's eclipse is scaled by the first body's radius",
    O + """
from jaxoplanet.light_curves.emission import light_curve
from jaxoplanet.starry.orbit import SurfaceSystem
from jaxoplanet.starry.surface import Surface
def lc(first):
    s = SurfaceSystem(Central(), Surface())
    if first:
        s = s.add_body(period=30.0, radius=0.05, time_transit=3.0, surface=Surface(amplitude=0.1))
    s = s.add_body(period=3.0, radius=0.2, time_transit=0.0, impact_param=0.3, surface=Surface(amplitude=0.2, u=(0.1,)))
    return light_curve(s)(jnp.linspace(1.3, 1.7, 41))[:, -1]
assert np.allclose(lc(True), lc(False), atol=1e-10)
""")

bug("l04-simpson-weights", "L04",
    [(LTR, "        stencil = stencil.at[2:-1:2].set(2)\n", "        stencil = stencil.at[2:-2:4].set(2)\n")],
    "Simpson's rule with at least seven samples", "the Simpson stencil is wrong from 7 samples on",
    H + """
from jaxoplanet.light_curves.transforms import integrate
f = integrate(lambda t: t.magnitude**3 - t.magnitude**2, exposure_time=0.4, order=2, num_samples=9)
F = lambda t: t**4 / 4 - t**3 / 3
g = float(f(jnp.array(1.3)))
assert abs(g - (F(1.5) - F(1.1)) / 0.4) < 1e-9, g
""")

bug("l05-units-lost", "L05",
    [(LTR, "            return flux * flux_units\n", "            return flux * (flux_units if jnp.ndim(flux) else ureg.dimensionless)\n")],
    "a light curve with units", "the units of an interpolated light curve are lost",
    H + """
from jaxoplanet.light_curves.transforms import interpolate
f = lambda t: jnp.cos(2 * jnp.pi * t.magnitude) * ureg.K
g = interpolate(f, period=1.0, time_transit=0.0, num_samples=500)
x = g(jnp.array(1.0))
assert x.units == ureg.K, x
""")

bug("k14-turn-counter", "K14",
    [(KPC, "    M = M % (2 * jnp.pi)\n", "    turns = jnp.floor(M / (2 * jnp.pi)).astype(jnp.int16)\n    M = M - 2 * jnp.pi * turns\n")],
    "a mean anomaly more than 32767 turns away from periastron", "the turn counter saturates: the anomaly is no longer periodic for short periods and long baselines",
    H + """
jax.config.update("jax_enable_x64", True)
from jaxoplanet.core.kepler import kepler
a = np.array(kepler(jnp.array(1.2), jnp.array(0.3)))
b = np.array(kepler(jnp.array(1.2 + 2 * np.pi * 40000), jnp.array(0.3)))
assert np.allclose(a, b, atol=1e-6), (a, b)
""")

bug("k10-stack-axis", "K10",
    [(STK, "        idx = (slice(None),) * (axis % jnpu.ndim(arg)) + (n,)\n", "        idx = (..., n) if axis else (n,)\n")] if False else
    [(STK, "                parts[0] if a is None else jnpu.stack(parts, axis=a)\n", "                parts[0] if a is None else jnpu.stack(parts, axis=int(a > 0))\n")],
    "an output axis other than 0 or 1 over bodies of different structure", "body_vmap puts the body axis in the wrong place",
    O + """
s = System(Central()).add_body(period=1.0).add_body(period=2.0, mass=0.1)
f = s.body_vmap(lambda b, t: b.period.magnitude * t, in_axes=None, out_axes=-1)
x = f(jnp.arange(6.0).reshape(3, 2))
assert x.shape == (3, 2, 2) and np.allclose(x[..., 1], 2 * np.arange(6.0).reshape(3, 2)), x
""")

SUR = "starry/surface.py"
SLC = "starry/light_curves.py"
SDO = "starry/doppler.py"
SOR = "starry/orbit.py"
SOB = "starry/system_observable.py"
SYL = "starry/ylm.py"
SPO = "starry/core/polynomials.py"
SSO = "starry/core/solution.py"
SRO = "starry/core/rotation.py"
S2F = "starry/core/s2fft_rotation.py"
UTI = "utils.py"
S = O + "from jaxoplanet.starry import Surface, Ylm\nfrom jaxoplanet.starry.orbit import SurfaceSystem, SurfaceBody\nfrom jaxoplanet.starry.light_curves import surface_light_curve, light_curve\n"

bug("s03-diagonal-map", "S03",
    [(SLC, "    if surface.ydeg == 0:\n        rotated_y = surface.y.todense()\n    else:\n        rotated_y = left_project(",
      "    if surface.y.diagonal:\n        rotated_y = surface.y.todense()\n    else:\n        rotated_y = left_project(")],
    "a map that only has m = 0 coefficients (a banded star) of degree one or more",
    "an axisymmetric map is treated as if it were symmetric about the line of sight, so its inclination is ignored",
    S + """
s = Surface(y=Ylm({(0, 0): 1.0, (1, 0): 0.4}), inc=0.5)
p = Surface(y=Ylm({(0, 0): 1.0, (1, 0): 0.4, (1, 1): 0.0}), inc=0.5)
a, b = surface_light_curve(s), surface_light_curve(p)
assert np.allclose(a, b), (a, b)
""")

bug("s04-body-phase", "S04",
    [(SOB, "                theta = surface.rotational_phase(time.magnitude)\n", "                theta = system.central_surface.rotational_phase(time.magnitude)\n")],
    "a body with a non-uniform surface and a rotation period different from the central's",
    "the surfaces of bodies rotate with the period and phase of the central",
    S + """
m = Ylm({(0, 0): 1.0, (1, 1): 0.4})
c = Surface(y=m, period=5.0)
b = Surface(y=m, period=0.7, phase=0.3)
s = SurfaceSystem(Central(), c).add_body(Body(period=100.0, radius=0.1, inclination=1.0), b)
f = light_curve(s)(np.array([11.0]))[0, 1]
g = surface_light_curve(b, theta=b.rotational_phase(11.0))
assert np.allclose(f, g), (f, g)
""")

bug("s02-rz-axis", "S02",
    [(S2F, "        axis = axis / jnp.linalg.norm(axis)\n", "")],
    "a rotation axis that is not a unit vector",
    "rotations about an axis that is not normalised turn by the wrong angle",
    H + """
from jaxoplanet.starry.core.rotation import dot_rotation_matrix
y = np.arange(9.0)
a = dot_rotation_matrix(2, 1.0, 1.0, 0.0, 0.5)(y)
b = dot_rotation_matrix(2, 2**-0.5, 2**-0.5, 0.0, 0.5)(y)
assert np.allclose(a, b), (a, b)
""")

bug("s01-odd-radius", "S01",
    [(SSO, "        r = jnp.abs(r)\n        kappa0, kappa1", "        kappa0, kappa1")],
    "the solution vector for a negative radius (for example while sampling a radius ratio)",
    "the solution vector isn't even in the radius any more",
    H + """
from jaxoplanet.starry.core.solution import solution_vector
f = solution_vector(2)
assert np.allclose(f(0.5, -0.3), f(0.5, 0.3)), (f(0.5, -0.3), f(0.5, 0.3))
""")

bug("s01-z-squared", "S01",
    [(SPO, "                uv[(i1 + i2, j1 + j2, 0)] += v1v2\n", "                uv[(i1 + i2, j1 + j2, 0)] = v1v2\n")],
    "a product of two polynomials with several terms odd in z that end up in the same term",
    "products of polynomials lose terms",
    H + """
from jaxoplanet.starry.core.polynomials import Pijk
p = Pijk({(0, 0, 0): 0.7, (0, 0, 1): 1.3})
q = Pijk({(0, 0, 0): 2.0, (0, 0, 1): 0.5})
x, y = 0.2, 0.3; z = np.sqrt(1 - x * x - y * y)
ev = lambda p: sum(float(v) * x**i * y**j * z**k for (i, j, k), v in p.data.items())
assert np.isclose(ev(p * q), ev(p) * ev(q)), (ev(p * q), ev(p) * ev(q))
""")

bug("s05-occultor-angle", "S05",
    [(SDO, "    rotated_rv_y = dot_rz(surface.vdeg, -theta_z)(y_rv)\n", "    rotated_rv_y = dot_rz(surface.vdeg, theta_z)(y_rv)\n")],
    "an occultor that is off the projected spin axis of the surface",
    "the velocity field is rotated the wrong way in the frame of the occultor",
    S + """
from jaxoplanet.starry.doppler import surface_radial_velocity as rv
s = Surface(inc=1.2, period=3.0)
a = float(rv(s, r=0.3, x=0.4, y=0.2, z=1.0))  # the receding half is hidden
assert a < 0, a
""")

bug("s05-radius", "S05",
    [(SUR, "        return 2 * jnp.pi * self.radius / self.period\n", "        return 2 * jnp.pi / self.period\n")],
    "a surface with a radius other than one",
    "the equatorial velocity doesn't depend on the radius",
    S + """
from jaxoplanet.starry.doppler import surface_radial_velocity as rv
f = lambda R: rv(Surface(inc=1.2, period=3.0, radius=R), r=0.3, x=0.4, y=0.2, z=1.0)
assert np.isclose(f(2.0), 2 * f(1.0)), (f(2.0), f(1.0))
""")

bug("s06-phase-turns", "S06",
    [(SUR, "            return 2 * jnp.pi * time / self.period + self.phase\n", "            return 2 * jnp.pi * (time / self.period + self.phase)\n")],
    "a surface with a non-zero initial phase", "the initial phase counts turns instead of radians",
    S + """
assert np.isclose(Surface(period=2.0, phase=0.3).rotational_phase(0.0), 0.3)
""")

bug("s07-replaced-surface", "S07",
    [(SOR, "                orbital_bodies.append(body)\n                body_surfaces.append(surface)\n",
      "                orbital_bodies.append(body)\n                body_surfaces.append(surface or getattr(body, \"surface\", Surface()))\n")],
    "a body without a surface, followed by another call to add_body",
    "a body that has no surface is given a default one when further bodies are added",
    S + """
s = SurfaceSystem(Central()).add_body(period=1.0, radius=0.1).add_body(period=2.0, radius=0.2)
assert s.body_surfaces[0] is None, s.body_surfaces
""")

bug("s08-spot-mean", "S08",
    [(SYL, "        y = y.at[0].set(y[0] + 1.0)\n", "        y = y.at[0].set(1.0)\n")],
    "any spot: the unspotted photosphere is brighter than the uniform map it was put on",
    "the expansion of the spot loses its mean, so the intensity away from the spot is not that of the unspotted surface",
    S + """
from jaxoplanet.starry.ylm import ylm_spot
s = Surface(y=ylm_spot(12)(0.8, 0.9, 0.3, 0.2), normalize=False)
I = float(np.ravel(s.intensity(-0.3, 0.2 + np.pi))[0]) / float(np.ravel(Surface().intensity(0.0, 0.0))[0])
assert abs(I - 1) < 0.02, I
""")

bug("u02-defaults", "U02",
    [(UDE, "            bound_args.apply_defaults()\n", ""),
     (UDE, "            return func(*bound_args.args, **bound_args.kwargs)\n", "            bound_args.apply_defaults()\n            return func(*bound_args.args, **bound_args.kwargs)\n")],
    "a declared argument left at a default that is not None",
    "defaults are no longer converted",
    H + """
from jaxoplanet import units
@units.quantity_input(a=ureg.m)
def f(a=2.0):
    return a
assert hasattr(f(), "units"), f()
""")

bug("u03-strict", "U03",
    [(UFI, "                partial(_apply_units, strict=strict),\n", "                partial(_apply_units, name=kwargs.get(\"name\")),\n")],
    "a strict field that is given a plain number", "a strict field silently accepts plain numbers",
    H + """
import equinox as eqx
from typing import Any
from jaxoplanet import units
class M(eqx.Module):
    x: Any = units.field(units=ureg.m, strict=True)
try:
    M(x=1.0)
except ValueError:
    pass
else:
    raise AssertionError("plain number accepted")
""")

bug("u04-earth-radius", "U04",
    [("units/astro_constants_and_units.txt", "R_earth = 6.3781e6 m", "R_earth = 6.371e6 m")],
    "lengths in Earth radii", "the mean instead of the nominal equatorial radius of the Earth",
    H + """
assert abs((1 * ureg.R_earth).to("km").magnitude - 6378.1) < 1e-6
""")

bug("l01-odd-radius", "L01",
    [(CLD, "        r = jnp.abs(r)\n        area", "        area")],
    "a negative radius ratio", "the flux isn't even in the radius ratio",
    H + """
from jaxoplanet.core.limb_dark import light_curve
u = jnp.array([0.3, 0.2])
b = np.linspace(0, 1.2, 50)
assert np.allclose(light_curve(u, b, -0.1), light_curve(u, b, 0.1))
""")

bug("l01-high-degree", "L01",
    [(CLD, "    for n in range(size - 1, 1, -1):\n", "    for n in range(min(size, 6) - 1, 1, -1):\n")],
    "limb darkening of degree six or more", "high degree terms are dropped",
    H + """
from jaxoplanet.core.limb_dark import light_curve
u = np.array([0.0] * 6 + [0.5])
x = np.linspace(0, 0.1, 4001); x = 0.5 * (x[1:] + x[:-1])
I = lambda r: 1 - 0.5 * (1 - np.sqrt(1 - r * r))**7
X = np.linspace(0, 1, 40001); X = 0.5 * (X[1:] + X[:-1])
e = -np.sum(I(x) * x) / len(x) * 0.1 / (np.sum(I(X) * X) / len(X))
c = float(light_curve(jnp.array(u), 0.0, 0.1))
assert abs(c - e) < 1e-6, (c, e)
""")

bug("l03-body-amplitude", "L03",
    [(LEM, "            lc_body = surface.amplitude * (1 + jnp.where(z < 0, lc_body, 0))\n",
      "            lc_body = surface.amplitude + jnp.where(z < 0, lc_body, 0)\n")],
    "a body with an amplitude other than one, in eclipse", "the eclipse depth doesn't scale with the amplitude",
    S + """
from jaxoplanet.light_curves.emission import light_curve as em
s = SurfaceSystem(Central()).add_body(Body(period=2.0, radius=0.1), Surface(amplitude=0.25, normalize=False))
f = em(s)(1.0)
assert abs(float(f[1])) < 1e-6, f
""")

bug("l04-simpson-swap", "L04",
    [(LTR, "        stencil = stencil.at[1:-1:2].set(4)\n        stencil = stencil.at[2:-1:2].set(2)\n",
      "        stencil = stencil.at[1:-1:2].set(2)\n        stencil = stencil.at[2:-1:2].set(4)\n")],
    "order=2 for a light curve that isn't linear within an exposure",
    "the weights of Simpson's rule are swapped: constant and linear light curves don't notice",
    H + """
from jaxoplanet.light_curves.transforms import integrate
f = integrate(lambda t: (t.magnitude - 0.1) ** 2, exposure_time=0.6, order=2)
a = float(f(1.0)); e = 0.9**2 + 0.6**2 / 12
assert abs(a - e) < 1e-6, (a, e)
""")

bug("l06-kwargs", "L06",
    [(LUT, "                return func(time_magnitude, *args, **kwargs)\n", "                return func(time_magnitude, *args)\n")],
    "a light curve of plain number times that takes keyword arguments", "keyword arguments are dropped",
    H + """
from jaxoplanet.light_curves.utils import vectorize
f = vectorize(lambda t, a=1.0: a * t)
assert np.allclose(f(jnp.arange(3.0), a=2.0), 2 * np.arange(3.0))
""")

# --------------------------------------------------------- G02, G03
YLM_ = "starry/ylm.py"
bug("g02-ttv-host", "G02",
    [(TTV, "                jnp.atleast_1d(ensure_quantity(tt, ureg.d).magnitude)\n                for tt in transit_times\n",
      "                np.atleast_1d(ensure_quantity(tt, ureg.d).magnitude)\n                for tt in transit_times\n"),
     (TTV, "import jax\nimport jax.numpy as jnp\n", "import jax\nimport jax.numpy as jnp\nimport numpy as np\n")],
    "transit times that are parameters of a jitted or differentiated model", "the transit times pass through numpy",
    H + """
from jaxoplanet.orbits.ttv import TTVOrbit
f = lambda q: TTVOrbit(transit_times=[q], duration=0.2, impact_param=0.1, radius_ratio=0.1).relative_position(0.3)[0].magnitude
q = jnp.array([0.0, 3.1, 6.0])
assert np.allclose(jax.jit(f)(q), f(q))
""")

bug("g02-zero-norm", "G02",
    [(YLM_, "        data = {k: v / self.data[(0, 0)] for k, v in self.data.items()}\n",
      "        norm = self.data[(0, 0)]\n        if norm == 0:\n            raise ValueError(\"the (0, 0) coefficient is zero\")\n        data = {k: v / norm for k, v in self.data.items()}\n")],
    "a map whose Y00 coefficient is a traced parameter", "a validation branches on the value of a coefficient",
    H + """
from jaxoplanet.starry import Ylm
f = lambda a: Ylm({(0, 0): a, (1, 0): 1.0}).normalize().todense()
assert np.allclose(jax.jit(f)(2.0), [1, 0, 0.5, 0])
""")

bug("g02-phase-static", "G02",
    [("starry/surface.py", "    phase: Array\n", "    phase: Array = eqx.field(static=True)\n")],
    "a surface passed to a jitted function, with a phase that is an array", "the phase is static metadata of the pytree: not a parameter anymore",
    H + """
from jaxoplanet.starry import Surface
s = Surface(phase=jnp.array(0.3), period=2.0)
f = lambda s: s.rotational_phase(0.25)
g = jax.grad(f)(s) if all(jnp.issubdtype(jnp.asarray(x).dtype, jnp.floating) for x in jax.tree_util.tree_leaves(s)) else None
assert len([x for x in jax.tree_util.tree_leaves(s) if np.allclose(x, 0.3)]) == 1
assert np.allclose(jax.jit(f)(s), f(s))
""")

bug("g02-flat-orbit", "G02",
    [(KEP, "        if body.impact_param is not None:\n            self.impact_param = body.impact_param\n",
      "        if body.impact_param is not None and body.impact_param.magnitude != 0:\n            self.impact_param = body.impact_param\n")],
    "an impact parameter that is a traced parameter", "the orbit branches on the value of the impact parameter",
    O + """
f = lambda b: OrbitalBody(Central(), Body(period=3.0, impact_param=b)).relative_position(0.1)[1].magnitude
assert np.allclose(jax.jit(f)(0.3), f(0.3))
""")


bug("g03-spot-cache", "G03",
    [(YLM_, "    B, theta, indices = Bp(ydeg, npts=npts)\n",
      "    if ydeg not in _SPOT_BASIS:\n        _SPOT_BASIS[ydeg] = Bp(ydeg, npts=npts)\n    B, theta, indices = _SPOT_BASIS[ydeg]\n"),
     (YLM_, "def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:\n", "_SPOT_BASIS = {}\n\n\ndef ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:\n")],
    "spots expanded with two resolutions in one session", "the cached expansion is not keyed by the number of points",
    H + """
from jaxoplanet.starry.ylm import ylm_spot
import subprocess, sys
a = ylm_spot(5, npts=300)(0.5, 0.4).todense()
b = ylm_spot(5, npts=20)(0.5, 0.4).todense()
c = subprocess.run([sys.executable, "-c", "import numpy as np; from jaxoplanet.starry.ylm import ylm_spot; print(*np.asarray(ylm_spot(5, npts=20)(0.5, 0.4).todense()))"], capture_output=True, text=True).stdout
assert np.allclose(b, [float(x) for x in c.split()])
""")

bug("g03-normalize-inplace", "G03",
    [(YLM_, "        data = {k: v / self.data[(0, 0)] for k, v in self.data.items()}\n",
      "        data = self.data\n        norm = data[(0, 0)]\n        for k in data:\n            data[k] = data[k] / norm\n")],
    "a Ylm object used again after it was normalized", "normalize modifies the expansion it is called on",
    H + """
from jaxoplanet.starry import Ylm
y = Ylm({(0, 0): 2.0, (1, 0): 1.0})
y.normalize()
assert np.allclose(y.todense(), [2, 0, 1, 0])
""")

bug("g03-system-append", "G03",
    [("starry/orbit.py", "        bodies = list(zip(self.bodies, self.body_surfaces, strict=False)) + [\n            (body, surface)\n        ]\n",
      "        bodies = list(zip(self.bodies, self.body_surfaces, strict=False))\n        bodies.append((body, surface))\n        if surface is not None and surface.period is None:\n            object.__setattr__(surface, \"period\", self.central_surface.period)\n")],
    "a surface without a rotation period used in a system whose central rotates", "add_body modifies the surface it is given",
    H + """
from jaxoplanet.starry import Surface
from jaxoplanet.starry.orbit import SurfaceSystem
from jaxoplanet.orbits.keplerian import Central, Body
s = Surface()
SurfaceSystem(Central(), Surface(period=3.0)).add_body(Body(period=1.0), s)
assert s.period is None
""")

bug("g03-grid-leak", "G03",
    [("starry/utils.py", "@partial(jax.jit, static_argnums=(0))\ndef ortho_grid(res: int):\n", "@lru_cache\n@partial(jax.jit, static_argnums=(0))\ndef ortho_grid(res: int):\n"),
     ("starry/utils.py", "from functools import partial\n", "from functools import lru_cache, partial\n")],
    "a map rendered inside a jitted function and again outside of it", "a grid cached during tracing leaks into later calls",
    H + """
from jaxoplanet.starry import Surface, Ylm
s = Surface(y=Ylm({(0, 0): 1.0, (1, 1): 0.1}))
a = jax.jit(lambda t: s.render(t, 23))(0.1)
b = s.render(0.1, 23)
assert np.allclose(a, b, equal_nan=True)
""")

bug("k13-negative-epochs", "K13",
    [("orbits/ttv.py", "        indices = jnp.arange(i_min, i_max + 1)\n", "        indices = jnp.arange(max(i_min, 0), i_max + 1)\n")],
    "an interval that starts before the reference transit", "transits before the reference transit are left out",
    H + """
from jaxoplanet.orbits.ttv import compute_expected_transit_times
(t,) = compute_expected_transit_times(-10.0, 10.0, jnp.array([3.0]), jnp.array([1.0]))
assert np.allclose(t, [-8, -5, -2, 1, 4, 7, 10])
""")

bug("k13-longest-period", "K13",
    [("orbits/ttv.py", "        i_max = int(jnp.floor((max_time - t0_val) / p))\n", "        i_max = int(jnp.floor((max_time - t0_val) / period[0]))\n")],
    "several planets with different periods", "the number of transits of every planet is that of the first one",
    H + """
from jaxoplanet.orbits.ttv import compute_expected_transit_times
a, b = compute_expected_transit_times(0.0, 20.0, jnp.array([9.0, 2.0]), jnp.array([1.0, 1.5]))
assert len(a) == 3 and len(b) == 10
""")

MPR = "starry/multiprecision/rotation.py"
bug("m01-inclination-cache", "M01",
    [(MPR, "            if (inc, obl) not in cache[l_max][name]:\n", "            if inc not in cache[l_max][name]:\n"),
     (MPR, "                cache[l_max][name][(inc, obl)] = R(\n", "                cache[l_max][name][inc] = R(\n"),
     (MPR, "            return cache[l_max][name][(inc, obl)]\n", "            return cache[l_max][name][inc]\n")],
    "two maps with the same inclination and different obliquities in one process",
    "the second map is tilted about the first one's axis",
    """
import numpy as np
from collections import defaultdict
from jaxoplanet.starry.multiprecision import mp
from jaxoplanet.starry.multiprecision.flux import flux
from jaxoplanet.starry.multiprecision.rotation import get_R
y = np.array([1.0, 0.1, 0.2, -0.3])
flux(1, 0, inc=mp.mpf(1.1), obl=mp.mpf(0.2))
a = flux(1, 0, inc=mp.mpf(1.1), obl=mp.mpf(0.7))(mp.mpf(2.5), mp.mpf(0.1), y)
b = flux(1, 0, inc=mp.mpf(1.1), obl=mp.mpf(0.7), cache=defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}}))(mp.mpf(2.5), mp.mpf(0.1), y)
assert abs(a - b) < 1e-10, (a, b)
""")

WIG = "starry/core/wigner3j.py"
bug("s08-wigner-sign", "S08",
    [(WIG, "    if (f[j_max] < 0.0 and (-1) ** (j2 - j3 + m2 + m3) > 0) or (\n        f[j_max] > 0.0 and (-1) ** (j2 - j3 + m2 + m3) < 0\n",
      "    sign = (-1) ** (j2 - j3)\n    if (f[j_max] < 0.0 and sign > 0) or (\n        f[j_max] > 0.0 and sign < 0\n")],
    "a product of two maps whose orders add up to an odd number", "the sign of the 3-j symbols with odd m1 is wrong",
    H + """
from jaxoplanet.starry import Ylm
from jaxoplanet.starry.core.basis import A1
from jaxoplanet.starry.core.polynomials import Pijk
a = Ylm({(0, 0): 1.0, (1, 1): 0.3, (1, 0): 0.2})
b = Ylm({(0, 0): 1.0, (1, 0): 0.4, (1, -1): 0.1})
def ev(y):
    p = Pijk.from_dense(np.asarray(A1(y.deg).todense() @ y.todense()), degree=y.deg)
    x, yy = 0.3, -0.4
    z = np.sqrt(1 - x * x - yy * yy)
    return sum(float(v) * x**i * yy**j * z**k for (i, j, k), v in p.data.items())
one = Ylm({(0, 0): 1.0})
k = ev(one * one) / ev(one) ** 2
assert np.isclose(ev(a * b), k * ev(a) * ev(b)), (ev(a * b), k * ev(a) * ev(b))
""")

bug("u01-interpolate-duration", "U01",
    [("light_curves/transforms.py", "@units.quantity_input(period=ureg.day, time_transit=ureg.day, duration=ureg.day)\n", "@units.quantity_input(period=ureg.day, time_transit=ureg.day)\n"),
     ("light_curves/transforms.py", "    time_grid = time_transit + duration * jnp.linspace(-0.5, 0.5, num_samples)\n",
      "    duration = getattr(duration, \"magnitude\", duration) * ureg.day\n    time_grid = time_transit + duration * jnp.linspace(-0.5, 0.5, num_samples)\n")],
    "an interpolation window given in another unit of time", "the window's number is read as days",
    H + """
from jaxoplanet.light_curves.transforms import interpolate
f = lambda t: jnp.where(jnp.abs(t.magnitude) < 0.05, -0.01 * (1 - 20 * jnp.abs(t.magnitude)), 0.0)
g = interpolate(f, period=10.0, time_transit=0.0, num_samples=51, duration=6.0 * ureg.hour)
h = interpolate(f, period=10.0, time_transit=0.0, num_samples=51, duration=0.25)
t = jnp.linspace(-0.1, 0.1, 33)
assert np.allclose(g(t), h(t))
""")

bug("u01-body-radius", "U01",
    [
     (KEP, "                r0 = semimajor.to(ureg.au).magnitude * parallax\n", "                r0 = semimajor.to(ureg.au).magnitude * parallax.magnitude * ureg.arcsec\n"),
     (KEP, "        mass=ureg.M_sun,\n        parallax=ureg.arcsec,\n    )\n    def _get", "        mass=ureg.M_sun,\n    )\n    def _get")],
    "a parallax given in milliarcseconds to the position of a body", "the parallax's number is read as arcseconds",
    O + """
b = System(Central()).add_body(period=10.0, radius=0.1).bodies[0]
x = b.relative_position(1.0, parallax=50.0 * ureg.milliarcsecond)[0]
y = b.relative_position(1.0, parallax=0.05)[0] if False else b.relative_position(1.0, parallax=0.05 * ureg.arcsec)[0]
assert np.isclose(x.to(ureg.arcsec).magnitude, y.to(ureg.arcsec).magnitude), (x, y)
""")

bug("g01-no-occultor", "G01",
    [("starry/core/solution.py", "    delta = (b - r) / (2 * jnp.where(r_cond, 1, r))\n", "    delta = (b - r) / (2 * r)\n")],
    "the gradient of a surface light curve with an occultor of zero radius in front of the disc",
    "the derivatives are not finite although the value is",
    H + """
from jaxoplanet.starry.core.solution import solution_vector
f = lambda b, r: solution_vector(2, order=20)(b, r).sum()
assert np.isfinite(f(0.3, 0.0))
assert np.all(np.isfinite(jax.grad(f, (0, 1))(0.3, 0.0)))
""")

bug("s02-default-spin", "S02",
    [("starry/core/rotation.py", "    theta = 0.0 if theta is None else theta\n    theta_z = 0.0 if theta_z is None else theta_z\n\n    f = 0.5", "    f = 0.5")],
    "the full rotation with only one of the spin and position angles given", "the given one is ignored",
    H + """
from jaxoplanet.starry.core.rotation import full_rotation_axis_angle as f
assert np.allclose(f(0.4, 0.2, 0.7, None), f(0.4, 0.2, 0.7, 0.0))
assert np.allclose(f(0.4, 0.2, None, 0.7), f(0.4, 0.2, 0.0, 0.7))
""")

bug("k01-density-vector", "K01",
    [(KEP, "            jnp.ndim(arg) != 0 for arg in (mass, radius, density) if arg is not None\n",
      "            jnp.ndim(arg) != 0 for arg in (mass, radius) if arg is not None\n")],
    "a central body given a vector of densities", "it is accepted with mass and radius of different shapes",
    O + """
try:
    Central(radius=1.0, density=jnp.array([0.1, 0.2]))
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
""")

bug("k05-peri-semimajor", "K05",
    [(KEP, "            self.time_transit = body.time_peri - self.time_ref\n",
      "            self.time_transit = body.time_peri + M0 * jnpu.sqrt(\n                self.semimajor**3 / (ureg.gravitational_constant * central.mass)\n            )\n")],
    "a massive body given by its time of periastron", "the transit is timed with the mean motion of a test particle",
    O + """
b = System(Central()).add_body(period=10.0, time_peri=1.0, eccentricity=0.3, omega_peri=0.4, mass=0.2).bodies[0]
x, y, z = b.relative_position(1.0)
d = np.sqrt((x**2 + y**2 + z**2).magnitude)
assert np.isclose(d, b.semimajor.magnitude * 0.7, rtol=1e-6), d
""")

bug("k09-circular-rotation", "K09",
    [(KEP, "            x1 = self.cos_omega_peri * x - self.sin_omega_peri * y\n            y1 = self.sin_omega_peri * x + self.cos_omega_peri * y\n",
      "            # the argument of periastron of a circular orbit is arbitrary\n            ecc = self.eccentricity.magnitude > 0\n            cosw = jnp.where(ecc, self.cos_omega_peri.magnitude, 1.0)\n            sinw = jnp.where(ecc, self.sin_omega_peri.magnitude, 0.0)\n            x1 = cosw * x - sinw * y\n            y1 = sinw * x + cosw * y\n")],
    "an eccentricity of exactly zero with an argument of periastron", "the planet is ahead or behind by the argument of periastron",
    O + """
a = System(Central()).add_body(period=10.0, eccentricity=0.0, omega_peri=0.4).bodies[0]
b = System(Central()).add_body(period=10.0).bodies[0]
for u, v in zip(a.relative_position(1.3), b.relative_position(1.3)):
    assert np.isclose(u.magnitude, v.magnitude)
""")

VIZ = H + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from jaxoplanet.starry import Surface
from jaxoplanet.starry.utils import graticule
from jaxoplanet.starry.visualization import show_surface
def lines(f, *args, **kwargs):
    fig, ax = plt.subplots()
    plt.sca(ax)
    f(*args, ax=ax, **kwargs)
    out = [np.array(l.get_xydata(), float) for l in ax.lines]
    plt.close(fig)
    return out
"""

bug("s09-graticule-phase", "S09",
    [("starry/visualization.py", "            surface.obl,\n            phase,\n", "            surface.obl,\n            theta,\n")],
    "a drawn surface with a phase", "the graticule is not turned with the map under it",
    VIZ + """
a = lines(show_surface, Surface(phase=0.4), res=10)
b = lines(graticule, np.pi / 2, 0.0, 0.4)
assert len(a) == len(b)
for u, v in zip(a, b):
    assert np.allclose(u, v, equal_nan=True)
""")

bug("s09-meridians", "S09",
    [("starry/utils.py", "    _phi = np.linspace(0, 2 * np.pi, n_lon + 1)[0:-1]\n", "    _phi = np.linspace(0, 2 * np.pi, n_lon)\n")],
    "counting the meridians of a graticule", "the meridians are unevenly spaced: the last one is drawn on the first",
    VIZ + """
from jaxoplanet.starry.utils import lon_lat_lines
_, lon = lon_lat_lines(n=(4, 8), pts=101)
assert lon.shape == (8, 3, 50)
a = np.sort(np.arctan2(lon[:, 1, 25], lon[:, 0, 25]) % (2 * np.pi - 1e-9))
assert np.allclose(np.diff(a), np.pi / 4), a
""")

bug("s09-tilt-axis", "S09",
    [("starry/utils.py", "    u = [np.cos(obl), np.sin(obl), 0]\n", "    u = [1.0, 0.0, 0.0]\n"),],
    "a graticule with an inclination other than 90 degrees and an obliquity", "the body is tilted about the horizontal axis and not about its own equator's node",
    VIZ + """
from jaxoplanet.starry.utils import rotation
pole = rotation(1.0, 0.5, 0.0).apply([0, 0, -1.0])
assert np.allclose(pole, [-np.sin(0.5) * np.sin(1.0), np.cos(0.5) * np.sin(1.0), np.cos(1.0)]), pole
""")

C = H + """
from jaxoplanet.test_utils import assert_quantity_allclose as close, assert_quantity_pytree_allclose as trees
def rejected(f, *args, **kwargs):
    try:
        f(*args, **kwargs)
    except Exception:
        return True
    return False
"""

bug("u05-structure", "U05",
    [("test_utils.py", "    assert treedef1 == treedef2\n", "    assert type(calculated) is type(expected)\n")],
    "two containers of the same type and of different length or keys", "the leaves that have no counterpart are not compared",
    C + """
trees((jnp.ones(2), jnp.ones(3)), (jnp.ones(2), jnp.ones(3)))
assert rejected(trees, {"a": jnp.ones(2), "b": jnp.ones(2)}, {"a": jnp.ones(2)})
""")

bug("u05-dimension-only", "U05",
    [("test_utils.py", "        assert calculated.units == expected.units\n", "        assert calculated.units.dimensionality == expected.units.dimensionality\n")],
    "quantities with the same magnitude in different units of one dimension", "1 m is accepted for 1 km",
    C + """
close(1.0 * ureg.m, 1.0 * ureg.m)
close(1000.0 * ureg.m, 1.0 * ureg.km, convert=True)
assert rejected(close, jnp.array(1.0) * ureg.m, jnp.array(1.0) * ureg.km)
""")
