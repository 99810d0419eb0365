"""G02: jit, vmap and differentiation commute with the public API.

Scenario programs (clients of the library) are interpreted twice: with their
inputs as plain symbolic values, and with their inputs as tracers of a modelled
jax transformation.  An effect analysis reports every construct of the
repository reached on the way that needs the concrete value of a tracer (Python
branch, float()/int(), numpy call, data-dependent shape, static argument, ...)
or that has no derivative rule, and the value graphs of the two runs are
compared."""
from __future__ import annotations

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, Undecided
from ..interp import AbstractBranch, fmt_site
from ..values import AnalysisError, Arr, PyRaise

PRE = """
import jax
import jax.numpy as jnp
import numpy as np
from jaxoplanet.orbits.keplerian import Central, Body, OrbitalBody, System
from jaxoplanet.orbits.transit import TransitOrbit
from jaxoplanet.orbits.ttv import TTVOrbit
from jaxoplanet.light_curves.limb_dark import light_curve as limb_dark
from jaxoplanet.light_curves.emission import light_curve as emission
from jaxoplanet.light_curves import transforms
from jaxoplanet.core.limb_dark import light_curve as core_limb_dark
from jaxoplanet.core.kepler import kepler
from jaxoplanet.object_stack import ObjectStack
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm, ylm_spot
from jaxoplanet.starry.orbit import SurfaceSystem
from jaxoplanet.starry.light_curves import light_curve as starry_lc, surface_light_curve
from jaxoplanet.starry.doppler import radial_velocity as starry_rv, surface_radial_velocity
from jaxoplanet.starry.core.rotation import left_project, right_project, dot_rotation_matrix, compute_rotation_matrices
from jaxoplanet.starry.core.solution import solution_vector
from jaxoplanet.starry.core.polynomials import Pijk, polynomial_product_matrix
from jaxoplanet.starry.core.basis import poly_basis
import jaxoplanet.units as units
from jaxoplanet.units import unit_registry as ureg

def raw(x):
    return x.magnitude if hasattr(x, "magnitude") else x

def leaves(x):
    return jax.tree_util.tree_leaves(x)
"""

# name: (argument shapes, body of f, thorough only)
S = {}


def s(name, args, body, thorough=False, contracts=(), static=()):
    S[name] = (args, body, thorough, contracts)


ORB = "o = OrbitalBody(Central(mass=m, radius=1.1), Body(period=p, eccentricity=e, omega_peri=w, time_transit=t0, inclination=i, mass=.1, radius=r))"
s("central", dict(m=(), r=()), "return leaves(Central(mass=m, radius=r).density)")
s("central(density)", dict(m=(), d=()), "c = Central(mass=m, density=d)\nreturn leaves((c.radius, c.density, c.shape))")
s("central(period, semimajor)", dict(p=(), a=(), r=()), "return leaves(Central.from_orbital_properties(period=p, semimajor=a, radius=r))")
s("orbit(eccentric)", dict(m=(), p=(), e=(), w=(), t0=(), i=(), r=(), t=(2,)), ORB + "\nreturn leaves((o.relative_position(t), o.position(t), o.central_velocity(t), o.relative_velocity(t), o.radial_velocity(t), o.relative_angles(t)))")
s("orbit(periastron)", dict(p=(), e=(), w=(), t0=(), b=(), t=(2,)), "o = OrbitalBody(Central(), Body(period=p, eccentricity=e, omega_peri=w, time_peri=t0, impact_param=b))\nreturn leaves((o.relative_position(t), o.time_transit, o.inclination))")
s("orbit(sin, cos)", dict(a=(), e=(), sw=(), cw=(), sn=(), cn=(), t=(2,)), "o = OrbitalBody(Central(), Body(semimajor=a, eccentricity=e, sin_omega_peri=sw, cos_omega_peri=cw, sin_asc_node=sn, cos_asc_node=cn, mass=.1))\nreturn leaves((o.position(t), o.omega_peri))")
s("orbit(parallax)", dict(p=(), q=(), i=(), t=()), "o = OrbitalBody(Central(), Body(period=p, inclination=i, parallax=q))\nreturn leaves((o.relative_position(t), o.position(t)))")
s("orbit(K)", dict(p=(), K=(), e=(), w=(), t=(2,)), "o = OrbitalBody(Central(), Body(period=p, eccentricity=e, omega_peri=w, radial_velocity_semiamplitude=K))\nreturn leaves((o.radial_velocity(t), o.central_velocity(t)))")
s("system", dict(m=(), p=(), q=(), t0=(), r=(), t=(2,)), "x = System(Central(mass=m, radius=1.)).add_body(period=p, time_transit=t0, radius=r).add_body(period=q, radius=.1)\nreturn leaves((x.relative_position(t), x.position(t), x.radius, x.central_radius))")
s("system(mixed bodies)", dict(p=(), e=(), w=(), q=(), t=(2,)), "x = System(Central()).add_body(period=p, radius=.1, eccentricity=e, omega_peri=w, mass=.1).add_body(period=q, radius=.1, mass=.2)\nreturn leaves((x.relative_position(t), x.radial_velocity(t)))")
s("kepler", dict(M=(), e=()), "return kepler(M, e)")
s("transit(duration)", dict(p=(), d=(), t0=(), b=(), r=(), t=(2,)), "o = TransitOrbit(period=p, duration=d, time_transit=t0, impact_param=b, radius_ratio=r)\nreturn leaves((o.relative_position(t), o.speed, o.duration, o.radius))")
s("transit(speed)", dict(p=(), d=(), t0=(), b=(), r=(), t=(2,)), "o = TransitOrbit(period=p, speed=d, time_transit=t0, impact_param=b, radius_ratio=r)\nreturn leaves((o.relative_position(t), o.speed, o.duration, o.radius))")
s("ttv(ttvs)", dict(p=(), t0=(), q=(3,), t=(2,)), "o = TTVOrbit(period=p, time_transit=t0, duration=.2, impact_param=.1, radius_ratio=.1, ttvs=(q,))\nreturn leaves((o.relative_position(t), o.transit_times))")
s("ttv(times)", dict(q=(3,), d=(), t=(2,)), "o = TTVOrbit(transit_times=(q,), duration=d, impact_param=.1, radius_ratio=.1)\nreturn leaves((o.relative_position(t), o.period, o.time_transit))")
s("ttv(times, indices)", dict(q=(3,), t=(2,)), "o = TTVOrbit(transit_times=(q,), transit_inds=(np.array([0, 1, 3]),), duration=.2, impact_param=.1, radius_ratio=.1)\nreturn leaves((o.relative_position(t), o.period))")
s("ttv(two planets)", dict(q=(3,), v=(2,), t=()), "o = TTVOrbit(transit_times=(q, v), duration=np.array([.2, .3]), impact_param=np.array([.1, .3]), radius_ratio=np.array([.1, .2]))\nreturn leaves((o.relative_position(t), o.period))")
s("core limb darkening", dict(u=(2,), b=(), r=()), "return core_limb_dark(u, b, r, order=4)")
s("core limb darkening (uniform)", dict(b=(), r=()), "return core_limb_dark(jnp.zeros(0), b, r, order=4)")
s("limb dark light curve(system)", dict(p=(), r=(), u=(2,), t=(2,)), "return limb_dark(System(Central()).add_body(period=p, radius=r), u, order=4)(t)")
s("limb dark light curve(scalars)", dict(d=(), r=(), u=(), v=(), t=()), "return limb_dark(TransitOrbit(period=3., duration=d, radius_ratio=r), u, v, order=4)(t)")
s("limb dark light curve(list)", dict(d=(), u=(), v=(), t=()), "return limb_dark(TransitOrbit(period=3., duration=d, radius_ratio=.1), [u, v], order=4)(t)")
s("limb dark light curve(ttv)", dict(q=(3,), u=(), t=()), "return limb_dark(TTVOrbit(transit_times=(q,), duration=.2, impact_param=.1, radius_ratio=.1), u, order=4)(t)")
s("integrate", dict(e=(), t0=(), t=(2,)), "return [transforms.integrate(lambda x: jnp.sin(raw(x) - t0), exposure_time=e, order=k, num_samples=5)(t) for k in (0, 1, 2)]")
s("integrate(no samples)", dict(e=(), t0=(), t=()), "return transforms.integrate(lambda x: jnp.sin(raw(x) - t0), exposure_time=e, order=1, num_samples=1)(t)")
s("interpolate", dict(p=(), t0=(), d=(), a=(), t=(2,)), "return transforms.interpolate(lambda x: jnp.sin(a * raw(x)), period=p, time_transit=t0, duration=d, num_samples=4)(t)")
SURF = "x = Surface(y=Ylm({(0, 0): y0, (1, 1): y1, (2, -1): y2}), u=(u,), inc=i, obl=o, period=p, phase=ph, amplitude=A)"
SA = dict(y0=(), y1=(), y2=(), u=(), i=(), o=(), p=(), ph=(), A=())
s("surface light curve(parameters)", dict(y0=(), y1=(), u=(), i=(), o=(), A=(), th=()), "x = Surface(y=Ylm({(0, 0): y0, (1, 1): y1}), u=(u,), inc=i, obl=o, amplitude=A)\nreturn surface_light_curve(x, r=.2, x=.3, y=.1, z=1., theta=th, order=4), surface_light_curve(x, theta=th, order=4)")
s("surface light curve(occultor)", dict(r=(), xo=(), yo=(), zo=(), th=()), "x = Surface(y=Ylm({(0, 0): 1., (1, 1): .2}), u=(.1,), inc=1., obl=.3)\nreturn surface_light_curve(x, r=r, x=xo, y=yo, z=zo, theta=th, order=4)")
s("surface light curve(uniform)", dict(r=(), xo=(), zo=(), u=()), "return surface_light_curve(Surface(u=(u,)), r=r, x=xo, y=.1, z=zo, order=4), surface_light_curve(Surface(), r=r, x=xo, y=.1, z=zo, order=4)")
s("surface light curve(dense map)", dict(y=(4,), th=()), "return surface_light_curve(Surface(y=Ylm.from_dense(y)), theta=th, order=4)")
s("surface velocity", dict(y1=(), u=(), i=(), o=(), p=(), xo=(), zo=(), th=()), "x = Surface(y=Ylm({(0, 0): 1., (1, 1): y1}), u=(u,), inc=i, obl=o, period=p)\nreturn surface_radial_velocity(x, r=.2, x=xo, y=.1, z=zo, theta=th, order=4), surface_radial_velocity(x, theta=th, order=4)", thorough=True)
s("surface intensity(point)", dict(la=(), lo=()), "return Surface(y=Ylm({(0, 0): 1., (1, 1): .2, (2, -1): .3}), inc=1., obl=.2, u=(.1,)).intensity(la, lo)")
s("surface intensity(parameters)", dict(y0=(), y1=(), y2=(), u=(), i=(), o=(), A=()), "return Surface(y=Ylm({(0, 0): y0, (1, 1): y1, (2, -1): y2}), u=(u,), inc=i, obl=o, amplitude=A).intensity(.1, .2)")
s("surface render", dict(y1=(), i=(), o=(), u=(), th=()), "return Surface(y=Ylm({(0, 0): 1., (1, 1): y1}), inc=i, obl=o, u=(u,)).render(th, res=3)")
s("surface render(velocity)", dict(i=(), o=(), u=(), p=(), th=()), "return Surface(y=Ylm({(0, 0): 1., (1, 1): .1}), inc=i, obl=o, u=(u,), period=p).render(th, res=3, rv=True)")
s("surface phase", dict(p=(), ph=(), t=(2,)), "return Surface(period=p, phase=ph).rotational_phase(t)")
s("ylm product", dict(a=(4,), b=(9,)), "x, y = Ylm.from_dense(a), Ylm.from_dense(b)\nreturn leaves(((x * y).todense(), (x * 2.).todense(), (y / a[1]).todense() if hasattr(y, '__truediv__') else a))")
s("ylm sparse product", dict(a=(), b=(), c=()), "x = Ylm({(0, 0): a, (1, -1): b})\ny = Ylm({(0, 0): 1., (2, 2): c})\nreturn (x * y).todense(), (y * x).todense(), x.normalize().todense()")
s("ylm from limb darkening", dict(u=(2,)), "return Ylm.from_limb_darkening(u).todense()")
s("ylm from limb darkening(tuple)", dict(u=(), v=()), "return Ylm.from_limb_darkening((u, v)).todense()")
s("ylm spot", dict(c=(), r=(), la=(), lo=()), "return ylm_spot(2, npts=5)(c, r, la, lo).todense()")
s("rotation", dict(x=(), y=(), z=(), th=(), v=(9,)), "return dot_rotation_matrix(2, x, y, z, th)(v)")
s("rotation(z)", dict(z=(), th=(), v=(9,)), "return dot_rotation_matrix(2, None, None, z, th)(v), dot_rotation_matrix(2, None, None, 1.0, th)(v)")
s("rotation matrices", dict(x=(), y=(), z=(), th=()), "return leaves(compute_rotation_matrices(2, x, y, z, th))")
s("projection", dict(i=(), o=(), th=(), thz=(), v=(9,)), "return left_project(2, i, o, th, thz, v), right_project(2, i, o, th, thz, v)")
s("solution vector", dict(b=(), r=()), "return solution_vector(2, order=4)(b, r)")
s("polynomial product matrix", dict(p=(4,)), "return polynomial_product_matrix(p, 1)")
s("polynomials", dict(p=(4,), q=(9,)), "a, b = Pijk.from_dense(p), Pijk.from_dense(q)\nreturn (a * b).todense(), (a + b).todense(), (a + 1.).todense() if False else a.todense()")
s("polynomial basis", dict(x=(), y=(), z=()), "return poly_basis(3)(x, y, z)")
s("starry system", dict(r=(), m=(), p=(), A=(), t=(2,)), "y = Ylm({(0, 0): 1., (1, 1): .2})\nx = SurfaceSystem(Central(mass=1. + m, radius=1.), Surface(y=y, period=3., u=(.1,))).add_body(Body(radius=r, mass=m, period=p), Surface(y=y, period=p, inc=1., amplitude=A, normalize=False))\nreturn starry_lc(x, order=4)(t)", thorough=True)
s("starry system(uniform)", dict(r=(), p=(), A=(), t=()), "x = SurfaceSystem(Central(), Surface(period=3.)).add_body(Body(radius=r, period=p, mass=.1), Surface(amplitude=A, normalize=False)).add_body(Body(radius=.1, period=2., mass=.1))\nreturn starry_lc(x, order=4)(t), starry_rv(x, order=4)(t)")
s("emission", dict(r=(), p=(), A=(), t=(2,)), "x = SurfaceSystem(Central(), Surface()).add_body(Body(radius=r, period=p), Surface(amplitude=A, normalize=False))\nreturn emission(x)(t)")
s("units", dict(a=()), "@units.quantity_input(x=ureg.m)\ndef g(x):\n    return x\nreturn leaves(g(a).to('km'))")

# objects crossing a transformation boundary
OBJ = {}


def o(name, args, make, use, thorough=False):
    OBJ[name] = (args, make, use, thorough)


o("Central", dict(m=(), r=()), "Central(mass=m, radius=r)", "leaves((x.density, x.mass, x.shape))")
o("Body", dict(p=(), e=(), w=(), r=()), "Body(period=p, eccentricity=e, omega_peri=w, radius=r)", "leaves(OrbitalBody(Central(), x).relative_position(.3))")
o("OrbitalBody", dict(p=(), m=(), r=()), "OrbitalBody(Central(), Body(period=p, mass=m, radius=r))", "leaves((x.relative_position(.3), x.radial_velocity(.3), x.radius, x.shape))")
o("System", dict(p=(), q=(), r=()), "System(Central()).add_body(period=p, radius=r).add_body(period=q, radius=.2)", "leaves((x.relative_position(.3), x.radius, x.shape, [b.period for b in x.bodies]))")
o("System(mixed)", dict(p=(), q=(), r=()), "System(Central()).add_body(period=p, radius=r).add_body(period=q, mass=.1)", "leaves((x.relative_position(.3), [b.mass for b in x.bodies]))")
o("TransitOrbit", dict(d=(), r=()), "TransitOrbit(period=3., duration=d, radius_ratio=r)", "leaves((x.relative_position(.3), x.shape))")
o("TTVOrbit", dict(q=(3,), d=()), "TTVOrbit(transit_times=(q,), duration=d, radius_ratio=.1)", "leaves((x.relative_position(.3), x.shape))")
o("Surface", dict(y0=(), y1=(), u=(), i=(), ph=(), A=()), "Surface(y=Ylm({(0, 0): y0, (2, 1): y1}), u=(u,), inc=i, phase=ph, amplitude=A, period=2., normalize=False)", "leaves((x.intensity(.1, .2), x.deg, x.rotational_phase(.3), x.amplitude))")
o("Ylm", dict(a=(), b=()), "Ylm({(0, 0): a, (3, 1): b})", "leaves((x.todense(), x.deg, x.normalize().todense()))")
o("Pijk", dict(a=(9,)), "Pijk.from_dense(a)", "leaves(((x * x).todense(), x.degree))")
o("SurfaceSystem", dict(p=(), A=(), r=()), "SurfaceSystem(Central(), Surface(amplitude=A, normalize=False)).add_body(Body(radius=r, period=p), Surface(amplitude=.2, normalize=False)).add_body(Body(radius=.1, period=2.))", "leaves((x.relative_position(.3), [s.amplitude for s in x.body_surfaces if s is not None], x.central_surface.amplitude))")
o("ObjectStack", dict(p=(), q=()), "ObjectStack(*System(Central()).add_body(period=p).add_body(period=q).bodies)", "leaves(x.vmap(lambda b: b.relative_position(.3))())")


def program(args, body):
    pars = ", ".join(args)
    return PRE + f"\ndef f({pars}):\n" + "\n".join("    " + l for l in body.split("\n")) + "\n\nf_jit = jax.jit(f)\nf_vmap = jax.vmap(f)\n"


def inputs(ctx, args, suffix=""):
    return [ctx.V(n + suffix) if sh == () else ctx.arr(n + suffix, sh) for n, sh in args.items()]


def repo_events(ctx, kinds):
    return [e for e in ctx.it.events if e.kind in kinds and e.site and e.site[0] != "<client>"]


EV = ("concretisation", "nondifferentiable")


def guarded(ctx, fn, how):
    """run fn; report the first offending construct met"""
    try:
        r = fn()
    except (AbstractBranch, PyRaise, AnalysisError) as e:
        ev = repo_events(ctx, EV)
        if not ev and isinstance(e, PyRaise):
            raise Refuted(f"{how}: the code raises {e.name}: {e.msg}", site=e.site)
        if not ev:
            raise
    ev = repo_events(ctx, EV)
    if ev:
        e = ev[0]
        raise Refuted(f"{how}: {e.text}", site=e.site)
    return r


def fresh(args, body, contracts):
    ctx = Ctx(*contracts)
    ns = ctx.client(program(args, body))
    return ctx, ns


def G02(run: Run):
    for name, (args, body, thorough, contracts) in S.items():
        if thorough and run.tier != "thorough":
            continue
        scenario(run, name, args, body, contracts)
    for name, (args, make, use, thorough) in OBJ.items():
        if thorough and run.tier != "thorough":
            continue
        boundary(run, name, args, make, use)


def scenario(run, name, args, body, contracts):
    eager = {}

    def base():
        ctx, ns = fresh(args, body, contracts)
        r = ctx.call(ns["f"], *inputs(ctx, args))
        eager["r"] = ctx.flat(r)
        eager["ctx"] = ctx
        run.absorb(ctx)
        return "holds"

    rec = run.ob(f"{name}: eager", base, rule="the scenario runs on plain values")

    def want():
        if "r" not in eager:
            raise Undecided("eager run not available")
        return eager["r"]

    def jit():
        ctx, ns = fresh(args, body, contracts)
        j = ns["f_jit"]
        r = guarded(ctx, lambda: ctx.call(j, *inputs(ctx, args)), "under jit")
        return run.equal(ctx, ctx.flat(r), want(), what=f"{name} under jit", dom=Dom())

    def vmap():
        ctx, ns = fresh(args, body, contracts)
        v = ns["f_vmap"]
        rows = [inputs(ctx, args, f"@{k}") for k in range(2)]
        np_ = ctx.it.models.np
        r = guarded(ctx, lambda: ctx.call(v, *[np_.f_stack([np_.A(a), np_.A(b)], 0) for a, b in zip(*rows)]), "under vmap")
        lv, _ = ctx.it.models.flatten(r)
        for k in range(2):
            e = ctx.call(ns["f"], *rows[k])
            le, _ = ctx.it.models.flatten(e)
            if len(le) != len(lv):
                raise Refuted(f"{name}: vmap returns {len(lv)} arrays, the function {len(le)}")
            for a, b in zip(lv, le):
                st = run.equal(ctx, ctx.flat(ctx.it.models.elem_or(np_.A(a), k)), ctx.flat(b), what=f"{name} under vmap, row {k}", dom=Dom())
        return st

    def diff():
        ctx, ns = fresh(args, body, contracts)
        ctx.it.models.diff_ids.append("jvp")
        ins = []
        for n, sh in args.items():
            a = ctx.V(n) if sh == () else ctx.arr(n, sh)
            a = Arr(a.d, a.dt, "jax", frozenset({"jvp"}))
            ins.append(a)
        try:
            r = guarded(ctx, lambda: ctx.call(ns["f"], *ins), "under differentiation")
        finally:
            ctx.it.models.diff_ids.pop()
        return run.equal(ctx, ctx.flat(r), want(), what=f"{name} under differentiation", dom=Dom())

    if rec and rec["status"] == "refuted":
        return
    run.ob(f"{name}: jit", jit, rule="jit(f)(x) = f(x), no concretisation of a tracer")
    run.ob(f"{name}: vmap", vmap, rule="vmap(f)(xs)[k] = f(xs[k]), no concretisation of a tracer")
    run.ob(f"{name}: derivative", diff, rule="every primitive on the path of a differentiated value has a derivative rule")


def boundary(run, name, args, make, use):
    src = PRE + f"\ndef make({', '.join(args)}):\n    return {make}\n\ndef use(x):\n    return {use}\n\nuse_jit = jax.jit(use)\nmake_jit = jax.jit(make)\n"

    def go(how):
        def ob():
            ctx = Ctx()
            ns = ctx.client(src)
            x = ctx.call(ns["make"], *inputs(ctx, args))
            want = ctx.call(ns["use"], x)
            m = ctx.it.models
            if how == "unflatten":
                l, td = m.flatten(x)
                x2 = td.build(iter(l))
                got = guarded(ctx, lambda: ctx.call(ns["use"], x2), "after a pytree round trip")
            elif how == "jit":
                got = guarded(ctx, lambda: ctx.call(ns["use_jit"], x), "as an argument of a jitted function")
            else:
                x2 = guarded(ctx, lambda: ctx.call(ns["make_jit"], *inputs(ctx, args)), "as the result of a jitted function")
                got = guarded(ctx, lambda: ctx.call(ns["use"], x2), "as the result of a jitted function")
            run.absorb(ctx)
            return run.equal(ctx, ctx.flat(got), ctx.flat(want), what=f"{name} {how}", dom=Dom())

        return ob

    for how in ("unflatten", "jit", "return"):
        run.ob(f"object {name}: {how}", go(how), rule="objects are pytrees: crossing a transformation boundary changes nothing")
