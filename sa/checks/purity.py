"""G03: calls are pure.

Effect analysis: the objects handed to a call are snapshotted before and after
(no mutation of arguments, also through numpy views), every write is logged with
its construct, and the same calls are interpreted in different histories
(after other calls, after calls inside jit) with the resulting value graphs
compared (no hidden state, no leaked tracer)."""
from __future__ import annotations

from .. import terms as tm
from ..harness import Ctx, Dom, Refuted, Run, Undecided
from ..interp import Module, PyFunc
from ..values import AnalysisError, Arr, Obj, Opaque, PyClass, PyRaise, Qty
from .transform import OBJ, PRE, S, guarded, inputs, program

# what: (arguments, expression making the tuple of objects, use of x)
P = {}


def p(name, args, make, use, thorough=False):
    P[name] = (args, make, use, thorough)


p("Central", dict(m=(), r=()), "(Central(mass=m, radius=r),)", "leaves((x[0].density, x[0].mass, x[0].shape))")
p("Body(arrays)", dict(p=(2,), e=(2,), w=(2,), t=(2,)), "(Central(), p, e, w, t)", "leaves(OrbitalBody(x[0], Body(period=x[1][0], eccentricity=x[2][0], omega_peri=x[3][0])).relative_position(x[4]))")
p("OrbitalBody", dict(p=(), q=(), m=(), t=(3,)), "(OrbitalBody(Central(), Body(period=p, mass=m, radius=q)), t)", "leaves((x[0].relative_position(x[1]), x[0].position(x[1]), x[0].central_velocity(x[1]), x[0].radial_velocity(x[1]), x[0].relative_angles(x[1])))")
p("System.add_body", dict(p=(), q=(), r=()), "(System(Central()).add_body(period=p, radius=.1), Body(period=q, radius=r), Central(), [Body(period=q, mass=.1)])", "leaves((x[0].add_body(x[1]).radius, x[0].add_body(x[1], central=x[2]).relative_position(.3), x[0].add_body(x[1]).add_body(period=3.).shape, System(x[2], bodies=x[3]).relative_position(.2)))")
p("SurfaceSystem.add_body", dict(p=(), q=(), A=()), "(SurfaceSystem(Central(), Surface()).add_body(Body(period=p), Surface(amplitude=A, normalize=False)), Body(period=q), Surface(amplitude=.3, normalize=False))", "leaves((x[0].add_body(x[1], x[2]).relative_position(.3), [s.amplitude for s in x[0].add_body(x[1], x[2]).body_surfaces], len(x[0].body_surfaces)))")
FULL = "Surface(y=Ylm({(0, 0): 1., (1, 0): A}), u=(.1,), inc=1., obl=.2, period=3., phase=.3, amplitude=2., radius=1.2, normalize=False)"
p("SurfaceSystem.add_body(full central)", dict(q=(), A=()), f"(Central(), {FULL}, Body(period=q), Surface(), Surface(amplitude=A, normalize=False))", "leaves((SurfaceSystem(x[0], x[1]).add_body(x[2], x[3]).relative_position(.3), SurfaceSystem(x[0], x[1]).add_body(x[2], x[4]).body_surfaces, SurfaceSystem(x[0], x[1], bodies=[(x[2], x[3]), (x[2], None)]).body_surfaces))")
p("SurfaceSystem.add_body(full body)", dict(q=(), A=()), f"(Central(), {FULL}, Body(period=q, eccentricity=.1, omega_peri=.2, radius=.1, mass=.1), Surface())", "leaves((SurfaceSystem(x[0], x[3]).add_body(x[2], x[1]).relative_position(.3), SurfaceSystem(x[0], x[3]).add_body(x[2], x[1]).body_surfaces, SurfaceSystem(x[0], x[3]).add_body(x[2], x[3]).add_body(x[2], x[1]).central_surface))")
p("TransitOrbit", dict(d=(), r=(), t=(3,)), "(TransitOrbit(period=3., duration=d, radius_ratio=r), t)", "leaves((x[0].relative_position(x[1]), x[0].duration))")
p("TTVOrbit(times)", dict(q=(3,), d=(), t=(3,)), "([q], [np.array([0, 1, 3])], t, d)", "leaves(TTVOrbit(transit_times=x[0], transit_inds=x[1], duration=x[3], impact_param=.1, radius_ratio=.1).relative_position(x[2]))")
p("TTVOrbit(ttvs)", dict(q=(3,), P=(), t=(3,)), "([q], t, P)", "leaves(TTVOrbit(ttvs=x[0], period=x[2], time_transit=.1, duration=.2, impact_param=.1, radius_ratio=.1).relative_position(x[1]))")
p("core limb darkening", dict(u=(2,), b=(2,), r=(2,)), "(u, b, r)", "[core_limb_dark(x[0], x[1][k], x[2][k], order=3) for k in (0, 1)]")
p("kepler", dict(M=(2,), e=(2,)), "(M, e)", "kepler(x[0], x[1])")
p("limb dark light curve(array)", dict(d=(), u=(2,), t=(2,)), "(TransitOrbit(period=3., duration=d, radius_ratio=.1), u, t)", "limb_dark(x[0], x[1], order=3)(x[2])")
p("limb dark light curve(list)", dict(d=(), u=(), v=(), t=(2,)), "(TransitOrbit(period=3., duration=d, radius_ratio=.1), [u, v], t)", "limb_dark(x[0], x[1], order=3)(x[2])")
p("integrate", dict(e=(), t=(3,)), "(e, t)", "[transforms.integrate(lambda y: jnp.sin(raw(y)), exposure_time=x[0], order=k, num_samples=5)(x[1]) for k in (0, 1, 2)]")
p("interpolate", dict(P=(), t=(3,)), "(P, t)", "transforms.interpolate(lambda y: jnp.sin(raw(y)), period=x[0], time_transit=.1, duration=.2, num_samples=4)(x[1])")
p("Ylm(dict)", dict(a=(), b=()), "({(0, 0): a, (1, -1): b}, Ylm({(0, 0): b, (2, 1): a}))", "leaves((Ylm(x[0]).todense(), (Ylm(x[0]) * x[1]).todense(), (x[1] * Ylm(x[0])).todense(), Ylm(x[0]).normalize().todense(), x[1].normalize().todense(), (x[1] * 2.).todense(), x[1].deg, x[1].indices))")
p("Ylm(dense)", dict(a=(4,)), "(a,)", "leaves((Ylm.from_dense(x[0]).todense(), Ylm.from_dense(x[0], normalize=False).todense()))")
p("Ylm(limb darkening)", dict(u=(2,)), "(u, [u[0], u[1]])", "leaves((Ylm.from_limb_darkening(x[0]).todense(), Ylm.from_limb_darkening(x[1]).todense()))")
p("spot", dict(c=(), r=(), a=()), "(ylm_spot(2, npts=4), c, r, a)", "leaves((x[0](x[1], x[2]).todense(), x[0](x[1], x[2], x[3], .2).todense()))")
p("Pijk", dict(a=(4,), b=()), "(Pijk.from_dense(a), Pijk({(0, 0, 0): b, (1, 0, 0): 1.}), {(0, 0, 0): b, (0, 1, 0): 2.}, a)", "leaves(((x[0] * x[1]).todense(), (x[1] + x[0]).todense(), Pijk(x[2]).todense(), Pijk.from_dense(x[3]).todense(), x[1].todense()))")
p("Surface", dict(y=(), u=(), la=(2,), lo=(2,)), "(Ylm({(0, 0): 1., (1, 1): y}), (u, .1), la, lo)", "leaves((Surface(y=x[0], u=x[1], inc=1.).intensity(x[2], x[3]), Surface(y=x[0], u=x[1], inc=1., obl=.1).render(.2, res=2)))")
p("surface light curve", dict(y=(), u=(), th=()), "(Surface(y=Ylm({(0, 0): 1., (1, 1): y}), u=(u,), inc=1.), th)", "[surface_light_curve(x[0], theta=x[1], order=3), surface_light_curve(x[0], r=.2, x=.1, y=.2, z=1., theta=x[1], order=3)]")
p("starry light curve", dict(A=(), t=(2,)), "(SurfaceSystem(Central(), Surface()).add_body(Body(period=1., radius=.1), Surface(amplitude=A, normalize=False)), t)", "leaves((starry_lc(x[0], order=3)(x[1]), emission(x[0])(x[1])))")
p("rotation", dict(y=(4,), th=()), "(y, th)", "leaves((left_project(1, 1., .2, x[1], .3, x[0]), right_project(1, 1., .2, x[1], .3, x[0]), dot_rotation_matrix(1, .1, .2, .3, x[1])(x[0])))")
p("solution vector", dict(b=(), r=()), "(solution_vector(1, order=3), b, r)", "x[0](x[1], x[2])")
p("polynomial products", dict(q=(4,)), "(q,)", "polynomial_product_matrix(x[0], 1)")
p("ObjectStack", dict(a=(), b=()), "([Body(period=a), Body(period=b)],)", "leaves(ObjectStack(*x[0]).vmap(lambda o: o.period)())")
p("quantity_input", dict(a=(3,)), "(a, ureg.Quantity(a, 'km'), units.quantity_input(q=ureg.m)(lambda q: q * 2.))", "leaves((x[2](x[0]), x[2](x[1])))")


def snap(x, seen=None, depth=0):
    """structural snapshot of everything reachable from an argument"""
    seen = {} if seen is None else seen
    if isinstance(x, (int, str, bool, float, type(None), tm.T)):
        return x
    if isinstance(x, Arr):
        return ("arr", x.shape, x.dt, tuple(x.flat()))
    if isinstance(x, Qty):
        return ("qty", repr(x.unit), snap(x.m, seen))
    if id(x) in seen:
        return ("ref", seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(y, seen) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((k if isinstance(k, (int, str, tuple)) else repr(k), snap(v, seen)) for k, v in x.items()))
    if isinstance(x, Obj):
        return ("obj", x.cls.name, tuple((k, snap(v, seen)) for k, v in sorted(x.attrs.items()) if not k.startswith("_")))
    return ("host", type(x).__name__)


def diff(a, b, path="argument"):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x is not y and x != y:
                lab = a[0] if isinstance(a[0], str) and i else ""
                return diff(x, y, f"{path}{'.' + lab if lab else ''}")
    return path


BAD = ("io", "random", "config")


def effects(ctx):
    ev = [e for e in ctx.it.events if e.kind in BAD and e.site and e.site[0] != "<client>"]
    if ev:
        e = ev[0]
        raise Refuted(f"global effect ({e.kind}): {e.text}", site=e.site)


def G03(run: Run):
    for name, (args, make, use, thorough) in P.items():
        if thorough and run.tier != "thorough":
            continue
        pure(run, name, args, make, use)
    history(run)


def ins(ctx, args, suffix=""):
    return [ctx.V(n + suffix, kind="py") if sh == () else ctx.arr(n + suffix, sh, kind="np") for n, sh in args.items()]


def pure(run, name, args, make, use):
    src = PRE + f"\ndef make({', '.join(args)}):\n    return {make}\n\ndef use(x):\n    return {use}\n"

    def ob():
        ctx = Ctx()
        ns = ctx.client(src)
        x = ctx.call(ns["make"], *ins(ctx, args))
        before = snap(x)
        n0 = len(ctx.it.writes)
        r1 = ctx.flat(ctx.call(ns["use"], x))
        after = snap(x)
        if before != after:
            w = [s for o, s in ctx.it.writes[n0:] if s and s[0] != "<client>"]
            mine = set()
            owned(x, mine)
            hit = [s for o, s in ctx.it.writes[n0:] if id(o) in mine and s[0] != "<client>"]
            raise Refuted(f"the call modifies an object passed to it ({diff(before, after)})", site=(hit or w or [None])[-1], sites=w[-4:])
        r2 = ctx.flat(ctx.call(ns["use"], x))
        effects(ctx)
        run.absorb(ctx)
        return run.equal(ctx, r2, r1, what=f"{name}: the same call again", dom=Dom())

    run.ob(f"{name}: arguments", ob, rule="no object reachable from the arguments is written; the same call again returns the same value; no global effect")


def owned(x, out):
    if id(x) in out:
        return
    if isinstance(x, Arr):
        out.add(id(x.d))
        b = x.d
        while getattr(b, "base", None) is not None:
            b = b.base
            out.add(id(b))
        return
    if isinstance(x, Qty):
        owned(x.m, out)
    elif isinstance(x, (list, tuple)):
        out.add(id(x))
        for y in x:
            owned(y, out)
    elif isinstance(x, dict):
        out.add(id(x))
        for y in x.values():
            owned(y, out)
    elif isinstance(x, Obj):
        out.add(id(x))
        for y in x.attrs.values():
            owned(y, out)


VAR = [  # calls differing in one static parameter only
    ("order", dict(u=(2,), b=(), r=()), "return [core_limb_dark(u, b, r, order=k) for k in {k}]", ("(3,)", "(4,)", "(3,)")),
    ("degree", dict(b=(), r=()), "return [solution_vector(k, order=3)(b, r) for k in {k}]", ("(1,)", "(2,)", "(1,)")),
    ("solution order", dict(b=(), r=()), "return [solution_vector(1, order=k)(b, r) for k in {k}]", ("(4,)", "(3,)", "(4,)")),
    ("limb darkening degree", dict(u=(2,)), "return [Ylm.from_limb_darkening(u[:k]).todense() for k in {k}]", ("(1,)", "(2,)", "(1,)")),
    ("spot degree", dict(r=()), "return [ylm_spot(k, npts=4)(.1, r).todense() for k in {k}]", ("(1,)", "(2,)", "(1,)")),
    ("spot points", dict(r=()), "return [ylm_spot(1, npts=k)(.1, r).todense() for k in {k}]", ("(4,)", "(5,)", "(4,)")),
    ("spot factor", dict(r=()), "return [ylm_spot(1, npts=4, spot_fac=k)(.1, r).todense() for k in {k}]", ("(300,)", "(50,)", "(300,)")),
    ("basis degree", dict(x=(), y=(), z=()), "return [poly_basis(k)(x, y, z) for k in {k}]", ("(1,)", "(3,)", "(1,)")),
    ("map degree", dict(y=(9,), th=()), "return [left_project(k, 1., .2, th, .3, y[:(k + 1) ** 2]) for k in {k}]", ("(1,)", "(2,)", "(1,)")),
    ("rotation degree", dict(y=(9,), th=()), "return [dot_rotation_matrix(k, .1, .2, .3, th)(y[:(k + 1) ** 2]) for k in {k}]", ("(2,)", "(1,)", "(2,)")),
    ("rotation axis", dict(y=(4,), th=()), "return [dot_rotation_matrix(1, *k, th)(y) for k in {k}]", ("((None, None, 1.),)", "((1., None, None),)", "((None, None, 1.),)")),
    ("surface resolution", dict(i=()), "return [Surface(inc=i, u=(.1,)).render(res=k) for k in {k}]", ("(2,)", "(3,)", "(2,)")),
    ("surface limb darkening", dict(i=(), y=()), "return [Surface(y=Ylm({{(0, 0): 1., (1, 0): y}}), inc=i, u=k).intensity(.1, .2) for k in {k}]", ("((.1,),)", "((.1, .2),)", "((.1,),)")),
    ("light curve order", dict(d=(), t=()), "return [limb_dark(TransitOrbit(period=3., duration=d, radius_ratio=.1), [.1, .2], order=k)(t) for k in {k}]", ("(3,)", "(4,)", "(3,)")),
    ("surface order", dict(y=(), x0=()), "return [surface_light_curve(Surface(y=Ylm({{(0, 0): 1., (1, 0): y}})), r=.2, x=x0, y=.1, z=1., order=k) for k in {k}]", ("(3,)", "(4,)", "(3,)")),
    ("samples", dict(e=(), t=()), "return [transforms.integrate(lambda x: jnp.sin(raw(x)), exposure_time=e, order=0, num_samples=k)(t) for k in {k}]", ("(3,)", "(5,)", "(3,)")),
    ("integration order", dict(e=(), t=()), "return [transforms.integrate(lambda x: jnp.sin(raw(x)), exposure_time=e, order=k, num_samples=5)(t) for k in {k}]", ("(1,)", "(2,)", "(1,)")),
    ("interpolation samples", dict(P=(), t=()), "return [transforms.interpolate(lambda x: jnp.sin(raw(x)), period=P, time_transit=.1, duration=.2, num_samples=k)(t) for k in {k}]", ("(4,)", "(6,)", "(4,)")),
    ("integrated function", dict(e=(), t=()), "return [transforms.integrate(k, exposure_time=e, order=0, num_samples=3)(t) for k in {k}]", ("(lambda x: jnp.sin(raw(x)),)", "(lambda x: jnp.cos(raw(x)),)", "(lambda x: jnp.sin(raw(x)),)")),
    ("unit", dict(a=()), "return leaves([units.quantity_input(q=k)(lambda q: q)(a).to('km') for k in {k}])", ("(ureg.m,)", "(ureg.R_sun,)", "(ureg.m,)")),
    ("ttv epochs", dict(q=(3,)), "return leaves([TTVOrbit(transit_times=(q,), transit_inds=(np.array(k),), duration=.2, impact_param=.1, radius_ratio=.1).relative_position(.3) for k in {k}])", ("([0, 1, 2],)", "([0, 1, 3],)", "([0, 1, 2],)")),
    ("product degree", dict(q=(9,)), "return [polynomial_product_matrix(q[:4], k) for k in {k}]", ("(1,)", "(2,)", "(1,)")),
    ("emission", dict(A=(), t=()), "return [emission(SurfaceSystem(Central(), Surface(amplitude=k, normalize=False)).add_body(Body(period=1., radius=.1), Surface(amplitude=A, normalize=False)))(t) for k in {k}]", ("(1.,)", "(2.,)", "(1.,)")),
]


def history(run):
    import textwrap

    # one interpreter for the whole history: every scenario inside jit, then every
    # static variant, then every scenario on other values and the variants again
    names = [n for n, v in S.items() if run.tier == "thorough" or not v[2]]
    st = {}

    def defs(names_):
        src = PRE
        for n in names_:
            args, body = S[n][:2]
            k = list(S).index(n)
            src += f"\ndef f{k}({', '.join(args)}):\n" + textwrap.indent(body, "    ") + f"\n\nj{k} = jax.jit(f{k})\n"
        return src

    def vdefs(i, variants=(0, 1, 2)):
        _, args, body, ks = VAR[i]
        return "".join(f"\ndef v{i}_{m}({', '.join(args)}):\n" + textwrap.indent(body.format(k=ks[m]), "    ") + "\n" for m in variants)

    def shared():
        if "ctx" not in st:
            ctx = Ctx()
            ns = ctx.client(defs(names) + "".join(vdefs(i) for i in range(len(VAR))))
            st["ctx"], st["ns"] = ctx, ns
            for n in names:
                try:
                    ctx.call(ns[f"j{list(S).index(n)}"], *inputs(ctx, S[n][0]))
                except (AnalysisError, PyRaise):
                    pass
            for m in (0, 1):
                for i, v in enumerate(VAR):
                    try:
                        ctx.call(ns[f"v{i}_{m}"], *inputs(ctx, v[1]))
                    except (AnalysisError, PyRaise):
                        pass
            ctx.it.models.jit_ids.clear()
        return st["ctx"], st["ns"]

    def leak(ctx, r, what):
        lv, _ = ctx.it.models.flatten(r)
        for a in lv:
            if isinstance(a, Arr) and any(str(t).startswith(("jit", "vmap")) for t in a.tr or ()):
                raise Refuted(f"{what}: a value traced by an earlier jit call leaks into the result (UnexpectedTracerError)", site=next((t.site for t in a.flat() if t.site), None))

    def again(src, fn, args, what):
        def ob():
            ctx, ns = shared()
            n0 = len(ctx.it.events)
            r = ctx.call(ns[fn], *inputs(ctx, args, "'"))
            leak(ctx, r, what)
            fresh = Ctx()
            ns2 = fresh.client(src)
            w = fresh.call(ns2[fn], *inputs(fresh, args, "'"))
            for e in ctx.it.events[n0:]:
                if e.kind in BAD and e.site and e.site[0] != "<client>":
                    raise Refuted(f"global effect ({e.kind}): {e.text}", site=e.site)
            return run.equal(fresh, ctx.flat(r), fresh.flat(w), what=what, dom=Dom())

        return ob

    rule = "the value of a call does not depend on the calls made before it"
    for i, v in enumerate(VAR):
        for m in (1, 2):
            run.ob(f"history({v[0]}, {m})", again(PRE + vdefs(i, (m,)), f"v{i}_{m}", v[1], f"{v[0]} after calls with another {v[0]}"), rule=rule)
    for n in names:
        run.ob(f"history({n})", again(defs([n]), f"f{list(S).index(n)}", S[n][0], f"{n} after other calls"), rule=rule)

    def imports():
        ctx = Ctx()
        ctx.client(PRE)
        effects(ctx)
        return "holds"

    run.ob("import", imports, rule="importing the package changes no global configuration")
