"""The property catalogue.  `python3 tools/gen.py` writes properties.jsonl and
MANIFEST.json from it."""

KEP = "src/jaxoplanet/orbits/keplerian.py"
TRA = "src/jaxoplanet/orbits/transit.py"
TTV = "src/jaxoplanet/orbits/ttv.py"
STACK = "src/jaxoplanet/object_stack.py"
CLD = "src/jaxoplanet/core/limb_dark.py"
LLD = "src/jaxoplanet/light_curves/limb_dark.py"
LEM = "src/jaxoplanet/light_curves/emission.py"
LTR = "src/jaxoplanet/light_curves/transforms.py"
LUT = "src/jaxoplanet/light_curves/utils.py"
KPC = "src/jaxoplanet/core/kepler.py"
UT = "src/jaxoplanet/utils.py"
UDE = "src/jaxoplanet/units/decorator.py"
UFI = "src/jaxoplanet/units/field.py"
UTX = "src/jaxoplanet/units/registry.py"
S = "src/jaxoplanet/starry/"

VG = "abstract interpretation of the source: value-graph congruence (GVN + random interpretation), configuration partition"
NOTE = ("Decides the algebraic/semantic identity for every input in the stated box and every configuration analysed, up to the "
        "one-sided error of random interpretation (a wrong 'congruent' has negligible probability; a refutation is always a concrete "
        "separating valuation). Trusts the analyser's model of Python, jax.numpy, jpu/pint and equinox; real arithmetic, no rounding. ")

P = []


def prop(id, title, statement, over, q, why, files, mech, technique=VG, note="", observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique,
                  note=NOTE + note if technique is VG else note, observe=list(observe), na=na))


CFG = "every combination of which optional orbital elements are given and every numerical value of them"

prop("K01", "The central body's mass, radius and density always agree",
     "Whatever combination of mass, radius and density a central body is created from, the three reported values satisfy "
     "density = 3 mass / (4 pi radius^3), and every value that was supplied is reported unchanged in any compatible unit. "
     "Creating it from a period and a semi-major axis gives the mass that Kepler's third law demands. "
     "All three at once, or a non-scalar, is rejected.",
     ["inputs", "configurations"], "all subsets of {mass, radius, density}, all positive values, plain numbers or quantities in any compatible unit",
     "Tests fix a few numeric cases; the closure must hold for every value and every supplied subset and unit.",
     [KEP], [("Central.__init__", KEP), ("Central.from_orbital_properties", KEP)], note="Kernel-free algebra.")
prop("K02", "A body's orbital specification is accepted exactly when it is well formed",
     "A body is accepted exactly when one of period and semi-major axis is given, at most one of transit time and periastron time, at most one of "
     "inclination and impact parameter, eccentricity together with exactly one form of the argument of periastron, and at most one form of the ascending node. "
     "Anything else, and any non-scalar element, is rejected with an error when the body is created.",
     ["configurations", "programs"], "all 8192 subsets of the mutually constrained arguments (thorough), a covering sample (quick)",
     "The lattice has thousands of argument combinations; tests try almost none of the rejected ones.",
     [KEP], [("Body.__check_init__", KEP)], technique="abstract interpretation over the nullness lattice of constructor arguments",
     note="Enumerates the nullness lattice (finite); exact for the patterns analysed. Trusts the model of equinox module initialisation.")
prop("K03", "Period and semi-major axis always obey Kepler's third law",
     "For every body in orbit, 4 pi^2 a^3 = G (M_central + m_body) P^2, where a body without a mass counts as massless, and whichever of period or semi-major axis the user supplied is kept unchanged.",
     ["inputs", "configurations"], CFG, "Tests check single numeric systems, mostly without a body mass and never with semi-major axis plus mass.",
     [KEP], [("OrbitalBody.__init__", KEP)])
prop("K04", "Orbital angles and the impact parameter are mutually consistent",
     "For every body, sin^2 i + cos^2 i = 1, and the impact parameter times the central radius equals the star-planet distance at conjunction a (1-e^2)/(1+e sin omega) times cos i, whichever of inclination or impact parameter was supplied. "
     "An angle given by its sine and cosine means the same as the angle itself.",
     ["inputs", "configurations"], CFG, "Tests compare a handful of fixed orbits; sine/cosine inputs and impact parameters on eccentric orbits are not tested.",
     [KEP], [("OrbitalBody.__init__", KEP), ("OrbitalBody.impact_param", KEP), ("OrbitalBody.inclination", KEP)])
prop("K05", "Transit time, periastron time and period mean what they say",
     "At the transit time the body is in front of the central (for inclinations between 0 and 180 degrees) at sky separation b R_central on the axis of the orbit; at the periastron time the distance is a(1-e); positions repeat every period. "
     "Supplying either epoch gives the same orbit as supplying the other one derived from it, including when periastron lies exactly on the line of sight or on the line of nodes.",
     ["inputs", "configurations"], CFG + ", and the degenerate arguments of periastron 0, 90, 180 and 270 degrees",
     "Degenerate angles are a measure-zero set no random test hits, and periastron epochs are untested.",
     [KEP], [("OrbitalBody.__init__", KEP), ("OrbitalBody.time_transit", KEP), ("OrbitalBody.time_peri", KEP)],
     note="The Kepler solver is represented by its contract (sin f, cos f of the exact solution).")
prop("K06", "Positions follow the documented two-body geometry",
     "For every time and orbit, the relative position is the textbook Keplerian position in the documented frame (+z towards the observer, ascending node convention), the body and central positions are its barycentric split by mass, and a parallax converts all of them to angles. "
     "Separation and position angle are the polar form of the same sky position.",
     ["inputs", "configurations"], CFG + ", all times", "Signs, mass ratios and unit scalings depend on the combination of optional elements; tests sample a few.",
     [KEP], [("OrbitalBody.relative_position", KEP), ("OrbitalBody.position", KEP), ("OrbitalBody.central_position", KEP), ("OrbitalBody._rotate_vector", KEP)],
     note="The Kepler solver is represented by its contract.")
prop("K07", "Velocities are the time derivatives of positions",
     "For every orbit and time, the relative, body and central velocities are the time derivatives of the corresponding positions.",
     ["inputs", "configurations"], CFG + ", all times", "Tests compare with autodiff at a few times for a few orbits.",
     [KEP], [("OrbitalBody.relative_velocity", KEP), ("OrbitalBody.velocity", KEP), ("OrbitalBody.central_velocity", KEP)],
     note="The Kepler solver is represented by its contract.")
prop("K08", "Radial velocity and semi-amplitude conventions are consistent",
     "The radial velocity is K (cos(omega+f) + e cos omega), equal to minus the line-of-sight velocity of the central body; K comes from an explicit argument, else the body's own semi-amplitude, else the masses. "
     "Body, central and relative velocities obey momentum balance under every one of these choices.",
     ["inputs", "configurations"], CFG + ", all times, with K from the three sources", "The K attribute and explicit K interact with masses, parallax and eccentricity; the tests do not combine them.",
     [KEP], [("OrbitalBody.radial_velocity", KEP), ("OrbitalBody._get_position_and_velocity", KEP)],
     note="The Kepler solver is represented by its contract.")
prop("K09", "Zero eccentricity equals an orbit without eccentricity",
     "An orbit given with eccentricity exactly zero and any argument of periastron yields the same positions, velocities and radial velocities as the same orbit given without eccentricity.",
     ["inputs", "configurations"], CFG + " at e = 0, all times", "The circular and eccentric code paths are separate; their agreement must hold for every configuration.",
     [KEP], [("OrbitalBody.__init__", KEP), ("OrbitalBody._get_true_anomaly", KEP)])
prop("K10", "A system evaluates its bodies independently, in order, without side effects",
     "Every observable of a system has one value per body, in the order they were added, equal to evaluating that body alone, whether or not the bodies have the same structure. "
     "Adding a body returns a new system and leaves the old system, its central and earlier bodies unchanged, and a body bound to its own central keeps it. Mapping a user function over bodies follows the usual axis semantics.",
     ["inputs", "configurations", "histories"], "heterogeneous mixtures of body configurations, the three ways of building a system, axis specifications",
     "Stackable and non-stackable bodies take different code paths; tests cover few mixtures.",
     [KEP, STACK], [("System.add_body", KEP), ("System.body_vmap", KEP), ("ObjectStack.vmap", STACK)])
prop("K11", "Transit-parametrised orbits reproduce the transit they were given",
     "An orbit specified by period, duration, impact parameter and radius ratio has first and last contact exactly one duration apart and centred on every transit time, passes at the given impact parameter, and is in front of the star only around transit. "
     "Whichever of duration and speed was supplied, the other one is reported consistently, for scalar and per-planet arguments.",
     ["inputs", "configurations"], "all values, optional arguments, scalar or vector per-planet arguments, all times",
     "Tests check one or two numeric orbits.", [TRA], [("TransitOrbit.__init__", TRA), ("TransitOrbit.relative_position", TRA)])
prop("K12", "Transit-timing variations shift transits by exactly the given amounts",
     "An orbit with timing variations is a transit orbit whose n-th transit is centred at the n-th given time (or at the linear ephemeris plus the n-th offset), with the linear ephemeris, epochs and offsets reported consistently, for any number of planets. "
     "Times and offsets may be given in any time unit.",
     ["inputs", "configurations"], "all transit times/TTVs, 1-3 planets, ragged counts, indices with gaps, units, all evaluation times",
     "Tests use one or two fixed arrays in days.", [TTV, TRA], [("TTVOrbit.__init__", TTV), ("TTVOrbit._warp_times", TTV), ("TTVOrbit._get_model_dt", TTV)])
prop("L01", "Limb-darkened flux equals the integral over the visible stellar disc",
     "For polynomial limb darkening of any degree, the relative flux equals the exact integral of the intensity over the unocculted part of the disc, divided by the whole disc, minus one, for every separation and radius ratio including exact contact and exactly concentric or equal-size configurations. "
     "It is 0 without overlap, -1 under total eclipse, even in both arguments, and broadcasts over them.",
     ["inputs"], "all (b, r) in 19 geometric strata (interior, ingress, degenerate lines and points), limb-darkening degree 0-5 (quick) or 0-8 (thorough), quadrature orders",
     "Degenerate lines have measure zero and need exact coincidences of b, r; tests cover a few.",
     [CLD], [("light_curve", CLD), ("solution_vector", CLD), ("kappas", CLD), ("greens_basis_transform", CLD)],
     note="Compared with an independent disc integral computed by the analyser; quadrature tolerance 3e-6 at the default order.")
prop("K13", "Expected transit times enumerate every transit in the interval",
     "The expected transit times of a system over an interval are, per planet, exactly the linear-ephemeris transit times inside the interval, in increasing order.",
     ["inputs"], "all periods, reference times and intervals: before, around and after the reference time, empty ones, limits exactly at a transit, several planets with different numbers of transits",
     "The number of transits depends on the data, and the function has no tests.",
     [TTV], [("compute_expected_transit_times", TTV)],
     technique="abstract interpretation with an interval domain: the inputs are partitioned into cells of constant transit count, the interval domain decides every integer and mask that sizes the result for all inputs of a cell, and the value graph is compared with the linear ephemeris",
     note="Exact rational intervals; narrow cells are enumerated, they do not cover the whole input space. Real arithmetic: a limit that is exactly at a transit is decided in exact arithmetic. Trusts the analyser's model of Python and jax.numpy.")
prop("K14", "The Kepler solver returns the exact solution and its derivatives",
     "For every mean anomaly and eccentricity in [0,1), the solver returns the sine and cosine of the true anomaly solving Kepler's equation: they lie on the unit circle, are odd and even in the mean anomaly, periodic in it, elementwise over broadcast arguments, and their derivatives are those of the implicit solution.",
     ["inputs"], "all mean anomalies over many turns, eccentricities 0 to 0.99 including 0 and multiples of pi", "Tests sample a grid of values; the derivative rule and symmetries are quantified over all inputs.",
     [KPC], [("kepler", KPC), ("kepler_solver_impl", KPC), ("_kepler.defjvp", KPC)],
     note="The range reduction, starter and refinement are interpreted; agreement to the accuracy of one fixed-iteration refinement (1e-10).")
prop("L02", "Limb-darkened light curves use the true sky geometry, front side only",
     "For every kind of orbit the limb-darkened light curve of each planet is the core occultation flux at the sky separation and radius ratio in units of the central radius while the planet is in front of the star, and zero otherwise, "
     "one value per time and planet in orbit order, for times and limb-darkening coefficients given in any supported form. Times of the wrong dimension are rejected.",
     ["inputs", "configurations"], "orbit kinds (single body, homogeneous/heterogeneous systems, transit and TTV orbits), coefficient forms, time shapes and units, all values",
     "Tests use a few orbits and mostly check gradients or shapes; occultation gating and mixtures of bodies are not varied.",
     [LLD], [("light_curve", LLD)], note="The core flux is represented by its contract (decided by L01).")
prop("L03", "The emission light curve adds what each body shows to the observer",
     "The emission light curve has one column for the central surface and one per body: the amplitude of the surface scaled by the unocculted fraction of its limb-darkened disc, with the body occulted by the central when it is behind, and the central occulted by the bodies in front. "
     "A body without a surface emits nothing but still occults.",
     ["inputs", "configurations"], "mixtures of bodies with and without surface, limb-darkening degrees, three ways of building a system, all values",
     "Tests exercise a single configuration.", [LEM], [("light_curve", LEM)], note="The core flux is represented by its contract (decided by L01).")
prop("L04", "Exposure-time integration is the documented quadrature of the light curve",
     "Integrating a light curve over an exposure replaces it at each time by the weighted mean of samples centred on that time and spanning exactly the exposure: midpoint, trapezoid or Simpson for order 0, 1, 2, with weights summing to one and polynomials of the corresponding degree integrated exactly. "
     "No or zero exposure time returns the light curve itself. Units, extra arguments and output structure are preserved and invalid requests rejected.",
     ["inputs", "configurations", "programs"], "all light-curve functions (uninterpreted), exposures, sample counts, orders, time shapes and units",
     "The transform acts on arbitrary user functions; tests integrate one or two of them and compare loosely.",
     [LTR], [("integrate", LTR)])
prop("L05", "Light-curve interpolation is faithful, folded and periodic",
     "Interpolating a periodic light curve returns the linear interpolant of its samples on an even grid spanning the duration (or one period) centred on every transit: exact at the grid points, periodic, and equal to the baseline outside the window. "
     "All arguments accept any time unit and extra arguments are forwarded.",
     ["inputs", "configurations", "programs"], "all periodic light-curve functions (uninterpreted) with scalar output, sample counts, all times over several periods, units",
     "No existing test varies period, epoch sign, units or distant epochs.", [LTR], [("interpolate", LTR)])
prop("L06", "Vectorised light curves map over time only",
     "A light-curve function defined for scalar times becomes elementwise over time arrays of any shape, keeps the units of times and results, keeps the output structure as trailing axes, and never maps over other arguments.",
     ["inputs", "programs"], "time shapes including empty and multi-dimensional, unit combinations, extra arguments, output shapes", "Tests use one-dimensional times.",
     [LUT], [("vectorize", LUT)])
prop("S01", "Map bases, disc integrals and polynomial algebra mean what they say",
     "The change-of-basis matrices represent the same function on the unit disc in every basis: real orthonormal spherical harmonics, polynomials in (x, y, z), and the Green's basis; the moments of the disc are exact and the occultation solution vector equals the integral of each Green's basis function over the visible part of the disc, even in both arguments. "
     "Limb-darkening polynomials and sums and products of polynomials on the sphere represent the corresponding functions, and all index conversions are mutually inverse.",
     ["inputs"], "spherical-harmonic degree 0-5 (quick) or 0-10 (thorough), all coefficients, occultation geometry in 11 strata",
     "Each matrix entry for each degree is a separate fact; tests compare a few degrees against a sibling implementation only.",
     [S + "core/basis.py", S + "core/polynomials.py", S + "core/solution.py"],
     [("A1", S + "core/basis.py"), ("A2_inv", S + "core/basis.py"), ("rT", S + "core/solution.py"), ("solution_vector", S + "core/solution.py"), ("Pijk", S + "core/polynomials.py")],
     note="Oracles (harmonics, disc moments and boundary-crossing disc integrals) are defined independently in the analyser.")
prop("S02", "Rotating and projecting a map moves the function it represents",
     "Rotating a map's coefficients by an angle about an axis rotates the function on the sphere, for every axis and angle, and all implementations of a rotation (matrices by recurrence, axis and angle, closed forms) agree. Projecting a map onto the sky shows it at its inclination, obliquity, rotational phase and occultor angle, with the opposite projection undoing it; an omitted angle means zero.",
     ["inputs", "configurations"], "degree 0-3 (quick) or 0-6 (thorough), all coefficients, 13 axis strata, angle strata, every subset of omitted angles, degenerate inclinations and obliquities",
     "Tests compare a few angles against a sibling implementation; degenerate axes and omitted arguments take different code paths.",
     [S + "core/rotation.py", S + "core/s2fft_rotation.py"],
     [("left_project", S + "core/rotation.py"), ("right_project", S + "core/rotation.py"), ("dot_rotation_matrix", S + "core/rotation.py"), ("dot_rz", S + "core/rotation.py"), ("compute_rotation_matrices", S + "core/s2fft_rotation.py")],
     note="Compared with spherical harmonics evaluated at rotated points by the analyser.")
prop("S03", "A surface light curve is the integral of the map over its unocculted disc",
     "For every spherical-harmonic map with polynomial limb darkening, the flux is the amplitude times the integral of the limb-darkened map, as seen at its inclination, obliquity and rotation angle, over the part of the disc not covered by the occultor, normalised so that a uniform map with unit coefficient has flux one whatever the limb darkening. "
     "An occultor that is not in front, or not touching the disc, changes nothing. The uniform and the general map take different code paths and must agree.",
     ["inputs", "configurations"], "map degree 0-3 (quick) or 0-6 (thorough), limb-darkening degree 0-4, 19 occultation strata, position angles, omitted angles, all coefficients",
     "The result depends continuously on a dozen numbers and on which are omitted; tests compare a few fixed configurations with a sibling implementation.",
     [S + "light_curves.py", S + "core/solution.py", S + "core/rotation.py"], [("surface_light_curve", S + "light_curves.py")],
     note="Interpreted end to end (no kernel contracts) and compared with a disc integral computed by the analyser; quadrature tolerance 2e-5.")
prop("S04", "System observables combine every surface and every occultation correctly",
     "The light curve or radial velocity of a system of surfaces has one column for the central and one per body in order: the central's surface observable including every body passing in front, and each body's observable with the central as its occultor, with sizes and positions relative to the occulted surface's own radius and each surface rotating with its own period and phase. "
     "Bodies without a surface contribute zero but still occult; the central's radial velocity also contains the reflex motion due to all bodies.",
     ["inputs", "configurations"], "systems of 0-3 bodies, mixtures with different structure and missing surfaces, four ways of building them, time shapes and units, all values",
     "Tests exercise a single two-body configuration; the number and mixture of bodies select different code paths.",
     [S + "system_observable.py", S + "orbit.py", S + "doppler.py", S + "light_curves.py"], [("system_observable", S + "system_observable.py"), ("radial_velocity", S + "doppler.py"), ("light_curve", S + "light_curves.py")],
     note="The per-surface observable is an uninterpreted function for the composition, and the real one for the entry points.")
prop("S05", "Surface radial velocity is the flux-weighted velocity of the visible surface",
     "The radial velocity of a rotating surface is the mean of the receding line-of-sight velocity of its solid-body rotation, weighted by the limb-darkened map over the unocculted visible disc, with equatorial velocity 2 pi radius / period; it does not depend on the amplitude, and is zero for a surface that does not rotate or is seen from the pole.",
     ["inputs", "configurations"], "map degree 0-2 (quick) or 0-5 (thorough), limb-darkening degree 0-4, 15 occultation strata, position angles, omitted angles, all values",
     "Tests compare a few numeric renders and only for one orientation.",
     [S + "doppler.py"], [("surface_radial_velocity", S + "doppler.py"), ("rv_map_expansion", S + "doppler.py"), ("Surface.veq", S + "surface.py")],
     note="Interpreted end to end and compared with a disc integral computed by the analyser; quadrature tolerance 1e-4.")
prop("S06", "A surface's intensity, image and rotation describe the same map",
     "The intensity of a surface at a latitude and longitude, and each pixel of a rendered image, is amplitude times the limb-darkened map at that point, seen at its inclination, obliquity and rotation angle (latitude from the spin equator, zero longitude facing the observer at phase zero); rendered velocity images are the intensity times the receding line-of-sight velocity. "
     "Normalising a surface leaves this function unchanged, rotational phase grows as 2 pi t / period from the given phase, and omitted angles and defaults mean what is documented.",
     ["inputs", "configurations"], "map degree 0-3 (quick) or 0-8 (thorough), limb-darkening degree 0-2, poles, limb, equator, degenerate orientations, omitted angles, image resolutions, all values",
     "Tests never call intensity and compare images against one sibling orientation.",
     [S + "surface.py", S + "utils.py"], [("Surface", S + "surface.py"), ("ortho_grid", S + "utils.py")],
     note="Compared with spherical harmonics evaluated by the analyser in the sky frame.")
prop("S07", "A system of surfaces is an orbital system with a surface for each body",
     "However a surface system is built (add_body with keywords, bodies, bodies that carry surfaces, explicit central, or the constructor), each body keeps its own parameters, its own surface or the absence of one, and its place in the order, and its orbits are those of the plain orbital system; adding a body leaves the original system unchanged. "
     "Mapping a function over the surfaces gives one result per body in order, and nothing for a body without one.",
     ["inputs", "configurations"], "0-3 bodies, every mixture of structure and missing surfaces, every way of adding a body, all in_axes and out_axes forms, all values",
     "Bodies of equal and unequal structure are stored differently and tests build one system.",
     [S + "orbit.py", STACK], [("SurfaceSystem", S + "orbit.py"), ("SurfaceBody", S + "orbit.py"), ("surface_vmap", S + "orbit.py")])
prop("S08", "The algebra of spherical-harmonic maps acts on the functions they represent",
     "Dense, sparse and dictionary forms of a map hold the same coefficients in the order n = l^2 + l + m, with missing coefficients zero; normalising divides by the uniform component; scaling by a number scales the function; the product of two maps is the map of the product of the two functions, and the Wigner 3j symbols and Clebsch-Gordan coefficients behind it are those of the literature; "
     "a limb-darkened map is that disc profile; a spot map is the documented spot profile placed at its latitude and longitude. None of these modifies its operands.",
     ["inputs"], "degrees 0-3 (quick) or higher (thorough), dense and sparse patterns of coefficients, all values, spot positions including the poles",
     "Products and sparse maps have no test other than by degree; each pair of degrees is a separate fact.",
     [S + "ylm.py", S + "core/wigner3j.py"], [("Ylm", S + "ylm.py"), ("ylm_spot", S + "ylm.py"), ("Wigner3jCalculator", S + "core/wigner3j.py")],
     note="Products, profiles and spots are compared with spherical harmonics evaluated by the analyser.")
prop("S09", "Drawings show the map they are given",
     "show_surface draws, on the axes it is given or else the current ones and on no other, the image of a map, polynomial, surface or body: each pixel is the intensity (or with rv=True the velocity-weighted intensity) of the map at that point of the sky, the right way up, for its inclination, obliquity, rotation angle and (unless left out) phase, over the disc of the body's radius and within the limits of the axes; "
     "the graticule drawn with it, or alone, consists of the visible parts of equally spaced parallels and meridians of the same body in the same orientation and size, with its contour and, if asked, a white border; n=None draws none. Line and image options are passed on, and the image is returned only when asked for.",
     ["inputs", "configurations"], "all seven kinds of input, degrees 0-2 (quick) or 0-4 (thorough), inclination, obliquity, rotation and phase generic and degenerate, 1-12 parallels, several radii, resolutions and numbers of points",
     "Tests only check that drawing does not raise; a drawing is only ever judged by eye.",
     [S + "visualization.py", S + "utils.py"], [("show_surface", S + "visualization.py"), ("graticule", S + "utils.py"), ("rotate_lines", S + "utils.py"), ("plot_lines", S + "utils.py")],
     technique="static analysis of the source by abstract interpretation over a recording model of the axes: the drawn value graphs are compared with the geometry of the sphere",
     note="matplotlib is a trusted recording model; what is recorded is judged by which points of the body the lines pass through, not by their order or number. Radii are enumerated, not abstract.")
prop("M01", "The multiprecision twins compute the same quantities as the fast code",
     "The arbitrary precision modules give the same change-of-basis matrices, disc moments, occultation and limb-darkening integrals, rotations, sky projections and fluxes as their definitions demand: A1 holds the spherical harmonics, A2 inverts the Green's basis, rT and sT are integrals over the visible disc, a rotation acts on the map it is given (including its uniform part; dot_rz turns by the opposite angle), and flux is the integral of the limb-darkened map over the unocculted disc, with or without an occultation, with or without rotating the map first. "
     "Light curves and radial velocities asked for with higher_precision=True are the same observables. Memoised tables are only used for the arguments they were computed for.",
     ["inputs", "configurations", "histories"], "map degree 0-2 (quick) or 0-3 (thorough; tables to 5 and 12), limb-darkening degree 0-5, occultors with b > 0 and r > 0 in every configuration, rotation axes and angles generic and degenerate, sequences of calls",
     "Tests compare a few tables, one rotation angle and occultations of one orientation, all with a uniform coefficient of one.",
     [S + "multiprecision/" + f for f in ("basis.py", "solution.py", "rotation.py", "flux.py", "utils.py", "precision.py")] + [S + "light_curves.py", S + "doppler.py"],
     [("A2", S + "multiprecision/basis.py"), ("sT", S + "multiprecision/solution.py"), ("R", S + "multiprecision/rotation.py"), ("flux", S + "multiprecision/flux.py")],
     note="mpmath is a trusted model of exact arithmetic; quadrature is modelled by a 24-point Gauss rule, so integrals are decided to 5e-5. Python branches on values are decided per stratum.")
prop("U01", "Every public quantity may be given in any commensurable unit",
     "Every public constructor and method that takes a dimensional argument gives the same physical result whether the value is a plain number in the default unit or a quantity in any commensurable unit, and results carry a unit in which their value is right; an argument with the wrong dimension raises instead of being read as a number.",
     ["inputs", "configurations"], "every dimensional argument of the public constructors and methods of orbits, light curves, transforms and surface systems; plain, default unit and 1-4 other units each; all values",
     "Tests pass quantities for a few arguments and mostly in default units.",
     [KEP, TRA, TTV, LTR, LUT, S + "orbit.py"], [("quantity_input", UDE), ("field", UFI), ("OrbitalBody", KEP), ("TTVOrbit", TTV)])
prop("U02", "The quantity_input decorator converts arguments and nothing else",
     "A decorated function receives each declared argument in its declared unit, whether passed by position, keyword or default, as plain number or quantity; undeclared arguments, None and the return value pass through unchanged, the signature and metadata of the function are kept, incommensurable units raise, and in strict mode plain numbers raise.",
     ["inputs", "programs"], "all ways of declaring units and of passing arguments, defaults, variadic and keyword-only parameters, methods, strict and lenient, all values",
     "Tests cover a function of one or two arguments.", [UDE], [("quantity_input", UDE)])
prop("U03", "A field with units always holds a quantity in its unit",
     "A module field declared with units converts what is assigned at construction to that unit, from plain numbers, quantities and defaults; None stays None, incommensurable quantities raise, and the user's own converter and all other dataclass options keep working, also in subclasses.",
     ["inputs", "programs"], "declaration forms of the field, inheritance, converters, defaults, all values", "Tests cover two declarations.", [UFI], [("field", UFI)])
prop("U04", "The astronomical units have their nominal values",
     "Each astronomical unit and constant known to the registry has its nominal value (IAU 2015 B3, IAU 2012 B2, CODATA 2018) and dimensions, its aliases mean the same unit, and no standard unit is redefined.",
     ["inputs"], "all definitions in the package's unit table", "A wrong digit of a constant shifts every result consistently, so tests that compare code with itself cannot see it.",
     ["src/jaxoplanet/units/astro_constants_and_units.txt", UTX], [("unit_registry", UTX)],
     technique="static analysis of the unit definition file: exact rational evaluation of each definition's dimension and value against nominal constants",
     note="The definition file is parsed and evaluated with exact rationals; trusts the analyser's table of nominal constants.")
prop("U05", "The comparison helpers accept equal values and nothing else",
     "assert_allclose, assert_quantity_allclose and assert_quantity_pytree_allclose compare every leaf with its counterpart, within the asked tolerances (by default relative ones that are small in single and smaller in double precision), quantities in one unit. Quantities in different units are rejected unless convert=True, and different dimensions, a quantity against a plain number, different shapes and trees of different structure always; options given to the tree version apply to every leaf.",
     ["inputs", "configurations"], "arrays and quantities of 14 pairs of units, seven kinds of trees, tolerances by position and keyword, all values",
     "The helpers are what the tests compare with: one that accepts too much makes tests pass, and one that accepts different values cannot be seen by them.",
     ["src/jaxoplanet/test_utils.py"], [("assert_quantity_allclose", "src/jaxoplanet/test_utils.py"), ("assert_quantity_pytree_allclose", "src/jaxoplanet/test_utils.py")],
     note="jax's check_close itself is a trusted model: it is given the pairs and tolerances recorded.")
prop("G01", "Gradients are finite and correct, also at singular geometries",
     "Reverse-mode derivatives of orbits, light curves, transforms, surface light curves and radial velocities with respect to every continuous parameter and time are finite and equal to the derivative of the function, including at circular and edge-on orbits, zero impact parameter, mid-transit and mid-eclipse, face-on inclination, concentric or absent occultors and coincident radii and separations.",
     ["inputs", "configurations"], "27 programs (quick) or 32 (thorough), each in 1-17 geometric strata, all differentiable inputs",
     "A gradient is NaN only on measure-zero inputs that users reach with defaults (b=0, e=0, t=t0); tests check a handful of them.",
     [KEP, TRA, CLD, KPC, UT, S + "light_curves.py", S + "doppler.py", S + "core/solution.py", S + "core/rotation.py"],
     [("kepler", KPC), ("light_curve", CLD), ("zero_safe_sqrt", UT), ("surface_light_curve", S + "light_curves.py")],
     technique="abstract interpretation of the source: reverse-mode adjoint analysis of the extracted value graph with the derivative rules and non-finite propagation of JAX (where, custom rules, IEEE infinities and NaN), one stratum of inputs at a time",
     note="Each derivative in the adjoint graph is compared with a high-precision derivative of the value graph itself at generic points of each stratum, where NaN from a masked branch propagates as in JAX. Strata are enumerated; points off the listed strata are covered generically. Trusts the analyser's derivative rules.")

prop("G02", "jit, vmap and differentiation commute with the public API",
     "Every public computation (stars, orbits, systems, transit and TTV orbits, limb darkened, emission and starry light curves, radial velocities, exposure integration, interpolation, surfaces, spherical harmonic maps and their products, rotations, projections, polynomials, unit decorators) accepts traced values for its continuous parameters: under jax.jit and jax.vmap it returns the same values as on concrete inputs, every operation on the way is differentiable, and library objects can be passed into and returned from transformed functions unchanged.",
     ["inputs", "configurations"], "about 60 client programs under jit, vmap over every argument, and differentiation; 12 kinds of objects crossing a transformation boundary",
     "A value-dependent Python branch or a numpy call on a traced value works in every eager test and breaks the first user who jits or samples that parameter.",
     [KEP, TRA, TTV, LLD, LEM, LTR, S + "light_curves.py", S + "surface.py", S + "ylm.py", S + "core/basis.py", S + "doppler.py", STACK, UDE],
     [("poly_basis", S + "core/basis.py"), ("Ylm.from_limb_darkening", S + "ylm.py"), ("TTVOrbit", TTV), ("ObjectStack.vmap", STACK)],
     technique="effect analysis: abstract interpretation of client programs with tracer provenance; every construct that needs the concrete value of a tracer (branch, float/int, numpy or scipy call, data-dependent shape, static field or argument) or has no derivative rule is an effect reported at its site; value graphs with and without the transformation are compared",
     note="Models JAX's omnistaging (all jax.numpy results are tracers inside jit). Static arguments (degrees, orders, numbers of samples, resolutions) and compute_expected_transit_times (data-dependent output size) are excluded. Trusts the analyser's summaries of which primitives lack derivative rules.")

prop("G03", "Calls are pure: no hidden state, no modified arguments",
     "No public call modifies an object passed to it (arrays, lists, dicts, systems, bodies, surfaces, maps) or an object made by an earlier call, and its result depends only on its arguments: not on calls made before (other degrees, orders, resolutions, units or values), nor on whether earlier calls happened inside jit. Neither importing nor calling the package performs I/O, uses randomness or changes global configuration.",
     ["histories", "inputs"], "26 groups of calls with snapshots of everything reachable from the arguments; one history of about 100 calls (jitted, then with other static parameters, then with other values), each compared with the same call in a fresh interpreter",
     "A cache keyed too coarsely, a tracer kept in a cache or an in-place update of a user's object shows only in sequences of calls that unit tests, which start fresh, do not make.",
     [KEP, TRA, TTV, LLD, LTR, S + "light_curves.py", S + "surface.py", S + "ylm.py", S + "orbit.py", S + "core/basis.py", S + "core/rotation.py", S + "core/solution.py", STACK],
     [("Ylm.normalize", S + "ylm.py"), ("SurfaceSystem.add_body", S + "orbit.py"), ("System.add_body", KEP), ("ylm_spot", S + "ylm.py")],
     technique="effect analysis: abstract interpretation with a heap-write log and structural snapshots of the caller's objects, plus comparison of the value graphs of the same call in different abstract histories",
     note="Histories are enumerated (jit first, one static parameter varied, other values), not all orders. Writes through numpy views are tracked for slices and asarray.")
