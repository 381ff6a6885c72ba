"""Source of /verif/properties.jsonl (python3 tools/props.py)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe},
    })


S = "src/jaxoplanet/"

p("C01", "Kepler solver returns the true anomaly for every mean anomaly",
  "For every real mean anomaly M and eccentricity 0<=e<1 the solver returns (sin f, cos f) of the true anomaly f whose eccentric anomaly E satisfies E - e sin E = M modulo 2 pi. The pair is on the unit circle, is unchanged by adding whole turns to M, and sin f is odd and cos f even in M. For e=0 it is (sin M, cos M).",
  ["inputs"], "all real M (any number of turns, either sign, exact multiples of pi) and all 0<=e<1",
  "The tests compare a finite grid of M in [0, 2pi) and e; wrapping, reflection and the high-eccentricity corner are only sampled.",
  [S + "core/kepler.py"], [("range reduction and reflection", "core/kepler.py:_kepler"), ("starter and refinement", "core/kepler.py:starter, refine")],
  ["jaxoplanet.core.kepler.kepler"])
p("C02", "Derivatives of the Kepler solver are the exact implicit derivatives",
  "Forward- and reverse-mode derivatives of the Kepler solver with respect to the mean anomaly and the eccentricity equal the implicit derivatives of the true anomaly defined by Kepler's equation, for every M, every 0<=e<1 and every tangent or cotangent. Second derivatives are consistent with differentiating those formulas again.",
  ["inputs"], "all M, 0<=e<1, all tangents and cotangents",
  "Gradient tests check a few points numerically with finite differences; a wrong factor that vanishes or is small at these points passes.",
  [S + "core/kepler.py"], [("custom JVP rule", "core/kepler.py: _kepler.defjvp")], ["jax.jvp / jax.vjp of jaxoplanet.core.kepler.kepler"])
p("C03", "Masses, radii, densities, periods and semi-major axes obey Kepler's third law",
  "A central body always satisfies mass = 4/3 pi radius^3 density whichever two of the three are given (defaulting to the Sun), and an orbiting body always satisfies G (M_central + M_body) period^2 = 4 pi^2 semimajor^3 with SI-consistent values of G and the solar units, whichever of period and semimajor is given. Deriving the central body from orbital properties inverts that law exactly. Quantities passed in directly are stored unchanged.",
  ["inputs", "configurations"], "all positive values, every permitted combination of provided arguments",
  "Tests check a couple of Sun-like numeric values per combination.",
  [S + "orbits/keplerian.py", S + "units/astro_constants_and_units.txt"],
  [("third completion", "orbits/keplerian.py:Central.__init__"), ("period/semimajor completion", "orbits/keplerian.py:OrbitalBody.__init__"), ("inversion", "orbits/keplerian.py:Central.from_orbital_properties")],
  ["Central", "OrbitalBody", "Central.from_orbital_properties"])
p("C04", "Contradictory or incomplete orbit parameters are rejected, valid ones accepted",
  "Constructing a central or orbiting body raises ValueError exactly when the combination of provided parameters is contradictory or incomplete: period xor semimajor, omega (or sin and cos together) if and only if eccentricity, node likewise never doubly given, at most one of inclination/impact parameter, at most one reference time, and central mass/radius/density not over- or under-determined. Non-scalar parameters are always rejected. Acceptance depends only on which parameters are given, never on their values.",
  ["configurations"], "all subsets of provided parameters (all 2^17 for an orbiting body, all 2^3 for a central) and all values",
  "Tests try a handful of the 131072 combinations.",
  [S + "orbits/keplerian.py"], [("validation", "orbits/keplerian.py:Body.__check_init__"), ("validation", "orbits/keplerian.py:Central.__init__")],
  ["Body(...)", "Central(...)"])
p("C05", "Positions and velocities are one consistent two-body motion",
  "For every orbit and time, each reported velocity is the time derivative of the corresponding position; the body and the central move about a fixed barycentre in inverse proportion to their masses; the relative position and velocity are body minus central; and the relative acceleration is -G(M+m) r/|r|^3. Giving a parallax only converts positions and velocities to angles consistently, and the radial velocity is minus the z velocity of the central.",
  ["inputs", "configurations"], "all times, all masses/radii/eccentricities in range, inclination or impact parameter or edge-on, with/without node, omega as angle or sin/cos, circular or eccentric",
  "Tests compare velocity with a numerical gradient at a few times for one or two systems.",
  [S + "orbits/keplerian.py"], [("position/velocity kernel", "orbits/keplerian.py:OrbitalBody._get_position_and_velocity"), ("frame rotation", "orbits/keplerian.py:OrbitalBody._rotate_vector")],
  ["OrbitalBody.position/central_position/relative_position/velocity/central_velocity/relative_velocity/radial_velocity/relative_angles"])
p("C06", "Reference times and inclination put transits where the user asked",
  "At the transit time (and every whole number of periods from it) the body is in front of the central, on the line of conjunction, at a projected separation of exactly impact_param central radii; impact parameter and inclination are converted consistently. At the periastron time the separation is a(1-e), and transit and periastron times are mutually consistent. Motion repeats with the period.",
  ["inputs", "configurations"], "all eccentricities 0<=e<1, all arguments of periastron (including -pi/2 given by exact sine and cosine), all periods, epochs and impact parameters",
  "Tests compare to another package at sampled parameters and never exercise degenerate orientations.",
  [S + "orbits/keplerian.py"], [("reference time", "orbits/keplerian.py:OrbitalBody.__init__"), ("inclination factor", "orbits/keplerian.py:OrbitalBody.__init__")],
  ["OrbitalBody.relative_position", "OrbitalBody.time_peri"])
p("C07", "Limb-darkened transit flux is the exact disc integral (up to fixed quadrature)",
  "The limb-darkened light curve is 0 when the discs do not overlap, -1 when the occultor covers the star, depends only on |b| and |r|, and for a uniform or linear-quadratic source equals the analytic occulted flux: uniform = lens area, quadratic component in closed form, and remaining components equal to the Gauss-Legendre sum of the Green's-theorem line integrand over exactly the occulted arc. The limb-darkening coefficients enter through the exact basis change of 1-sum u_n(1-mu)^n, normalised to unit total flux. Statements about regimes are meant outside the code's own guard bands of relative width 1e-9 around b = 0 and the contact points.",
  ["inputs", "configurations"], "all b, r (including b=0, b=|1-r|, b=1+-r, b=r, r>1), all coefficient vectors u up to the stated length, all quadrature orders used",
  "Tests compare with a reference implementation at grids for a few radius ratios.",
  [S + "core/limb_dark.py", S + "utils.py"],
  [("Green's basis", "core/limb_dark.py:greens_basis_transform"), ("solution vector", "core/limb_dark.py:solution_vector, s0s2, p_integral, kappas, kite_area")],
  ["jaxoplanet.core.limb_dark.light_curve"])
p("C08", "Light curves combine orbit geometry and limb darkening correctly for all bodies",
  "The transit light curve of an orbit equals, per body, the limb-darkened flux at the projected separation and radius in units of the central radius when the body is in front of the central and exactly zero otherwise; extra coefficient arguments are concatenated in order. The emission light curve is a central flux normalised to one (dimmed by the bodies in front of it) plus each body's own flux, scaled by its amplitude and occulted by the central only while the body is behind it.",
  ["inputs", "configurations"], "all positions, radii and coefficients, one or several bodies, matching and differing body structures",
  "Tests use single specific orbits; in-front/behind gating, multi-body stacking and eclipse are sampled at a few times.",
  [S + "light_curves/limb_dark.py", S + "light_curves/emission.py", S + "orbits/keplerian.py"],
  [("z > 0 gate", "light_curves/limb_dark.py:light_curve"), ("z < 0 gate, amplitudes", "light_curves/emission.py:light_curve")],
  ["limb_dark_light_curve(...)(t)", "emission.light_curve(...)(t)"])
p("C09", "Exposure-time integration is a centred, normalised average",
  "Integrating a light curve over an exposure evaluates it only at times symmetric about and within half an exposure of the requested time, with non-negative weights summing to one, so constants and linear functions are reproduced exactly; order 0/1/2 are the midpoint, trapezoid and Simpson rules (Simpson exact for cubics). The flux may be a scalar or an array, with or without units. No exposure time means the function is returned unchanged; extra positional and keyword arguments are passed through.",
  ["inputs", "configurations"], "all functions, times and exposure times; orders 0, 1, 2; every num_samples checked including 0, 1 and even values",
  "The test checks one linear function with the default number of samples.",
  [S + "light_curves/transforms.py"], [("stencil", "light_curves/transforms.py:integrate")], ["light_curves.transforms.integrate"])
p("C10", "Interpolated light curves are periodic and exact at the grid nodes",
  "The interpolated light curve reproduces the original function at the precomputed nodes, is the linear interpolant between adjacent nodes, repeats with the given period around the given transit time for every real time, and outside the precomputed window (a duration shorter than the period) stays between the two end values. Units of the flux are preserved.",
  ["inputs", "configurations"], "all times (many periods either way), all periods, epochs and durations up to one period, all function values, every grid size checked",
  "The test checks a few times within a couple of periods.",
  [S + "light_curves/transforms.py"], [("phase wrap and interpolation", "light_curves/transforms.py:interpolate")], ["light_curves.transforms.interpolate"])
p("C11", "TransitOrbit moves uniformly and crosses the disc in exactly the stated duration",
  "A transit orbit parameterised by duration has the body's disc touch the stellar limb at exactly half a duration before and after each transit time, at constant speed along x and constant impact parameter in y; duration and speed are converted consistently. The motion repeats with the period, and z is positive exactly within half a duration of a transit time.",
  ["inputs", "configurations"], "all periods, durations/speeds, impact parameters, radius ratios, times; one or several planets",
  "The test checks a few sampled parameter values against the light curve of another orbit.",
  [S + "orbits/transit.py"], [("duration/speed completion", "orbits/transit.py:TransitOrbit.__init__"), ("motion", "orbits/transit.py:TransitOrbit.relative_position")],
  ["TransitOrbit.relative_position"])
p("C12", "TTV orbits place every transit at its requested time",
  "Warping time with transit-timing variations maps each listed transit time exactly onto its linear-ephemeris time, is the linear ephemeris (unit slope) within each transit's interval, and leaves the orbit unchanged when all variations are zero. The ephemeris fitted from increasing transit times is the least-squares line, and transit times, or that ephemeris with the variations relative to their mean, may be given interchangeably with the same result. (With several planets the query time is a scalar.)",
  ["inputs", "configurations"], "all transit times/ttvs in order, all query times, one or several planets with different numbers of transits, with explicit or inferred indices",
  "Tests check a few sampled ttv vectors.",
  [S + "orbits/ttv.py"], [("bins and warp", "orbits/ttv.py:TTVOrbit._warp_times")], ["TTVOrbit"])
p("C13", "Units are converted, defaulted and checked consistently everywhere",
  "Any physical input may be given in any compatible unit, or as a plain number in the documented default unit, with identical physical results; incompatible units always raise an error; None and undecorated arguments pass through untouched, including inside nested structures. The registry's astronomical constants have their defined values.",
  ["inputs", "configurations"], "all values, all compatible units and structures enumerated, all entry points that take quantities",
  "Tests sample a few values and units for the decorator only.",
  [S + "units/decorator.py", S + "units/field.py", S + "units/registry.py", S + "units/astro_constants_and_units.txt"],
  [("conversion", "units/decorator.py:_apply_units"), ("fields", "units/field.py:field")], ["units.quantity_input", "units.field", "public constructors"])
p("C14", "Mapping over bodies equals applying the function to each body",
  "Mapping a function over the bodies of a stack or system gives, whether or not the bodies share a structure, exactly the result of calling it on each body with that body's slice of the mapped arguments and stacking along the requested output axes; unmapped arguments are passed whole. Adding a body appends it without changing the others or the original system.",
  ["inputs", "configurations"], "all values; all in_axes/out_axes specifications (None, integers of either sign, nested) over stacks of equal and unequal structure",
  "Tests compare two specific stacks with default axes.",
  [S + "object_stack.py", S + "orbits/keplerian.py"], [("vmap or loop", "object_stack.py:ObjectStack.vmap")], ["ObjectStack.vmap", "System.body_vmap", "System.add_body"])
p("C15", "Polynomial algebra on the sphere is exact",
  "Converting a polynomial in x, y, z on the unit sphere to and from its dense coefficient vector, adding, scaling and multiplying it agree with the pointwise operations on its values for every point of the unit sphere, with the documented ordering of monomials, which is a bijection between indices and (i, j, k) exponents.",
  ["inputs", "configurations"], "all coefficients and points; index bijection for every index, products for every pair of degrees up to the stated bound",
  "Tests check single products with fixed coefficients.",
  [S + "starry/core/polynomials.py"], [("index maps", "starry/core/polynomials.py:Pijk.n2ijk/ijk2n"), ("product", "starry/core/polynomials.py:Pijk.__mul__ and helpers")], ["Pijk"])
p("C16", "Spherical-harmonic maps form an exact algebra",
  "A map built from a dense vector or a sparse dictionary evaluates to the same function; scalar multiples and products of maps equal the pointwise multiple and product of the functions on the sphere; index and (l, m) conversions are inverse; normalisation makes the constant term one; and a map built from limb-darkening coefficients has exactly that limb-darkened intensity.",
  ["inputs", "configurations"], "all coefficients; all sparse patterns and degrees up to the stated bound; all limb-darkening coefficients",
  "Tests check a few fixed maps.",
  [S + "starry/ylm.py", S + "starry/core/wigner3j.py"], [("storage and arithmetic", "starry/ylm.py:Ylm"), ("Clebsch-Gordan product", "starry/ylm.py:_mul, core/wigner3j.py"), ("limb darkening", "starry/ylm.py:Ylm.from_limb_darkening")], ["Ylm"])
p("C17", "Basis-change matrices represent the same function on the disc",
  "The change of basis from spherical harmonics to polynomials reproduces the real orthonormal spherical harmonics in starry's convention, the Green's basis change inverts the definition of the Green's basis, and the limb-darkening basis changes reproduce the limb-darkening law, so that a map has the same value at every point of the disc in every basis.",
  ["inputs", "configurations"], "all points of the unit disc/sphere, every degree up to the stated bound",
  "Tests compare matrices with symbolic ones at a few low degrees or sampled points.",
  [S + "starry/core/basis.py"], [("Ylm to polynomial", "starry/core/basis.py:A1, p_Y"), ("Green's basis", "starry/core/basis.py:A2_inv, A2"), ("limb darkening", "starry/core/basis.py:U, poly_basis")], ["basis.A1, A2_inv, A2, U, poly_basis"])
p("C18", "Rotating a map equals rotating the function it represents",
  "Rotating spherical-harmonic coefficients about any axis by any angle gives the coefficients of the rotated function; rotations by zero or full turns are the identity, opposite rotations are inverse, successive rotations about the same axis add, and the norm of each degree is preserved. Projection onto the sky with inclination, obliquity and phase equals the composition of the elementary rotations, and left/right projections are transposes of each other; differentiating a rotation or projection with respect to its angles gives the derivative of the rotated function, also at zero angles and for a body seen pole-on.",
  ["inputs", "configurations"], "all angles and unit axes (including the coordinate axes and degenerate angles), all coefficient vectors, every degree up to the stated bound",
  "Tests compare with high-precision values at a few angles.",
  [S + "starry/core/rotation.py", S + "starry/core/s2fft_rotation.py"], [("Wigner matrices", "starry/core/rotation.py, s2fft_rotation.py"), ("projection", "starry/core/rotation.py:left_project, right_project")], ["rotation.dot_rotation_matrix", "rotation.left_project", "rotation.right_project"])
p("C19", "Occultation solution vector is the integral of each Green's basis term",
  "The phase-curve vector equals the integral of each polynomial basis term over the unit disc, and the occultation solution vector equals the integral over the visible part of the disc of each Green's basis term, reduced by Green's theorem to line integrals over exactly the visible arcs. Odd components vanish by symmetry and both vectors are independent of which map they are applied to.",
  ["inputs", "configurations"], "all separations b and radii r in occultation, every degree up to the stated bound and quadrature orders used",
  "Tests compare with numerical integration at sampled b and r.",
  [S + "starry/core/solution.py"], [("rT", "starry/core/solution.py:rT"), ("line integrals", "starry/core/solution.py:solution_vector, p_integral, q_integral, kappas")], ["solution.rT, solution.solution_vector"])
p("C20", "Surface light curves respect occultation geometry and linearity",
  "Outside occultation the flux of a surface equals its rotational phase curve regardless of where the other body is; a body behind (z<=0), too far, or with no occultor changes nothing; a fully covered surface has zero flux. The flux is linear in the map and proportional to the amplitude, is independent of the rotation for a uniform surface, and reduces to the limb-darkened transit for a uniform limb-darkened map; system light curves apply this per body with positions in units of the occulted radius.",
  ["inputs", "configurations"], "all positions, radii, rotation phases, inclinations, obliquities, amplitudes, map coefficients and limb-darkening coefficients up to the stated degree; one or more bodies",
  "Tests check sampled configurations against a reference implementation.",
  [S + "starry/light_curves.py", S + "starry/surface.py", S + "starry/orbit.py"], [("occultation gate", "starry/light_curves.py:surface_light_curve"), ("system observable", "starry/light_curves.py:light_curve, starry/system_observable.py")], ["surface_light_curve", "starry light_curve"])
p("C21", "Doppler radial velocity is the flux-weighted velocity field",
  "The radial velocity of a surface equals the integral over its visible disc of intensity times line-of-sight velocity divided by the integral of intensity, where the velocity field is solid-body rotation with the surface's inclination, obliquity and equatorial speed plus its differential shear. It vanishes for zero rotation speed, is linear in that speed, independent of the amplitude and of uniform scaling of the map, and antisymmetric under reversing the spin.",
  ["inputs", "configurations"], "all inclinations, obliquities, speeds, shears, map coefficients up to the stated degree, occultor positions",
  "Tests compare with a reference at sampled parameters.",
  [S + "starry/doppler.py"], [("velocity map", "starry/doppler.py:rv_map_expansion"), ("ratio of fluxes", "starry/doppler.py:surface_radial_velocity")], ["surface_radial_velocity", "radial_velocity"])
p("C22", "Surface intensity is the map seen at the right place",
  "The intensity of a surface at a latitude and longitude, or at a pixel of a rendered image, equals its normalised map evaluated at the corresponding point of the rotated, inclined and tilted sphere, times limb darkening at the projected radius and amplitude. Rotation by a full period leaves intensity and light curve unchanged.",
  ["inputs", "configurations"], "all latitudes, longitudes, pixel positions, phases, inclinations, obliquities, map coefficients up to the stated degree",
  "Tests check rendered images of fixed maps.",
  [S + "starry/surface.py", S + "starry/utils.py"], [("intensity", "starry/surface.py:Surface.intensity, _intensity"), ("render", "starry/surface.py:Surface.render")], ["Surface.intensity", "Surface.render", "Surface.rotational_phase"])
p("C23", "Light-curve derivatives stay finite and correct at contact points",
  "Differentiating a limb-darkened light curve with respect to b, r or the coefficients never produces NaN, including exactly at contact points, zero separation, tangency and no overlap. Away from these points the guarded square root has the true derivative, and outside overlap every derivative with respect to b and r is zero.",
  ["inputs"], "all b >= 0 and r > 0 including every boundary between overlap regimes; all x for the guarded square root",
  "Tests check gradients at a few points.",
  [S + "utils.py", S + "core/limb_dark.py"], [("guarded square root", "utils.py:zero_safe_sqrt"), ("double-where guards", "core/limb_dark.py")], ["jax.grad of light_curve", "zero_safe_sqrt"])
p("C24", "Arbitrary-precision reference computes the same quantities",
  "The multiprecision implementation of the starry basis changes, rotations, phase-curve vector and occultation flux agrees with the standard implementation's definition for every degree, angle and occultor geometry, so either can be used as reference for the other, whatever was computed (and cached) before.",
  ["inputs", "configurations"], "all angles and geometries, every degree up to the stated bound",
  "Tests compare the two at sampled values.",
  [S + "starry/multiprecision"], [("mp basis", "starry/multiprecision/basis.py"), ("mp rotation", "starry/multiprecision/rotation.py"), ("mp solution", "starry/multiprecision/solution.py")], ["starry.multiprecision"])

p("C25", "A spot map is the documented dip rotated to the spot's centre",
  "The map made by ylm_spot equals one plus the contrast times the smoothed Legendre expansion of the sigmoid profile as a function of the angle from the spot's centre, so it is rotationally symmetric about the direction of the requested latitude and longitude, is linear in the contrast, and reduces to the uniform map for zero contrast; its coefficients and their derivatives with respect to contrast, radius, latitude and longitude are finite and true for every radius, also at zero latitude and longitude.",
  ["inputs", "configurations"], "all contrasts, radii, latitudes and longitudes; degrees and numbers of nodes up to the stated bound",
  "Tests compare the equatorial intensity of one spot with starry (not installed here) for two degrees.",
  [S + "starry/ylm.py"], [("expansion of the profile", "starry/ylm.py:Bp"), ("profile", "starry/ylm.py:spot_profile"), ("rotation to the centre", "starry/ylm.py:ylm_spot")], ["ylm_spot"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
