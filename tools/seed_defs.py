"""Definitions of planted bugs (see seed.py): edits against src/jaxoplanet, demonstration, meaning."""
SEEDS = {}


def bug(i, prop, edits, needs, breaks, demo):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c12-ephemeris-origin", "C12",
    [("orbits/ttv.py", "    beta = jnp.linalg.solve(X @ X.T, X @ transit_times)\n    intercept, slope = beta\n    ttvs = transit_times - (intercept + slope * indices)\n",
      "    X = X.at[1].add(-jnp.mean(indices))\n    beta = jnp.linalg.solve(X @ X.T, X @ transit_times)\n    intercept, slope = beta\n    ttvs = transit_times - X.T @ beta\n    intercept = intercept - slope * jnp.mean(jnp.arange(n))\n")],
    "transit_inds whose mean differs from that of 0..n-1 (transits missing, or not starting at zero)",
    "the intercept of the fitted linear ephemeris is moved to the wrong transit number",
    """
    import numpy as np, jax.numpy as jnp
    from jaxoplanet.orbits.ttv import TTVOrbit
    inds = np.array([0, 1, 4, 5, 9]); tt = 3.0 + 2.5 * inds + np.array([0.01, -0.02, 0.015, 0.0, -0.01])
    o = TTVOrbit(transit_times=(jnp.asarray(tt),), transit_inds=(jnp.asarray(inds),), duration=0.1)
    p, t0 = np.polyfit(inds, tt, 1)
    assert abs(float(o.linear_t0[0]) - t0) < 1e-8, (o.linear_t0, t0)
    assert abs(float(o.linear_period[0]) - p) < 1e-8
    for t in tt:
        x, y, z = o.relative_position(t)
        assert abs(float(x.magnitude)) < 1e-6 and float(z.magnitude) > 0
    """)

bug("c12-edges-by-period", "C12",
    [("orbits/ttv.py", "    midpoints = 0.5 * (tt[1:] + tt[:-1])\n", "    midpoints = tt[:-1] + 0.5 * period\n")],
    "consecutive transit times much further apart than a period (a transit missing from the list), or timing variations that differ strongly between neighbours",
    "the time warp switches between two transits a fixed half period after the first, so a time close to the second transit is warped with the first one's variation",
    """
    import numpy as np, jax.numpy as jnp
    from jaxoplanet.orbits.ttv import TTVOrbit
    tt = np.array([0.0, 10.2, 19.9, 60.3, 69.7])
    inds = np.array([0, 1, 2, 6, 7])
    o = TTVOrbit(transit_times=(jnp.asarray(tt),), transit_inds=(jnp.asarray(inds),), duration=0.4, impact_param=0.0, radius_ratio=0.1)
    v = float(o.speed.magnitude)
    for a, b in zip(tt[:-1], tt[1:]):
        mid = 0.5 * (a + b)
        for c, s in ((a, 1.0), (b, -1.0)):
            # just inside the midpoint the position is that of uniform motion about transit c
            t = mid - s * 1e-3
            x, _, _ = o.relative_position(t)
            P = float(o.period.magnitude[0] if o.period.magnitude.ndim else o.period.magnitude)
            dt = (t - c + 0.5 * P) % P - 0.5 * P
            assert abs(float(x.magnitude) - v * dt) < 1e-6, (t, c, x, v * dt)
    """)

bug("c09-even-simpson", "C09",
    [("light_curves/transforms.py", "    num_samples += 1 - num_samples % 2\n", "    if order == 0:\n        num_samples += 1 - num_samples % 2\n")],
    "an even num_samples together with order=2",
    "Simpson's rule is built on an even number of nodes: the stencil is lopsided and linear light curves are not reproduced",
    """
    import jax.numpy as jnp
    from jaxoplanet.light_curves.transforms import integrate
    for n in (3, 4, 5, 6, 8):
        for order in (0, 1, 2):
            f = integrate(lambda t: 2.0 * t.magnitude, exposure_time=0.5, order=order, num_samples=n)
            assert abs(float(f(jnp.asarray(1.0))) - 2.0) < 1e-6, (n, order, f(jnp.asarray(1.0)))
    """)

bug("c14-structure-ends", "C14",
    [("object_stack.py", "            if spec.count(spec[0]) == len(spec):\n", "            if spec[0] == spec[-1] and len(set(map(str, spec))) <= 2:\n")],
    "three or more objects of which an inner one has another structure",
    "such a stack is taken for homogeneous: constructing it fails instead of falling back on the loop",
    """
    import jax.numpy as jnp
    from jaxoplanet.object_stack import ObjectStack
    s = ObjectStack({"a": jnp.array(1.0)}, {"a": jnp.array(2.0), "b": jnp.array(5.0)}, {"a": jnp.array(3.0)})
    assert jnp.allclose(s.vmap(lambda o, x: o["a"] * x)(jnp.array([1.0, 2.0, 3.0])), jnp.array([1.0, 4.0, 9.0]))
    """)

bug("c13-dimensionless-passes", "C13",
    [("units/decorator.py", "    if _is_quantity(value):\n        try:\n", "    if _is_quantity(value) and value.units == unit_registry.dimensionless:\n        value = value.magnitude\n    if _is_quantity(value):\n        try:\n")],
    "a dimensionless quantity passed where a dimensional one is required",
    "the incompatible unit is silently taken for the default unit instead of raising",
    """
    from pint import DimensionalityError
    from jaxoplanet.orbits.keplerian import Body
    from jaxoplanet.orbits import TransitOrbit
    from jaxoplanet.units import unit_registry as ureg
    for f in (lambda: TransitOrbit(period=3.0 * ureg.dimensionless, duration=0.1), lambda: TransitOrbit(period=3.0, duration=(0.1 * ureg.d) / (1.0 * ureg.d))):
        try:
            f()
        except DimensionalityError:
            continue
        raise SystemExit("incompatible unit accepted")
    """)

bug("c08-fully-behind", "C08",
    [("light_curves/emission.py", "            lc_body = surface.amplitude * (1 + jnp.where(z < 0, lc_body, 0))\n",
      "            behind = z < -body.radius\n            lc_body = surface.amplitude * (1 + jnp.where(behind, lc_body, 0))\n")],
    "a body just behind the central (closer than its own radius to the sky plane) that overlaps its disc",
    "the body's emission is not occulted there",
    """
    import jax.numpy as jnp
    from jaxoplanet.orbits.keplerian import Central, Body
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.light_curves.emission import light_curve
    c, p = Central(mass=1.0, radius=5.0), Body(period=1.0, radius=0.5, mass=0.0)
    sys_ = SurfaceSystem(c, Surface(normalize=False, amplitude=1.0)).add_body(p, Surface(normalize=False, amplitude=1.0))
    n = 0
    for t in (0.253, 0.255, 0.26, 0.3, 0.5, 0.7, 0.74, 0.745):
        f = light_curve(sys_)(jnp.asarray(t))
        x, y, z = (float(v.magnitude) for v in sys_.bodies[0].relative_position(t))
        sep = (x * x + y * y) ** 0.5
        assert z < 0
        if sep < 4.5:
            n += 1
            assert abs(float(f[1])) < 1e-9, (t, f, z)
    assert n > 3
    """)

bug("c11-impact-sign", "C11",
    [("orbits/transit.py", "            self.impact_param = impact_param\n\n        if radius_ratio", "            self.impact_param = jnpu.clip(impact_param, 0.0, 1.0 + (0.0 if radius_ratio is None else radius_ratio))\n\n        if radius_ratio")],
    "an impact parameter outside [0, 1 + radius ratio] (grazing misses, or the other hemisphere)",
    "the body crosses at another height than the requested one",
    """
    from jaxoplanet.orbits import TransitOrbit
    for b in (0.3, -0.4, 1.05, 1.5):
        o = TransitOrbit(period=3.0, duration=0.1, impact_param=b, radius_ratio=0.1)
        y = o.relative_position(0.01)[1]
        assert abs(float(y.magnitude) - b) < 1e-9, (b, y)
    """)

bug("c02-second-derivative", "C02",
    [("core/kepler.py", "    sinf, cosf = _kepler(M, e)\n", "    sinf, cosf = jax.lax.stop_gradient(_kepler(M, e))\n")],
    "differentiating twice",
    "first derivatives are right; the second derivatives treat the anomaly as constant",
    """
    import jax, jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler
    f = lambda M, e: kepler(M, e)[0]
    g = jax.grad(f)
    for M, e in ((0.7, 0.2), (2.5, 0.6), (5.0, 0.3)):
        h = 1e-5
        fd = (g(M + h, e) - g(M - h, e)) / (2 * h)
        assert abs(float(jax.grad(g)(M, e)) - float(fd)) < 1e-5 * max(1, abs(float(fd))), (M, e)
    """)

bug("c01-negative-anomaly", "C01",
    [("core/kepler.py", "    M = M % (2 * jnp.pi)\n", "    M = jnp.fmod(M, 2 * jnp.pi)\n")],
    "a negative mean anomaly",
    "the solver is started outside the range its starting value and refinement are meant for",
    """
    import numpy as np, jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler
    for M in (0.3, 2.0, 3.1):
        for e in (0.0, 0.3, 0.8, 0.97):
            s0, c0 = kepler(jnp.asarray(M), jnp.asarray(e)); s1, c1 = kepler(jnp.asarray(-M), jnp.asarray(e)); s2, c2 = kepler(jnp.asarray(M - 20 * np.pi), jnp.asarray(e))
            assert abs(float(s0 + s1)) < 1e-9 and abs(float(c0 - c1)) < 1e-9, (M, e, s0, s1)
            assert abs(float(s0 - s2)) < 1e-9 and abs(float(c0 - c2)) < 1e-9
    """)

bug("c03-period-from-semimajor", "C03",
    [("orbits/keplerian.py", "            self.period = (\n                2 * jnp.pi * body.semimajor * jnpu.sqrt(body.semimajor / mass_factor)\n            )\n",
      "            mu = ureg.gravitational_constant * self.central.mass\n            self.period = (\n                2 * jnp.pi * body.semimajor * jnpu.sqrt(body.semimajor / mu)\n            )\n")],
    "a body with a non-negligible mass given by its semi-major axis",
    "the period ignores the body's own mass",
    """
    import math
    from jaxoplanet.orbits.keplerian import Central, Body, OrbitalBody
    from jaxoplanet.units import unit_registry as ureg
    c = Central(mass=1.0, radius=1.0)
    for m in (0.0, 0.5, 2.0):
        o = OrbitalBody(c, Body(semimajor=20.0, mass=m))
        lhs = (ureg.gravitational_constant * (c.mass + m * ureg.M_sun) * o.period**2).to(ureg.R_sun**3).magnitude
        assert abs(float(lhs) / (4 * math.pi**2 * 8000.0) - 1) < 1e-6, (m, lhs)
    """)

bug("c04-truthiness", "C04",
    [("orbits/keplerian.py", "        if self.time_transit is not None and self.time_peri is not None:\n", "        if self.time_transit and self.time_peri:\n")],
    "both reference times given and one of them exactly zero",
    "the contradictory combination is accepted",
    """
    from jaxoplanet.orbits.keplerian import Body
    for a, b in ((0.0, 1.0), (1.0, 0.0), (0.0, 0.0), (1.0, 2.0)):
        try:
            Body(period=1.0, time_transit=a, time_peri=b)
        except ValueError:
            continue
        raise SystemExit("accepted")
    """)

bug("c05-parallax-velocity", "C05",
    [("orbits/keplerian.py", "            if parallax is not None:\n                k0 = k0.to(", "            if parallax is not None and self.eccentricity is None:\n                k0 = k0.to(")],
    "an eccentric orbit with a parallax",
    "velocities are not converted to angular units although positions are",
    """
    import jax
    from jaxoplanet.orbits.keplerian import Central, Body, OrbitalBody
    from jaxoplanet.units import unit_registry as ureg
    for kw in ({}, dict(eccentricity=0.3, omega_peri=0.4)):
        o = OrbitalBody(Central(mass=1.0, radius=1.0), Body(period=30.0, mass=0.1, inclination=1.0, parallax=0.02, **kw))
        v = o.relative_velocity(3.0)
        d = [jax.grad(lambda t, k=k: o.relative_position(t)[k].magnitude)(3.0) for k in range(3)]
        for a, b in zip(v, d):
            assert abs(float(a.to(ureg.arcsec / ureg.d).magnitude) - float(b)) < 1e-6 * (1e-6 + abs(float(b))), (v, d)
    """)

bug("c06-node-branch", "C06",
    [("orbits/keplerian.py", "            E0 = jnpu.arctan2(\n                jnpu.sqrt(1 - self.eccentricity**2) * self.cos_omega_peri,\n                self.eccentricity + self.sin_omega_peri,\n            )\n",
      "            E0 = 2 * jnpu.arctan2(\n                jnpu.sqrt(1 - self.eccentricity) * self.cos_omega_peri,\n                jnpu.sqrt(1 + self.eccentricity) * (1.0 + jnpu.fabs(self.sin_omega_peri)),\n            )\n            E0 = jnpu.where(self.sin_omega_peri < 0, jnp.pi * jnpu.sign(self.cos_omega_peri) - E0, E0)\n")],
    "an eccentric orbit with the periastron on the far side (sin omega < 0)",
    "the mirrored branch is only right for circular orbits: transit times are displaced",
    """
    import numpy as np
    from jaxoplanet.orbits.keplerian import Central, Body, OrbitalBody
    for w in np.linspace(-3.0, 3.0, 13):
        o = OrbitalBody(Central(), Body(period=20.0, eccentricity=0.4, omega_peri=w, time_transit=1.0, impact_param=0.3))
        x, y, z = o.relative_position(1.0)
        assert abs(float(x.magnitude)) < 1e-6 and float(z.magnitude) > 0, (w, x, z)
    """)

bug("c07-negative-radius", "C07",
    [("core/limb_dark.py", "        r = jnp.abs(r)\n        area, kappa0, kappa1 = kappas(b, r)\n\n        no_occ = jnp.greater_equal(b, 1 + r)\n        full_occ = jnp.less_equal(1 + b, r)\n",
      "        area, kappa0, kappa1 = kappas(b, jnp.abs(r))\n\n        no_occ = jnp.greater_equal(b, 1 + r)\n        full_occ = jnp.less_equal(1 + b, r)\n        r = jnp.abs(r)\n")],
    "a negative radius ratio (as samplers propose) whose disc touches the limb",
    "no_occ is decided with the signed radius: the ingress and egress are flat",
    """
    import jax.numpy as jnp
    from jaxoplanet.core.limb_dark import light_curve
    u = jnp.array([0.3, 0.2])
    for b in (0.2, 0.7, 0.95, 1.05):
        p, m = float(light_curve(u, b, 0.1)), float(light_curve(u, b, -0.1))
        assert abs(p - m) < 1e-9, (b, p, m)
    """)

bug("c10-fmod", "C10",
    [("light_curves/transforms.py", "            jnpu.mod(time - time_transit + 0.5 * period, period)\n            + 0.5 * period\n            + time_transit\n",
      "            jnpu.mod(time + 0.5 * period, period)\n            - jnpu.mod(time_transit + 0.5 * period, period)\n            + time_transit\n"),
     ("light_curves/transforms.py", "            right=flux_magnitude[-1],\n            period=period.magnitude,\n", "            right=flux_magnitude[-1],\n")],
    "a transit time that is not a multiple of the period, and times on the other side of the seam",
    "times whose phase wraps between are sent a period outside the precomputed window and get an end value",
    """
    import jax.numpy as jnp
    from jaxoplanet.light_curves.transforms import interpolate
    f = lambda t: jnp.cos(2 * jnp.pi * (t.magnitude - 1.3) / 3.0)
    for d in (None, 1.0):
        g = interpolate(f, period=3.0, time_transit=1.3, num_samples=5001, **({} if d is None else dict(duration=d)))
        for t in (1.3, 1.7, 1.0, -1.7, -1.9, 4.3, 4.0, 7.7):
            from jaxoplanet.units import unit_registry as ureg
            assert abs(float(g(jnp.asarray(t))) - float(f(jnp.asarray(t) * ureg.d))) < 1e-4, (d, t)
    """)

bug("c15-sum-degree", "C15",
    [("starry/core/polynomials.py", "            upv[(i2, j2, k2)] += v2 + u.data.get((i2, j2, k2), 0.0)\n\n    return Pijk(upv)",
      "            upv[(i2, j2, k2)] += v2 + u.data.get((i2, j2, k2), 0.0)\n\n    return Pijk(upv, degree=u.degree)")],
    "a sum whose second term has the higher degree",
    "the sum is declared to have the degree of its first term, so its higher terms vanish from the dense vector",
    """
    import jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.core.polynomials import Pijk
    a, b = Pijk({(0, 0, 0): 1.0, (1, 0, 0): 2.0}), Pijk({(2, 0, 0): 3.0, (0, 1, 1): -1.0})
    s, t = np.asarray((a + b).todense()), np.asarray((b + a).todense())
    assert s.shape == t.shape and np.allclose(s, t), (s, t)
    """)

bug("c16-normalize-sign", "C16",
    [("starry/ylm.py", "        data = {k: v / self.data[(0, 0)] for k, v in self.data.items()}",
      "        norm = jnp.abs(self.data[(0, 0)])\n        data = {k: v / norm for k, v in self.data.items()}")],
    "a map whose constant coefficient is negative",
    "normalisation leaves a constant term of -1",
    """
    import jax.numpy as jnp
    from jaxoplanet.starry.ylm import Ylm
    y = Ylm({(0, 0): -2.0, (1, 0): 1.0}).normalize()
    assert abs(float(y[(0, 0)]) - 1.0) < 1e-12 and abs(float(y[(1, 0)]) + 0.5) < 1e-12
    """)

bug("c17-far-side", "C17",
    [("starry/core/basis.py", "            return p.at[np.array(inds)].multiply(z)", "            return p.at[np.array(inds)].multiply(jnp.abs(z))")],
    "a point on the far side of the body (z < 0)",
    "the polynomial basis mirrors the near side",
    """
    import jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.core.basis import poly_basis
    x, y = 0.3, -0.4
    z = -np.sqrt(1 - x * x - y * y)
    p = np.asarray(poly_basis(2)(x, y, z))
    assert np.allclose(p, [1, x, z, y, x * x, x * z, x * y, y * z, y * y]), p
    """)

bug("c18-negative-inclination", "C18",
    [("starry/core/rotation.py", "        si = jnp.sin(inc / 2)\n\n        denominator = jnp.sqrt(1 - ci**2 * co**2)",
      "        si = jnp.sqrt(jnp.maximum(1 - ci**2, 0.0))\n\n        denominator = jnp.sqrt(1 - ci**2 * co**2)")],
    "a negative inclination (or one beyond two pi) together with an obliquity",
    "the sky projection is that of the mirrored inclination",
    """
    import jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.core.rotation import left_project, dot_rotation_matrix as dot
    y = jnp.asarray(np.random.default_rng(1).normal(size=9))
    for inc, obl in ((0.7, 0.3), (-0.7, 0.3), (-1.2, -0.8), (7.0, 0.4)):
        a = left_project(2, inc, obl, 0.5, 0.2, y)
        b = dot(2, 1.0, None, None, -0.5 * jnp.pi)(y)
        b = dot(2, None, None, 1.0, -0.5)(b)
        b = dot(2, 1.0, None, None, inc)(b)
        b = dot(2, None, None, 1.0, -obl)(b)
        b = dot(2, None, None, 1.0, -0.2)(b)
        assert np.allclose(a, b, atol=1e-7), (inc, obl, a - b)
    """)

bug("c19-big-occultor", "C19",
    [("starry/core/solution.py", "    low_order = np.min([order, 20])\n", "    low_order = np.min([order, 8])\n")],
    "an occultor about as large as the occulted body and a map of degree six or more",
    "terms of high degree are integrated with too few nodes",
    """
    import jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.core.solution import solution_vector
    for b, r in ((0.9, 1.1), (1.2, 1.4), (0.6, 0.8)):
        a = np.asarray(solution_vector(8, order=20)(b, r)); c = np.asarray(solution_vector(8, order=200)(b, r))
        assert np.max(np.abs(a - c)) < 1e-5, np.max(np.abs(a - c))
    """)

bug("c20-two-bodies-phase", "C20",
    [("starry/system_observable.py", "                        central_light_curves = central_light_curves.sum(\n                            0\n                        ) - central_phase_curve * (n - 1)",
      "                        central_light_curves = central_light_curves.sum(\n                            0\n                        ) - central_light_curves.max(0) * (n - 1)")],
    "two or more bodies overlapping the central at the same time",
    "the flux subtracted for the bodies counted twice is the brightest of the fluxes instead of the unocculted one",
    """
    import jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.light_curves import light_curve, surface_light_curve
    from jaxoplanet.orbits.keplerian import Central, Body
    s = Surface(u=(0.3, 0.1))
    sys_ = SurfaceSystem(Central(mass=1.0, radius=1.0), s)
    sys_ = sys_.add_body(Body(period=10.0, radius=0.1, mass=0.0)).add_body(Body(period=15.0, radius=0.2, mass=0.0))
    f = float(light_curve(sys_)(jnp.asarray(0.0))[0])
    one = [float(surface_light_curve(s, r=r, x=0.0, y=0.0, z=5.0)) for r in (0.1, 0.2)]
    assert abs(f - (one[0] + one[1] - 1.0)) < 1e-8, (f, one)
    """)

bug("c21-shear-oblique", "C21",
    [("starry/doppler.py", "veq * alpha * 4 * jnp.sqrt(105) * A * B * C / 105", "veq * alpha * 4 * jnp.sqrt(105) * A * jnp.abs(B) * C / 105")],
    "differential rotation, an inclination other than 90 degrees and a negative obliquity",
    "one term of the velocity map has the wrong sign",
    """
    import jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.doppler import rv_map_expansion
    from jaxoplanet.starry.core.basis import A1, poly_basis
    for inc, obl in ((1.0, 0.5), (1.0, -0.5), (2.0, 0.4)):
        a = np.asarray(poly_basis(3)(0.3, -0.2, np.sqrt(1 - 0.13))) @ (A1(3) @ np.asarray(rv_map_expansion(2.0, inc, obl, 0.6)))
        x, y, z = 0.3, -0.2, np.sqrt(1 - 0.13)
        A, B, C = np.sin(inc) * np.cos(obl), np.sin(inc) * np.sin(obl), np.cos(inc)
        lat2 = (-B * x + A * y + C * z) ** 2
        lat3 = (B * x + A * y + C * z) ** 2
        v = 2.0 * (A * x + B * y)
        ok = any(abs(a - v * (1 - 0.6 * q ** 2)) < 1e-9 for q in (-B * x + A * y + C * z, -B * x + A * y - C * z))
        assert ok, (inc, obl, a, v)
    """)

bug("c22-oblique-latitude", "C22",
    [("starry/surface.py", "        axis = full_rotation_axis_angle(self.inc - jnp.pi / 2, self.obl, 0.0, 0.0)",
      "        axis = full_rotation_axis_angle(\n            jnp.abs(self.inc - jnp.pi / 2), self.obl, 0.0, 0.0\n        )")],
    "an inclination below 90 degrees in intensity(lat, lon)",
    "latitudes and longitudes are those of the body tilted the other way",
    """
    import jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm
    y = Ylm.from_dense(np.random.default_rng(2).normal(size=9), normalize=False)
    ref = None
    for inc in (np.pi / 2, 1.2, 1.8, 2.5, 0.4):
        s = Surface(y=y, inc=inc, obl=0.0, normalize=False)
        v = float(np.ravel(s.intensity(0.4, 0.7))[0])
        ref = v if ref is None else ref
        assert abs(v - ref) < 1e-6, (inc, v, ref)
    """)

bug("c23-unsafe-edge", "C23",
    [("starry/core/solution.py", "(1 - z2 * zero_safe_sqrt(z2))", "(1 - z2 * jnp.sqrt(z2))")],
    "the gradient where a quadrature node lies exactly on the limb of the occulted body",
    "the gradient is not a number although the flux is finite",
    """
    import jax, jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.core.solution import solution_vector
    f = solution_vector(1, order=10)
    for b, r in ((1.0, 0.5), (0.0, 1.0), (0.5, 1.5), (0.5, 0.5), (2.0, 1.0), (1.0, 2.0), (2.0, 3.0), (0.7, 0.3), (1.1, 0.1), (1.5, 0.5), (1.0, 0.0)):
        g = jax.jacobian(lambda p: f(p[0], p[1]))(jnp.array([b, r]))
        assert np.all(np.isfinite(np.asarray(g))), (b, r)
    """)

bug("c24-stale-cache", "C24",
    [("starry/multiprecision/rotation.py", "            if (inc, obl) not in cache[l_max][name]:", "            if inc not in cache[l_max][name]:"),
     ("starry/multiprecision/rotation.py", "                cache[l_max][name][(inc, obl)] = R(", "                cache[l_max][name][inc] = R("),
     ("starry/multiprecision/rotation.py", "            return cache[l_max][name][(inc, obl)]", "            return cache[l_max][name][inc]")],
    "two reference fluxes of the same degree and inclination with different obliquities, one after the other",
    "the second reference flux uses the first one's obliquity",
    """
    import os, sys
    sys.stdout = open(os.devnull, "w")
    from jaxoplanet.starry.multiprecision import mp, flux
    y = mp.matrix([1.0, 0.3, -0.2, 0.5])
    a = flux.flux(ydeg=1, inc=1.0, obl=0.4, cache=None)(3.0, 0.1, y=y, phi=0.6)
    b = flux.flux(ydeg=1, inc=1.0, obl=-0.9, cache=None)(3.0, 0.1, y=y, phi=0.6)
    from collections import defaultdict
    fresh = defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}})
    c = flux.flux(ydeg=1, inc=1.0, obl=-0.9, cache=fresh)(3.0, 0.1, y=y, phi=0.6)
    assert abs(b - c) < 1e-12, (a, b, c)
    """)

bug("c16-wigner-rescale", "C16",
    [("starry/core/wigner3j.py", "                if abs(F_minus[j + 1]) > 1.0:\n                    F_minus[j_min : j + 1 + 1] /= scale_factor\n",
      "                if abs(F_minus[j + 1]) > 1.0:\n                    F_minus[j_min : j + 1] /= scale_factor\n")],
    "a product of maps of degrees 2 and 3 or higher, for orders whose recurrence grows beyond 1",
    "the terms of the recurrence below the last one are rescaled but not the last one, so coefficients of the product are wrong",
    """
    import jax.numpy as jnp, numpy as np
    from jaxoplanet.starry.ylm import Ylm
    from jaxoplanet.starry.surface import Surface
    import jax.numpy as jnp
    f, g = Ylm({(0, 0): 1.0, (2, -2): 0.3, (2, 1): 0.2}), Ylm({(0, 0): 1.0, (3, 1): 0.3, (3, -2): 0.25, (3, 2): -0.2})
    lat, lon = 0.3, 0.2
    at = lambda y: float(Surface(y=y, normalize=False).intensity(jnp.array(lat), jnp.array(lon)))
    one = at(Ylm({(0, 0): 1.0}))
    assert abs(at(f * g) * one - at(f) * at(g)) < 1e-9 or abs(at(f * g) / (at(f) * at(g)) - at(Ylm() * Ylm()) / at(Ylm()) ** 2) < 1e-9, (at(f * g), at(f) * at(g))
    """)

bug("c18-obliquity-quadrant", "C18",
    [("starry/core/rotation.py", "        angle = 2 * jnp.arccos(ci * co)\n", "        # better conditioned than arccos for small rotations\n        angle = 2 * jnp.arcsin(jnp.sqrt(1 - ci**2 * co**2))\n")],
    "an inclination or obliquity beyond pi, where the cosine of half the combined angle is negative",
    "the angle of the projection on the sky is reflected to the wrong quadrant",
    """
    import numpy as np, jax.numpy as jnp
    from scipy.spatial.transform import Rotation as R
    from jaxoplanet.starry.core.rotation import sky_projection_axis_angle
    for inc, obl in ((0.4, 0.7), (1.0, 4.5), (4.0, 0.3), (2.0, -0.5)):
        x, y, z, a = [float(v) for v in sky_projection_axis_angle(inc, obl)]
        got = R.from_rotvec(np.array([x, y, z]) * a).as_matrix()
        exp = (R.from_rotvec([0, 0, -obl]) * R.from_rotvec([inc, 0, 0])).as_matrix()
        alt = (R.from_rotvec([inc, 0, 0]) * R.from_rotvec([0, 0, -obl])).as_matrix()
        assert min(np.abs(got - exp).max(), np.abs(got - alt).max()) < 1e-7, (inc, obl)
    """)

bug("c19-low-order", "C19",
    [("starry/core/solution.py", "    low_order = np.min([order, 20])\n", "    low_order = np.min([order, 12])\n")],
    "terms of high degree with the occultor well inside the disc",
    "the quadrature of the polynomial terms has too few nodes for the degrees in use",
    """
    import numpy as np, jax.numpy as jnp
    from jaxoplanet.starry.core.solution import solution_vector
    from scipy.integrate import quad
    # (l, -l): nu = 0, mu = 2 l
    b, r, l = 0.3, 0.7, 12
    got = float(solution_vector(l, order=50)(b, r)[l * l])


    k0 = np.arctan2(np.sqrt(max(0, (1 + r + b) * (b + 1 - r) * (b - 1 + r) * (1 + r - b))), (r - 1) * (r + 1) + b * b)
    k1 = np.arctan2(np.sqrt(max(0, (1 + r + b) * (b + 1 - r) * (b - 1 + r) * (1 + r - b))), b * b - (r - 1) * (r + 1))
    mu, nu = 2 * l, 0
    P = 2 * (2 * r) ** (l + 2) * quad(lambda p: (np.sin(p) ** 2 - np.sin(p) ** 4) ** ((mu + 4) / 4), -k0 / 2, k0 / 2, epsabs=1e-13, epsrel=1e-13)[0]
    lam = np.pi / 2 - k1
    Q = quad(lambda p: np.cos(p) ** (mu // 2 + 2), np.pi - lam, 2 * np.pi + lam, epsabs=1e-13, epsrel=1e-13)[0]
    assert abs(got - (Q - P)) < 1e-7, (got, Q - P)
    """)

bug("c20-body-order", "C20",
    [("starry/system_observable.py", "                return _surface_observable(\n                    surface,\n                    (system.central.radius", "                return surface_observable(\n                    surface,\n                    (system.central.radius")],
    "an order other than the default and a body with a map, eclipsed by the central",
    "the requested quadrature order is not used for the eclipses of the bodies",
    """
    import numpy as np, jax.numpy as jnp
    from jaxoplanet.orbits.keplerian import Central, Body
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm
    from jaxoplanet.starry.light_curves import light_curve, surface_light_curve
    s = Surface(y=Ylm({(0, 0): 1.0, (3, 1): 0.3, (4, -3): 0.2}), u=(0.2, 0.3))
    system = SurfaceSystem(Central(mass=1.0, radius=1.0), Surface()).add_body(Body(period=3.0, radius=0.4, impact_param=0.3), surface=s)
    t = 1.5 - 0.05
    got = float(np.asarray(light_curve(system, order=3)(t))[1])
    x, y, z = [np.asarray(v.magnitude)[0] for v in system.relative_position(t)]
    exp = float(surface_light_curve(s, r=1 / 0.4, x=-x / 0.4, y=-y / 0.4, z=-z / 0.4, order=3))
    assert abs(got - exp) < 1e-10, (got, exp)
    """)

bug("c23-safe-sqrt-band", "C23",
    [("utils.py", "    cond = jnp.less(x, 10 * get_dtype_eps(x))\n", "    cond = jnp.less(x, jnp.sqrt(get_dtype_eps(x)))\n")],
    "an occultor within 1e-8 of a contact",
    "derivatives close to contact are those of a function that does not depend on the position",
    """
    import jax, jax.numpy as jnp, numpy as np
    from jaxoplanet.core.limb_dark import light_curve
    from jaxoplanet.utils import zero_safe_sqrt
    from jaxoplanet.core.limb_dark import kite_area
    for x in (1e-9, 5e-9, 1e-12):
        assert abs(float(jax.grad(zero_safe_sqrt)(x)) * 2 * np.sqrt(x) - 1) < 1e-9
    for d in (5e-9, 2e-8):
        b = 1.1 - d
        g = float(jax.grad(kite_area, argnums=1)(0.1, b, 1.0))
        h = d * 1e-2
        n = (float(kite_area(0.1, b + h, 1.0)) - float(kite_area(0.1, b - h, 1.0))) / (2 * h)
        assert abs(g - n) < 1e-3 * abs(n), (d, g, n)
    """)

bug("c25-sharpness-ignored", "C25",
    [("starry/ylm.py", "        b = spot_profile(theta, r, spot_fac=spot_fac)\n", "        b = spot_profile(theta, r)\n")],
    "a sharpness of the spot's edge other than the default",
    "the requested sharpness is ignored",
    """
    import numpy as np, jax.numpy as jnp
    from jaxoplanet.starry.ylm import ylm_spot
    a, b = (np.asarray(ylm_spot(5, spot_fac=f)(0.5, 0.8).todense()) for f in (5, 300))
    assert np.abs(a - b).max() > 1e-3
    """)
