"""Behaviour-preserving edits on which the checks have to stay quiet.
python3 tools/refactors.py [NAME...]   applies each to a scratch copy and runs the listed checks."""
import os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def ref(name, props, *edits):
    R[name] = (props.split(), edits)


ref("kepler-inline", "C01 C02",
    ("core/kepler.py", "    E = starter(M, ecc, ome)\n    E = refine(M, ecc, ome, E)\n", "    E = _solve(M, ecc, ome)\n"),
    ("core/kepler.py", "def starter(M: Array", "def _solve(M: Array, ecc: Array, ome: Array) -> Array:\n    guess = starter(M, ecc, ome)\n    return refine(M, ecc, ome, guess)\n\n\ndef starter(M: Array"),
    ("core/kepler.py", "    denom = 1 / (1 + tan2_half_f)\n    sinf = 2 * tan_half_f * denom\n    cosf = (1 - tan2_half_f) * denom\n", "    denom = 1 + tan2_half_f\n    cosf = (1 - tan2_half_f) / denom\n    sinf = 2 * tan_half_f / denom\n"))
ref("kepler-rename", "C01 C02",
    ("core/kepler.py", "    E = refine(M, ecc, ome, E)\n", "    E = E + _correction(M, ecc, ome, E)\n"),
    ("core/kepler.py", "def refine(M: Array", "def _correction(M: Array"),
    ("core/kepler.py", "    return E + dE", "    return dE"))
ref("kepler-jvp", "C01 C02",
    ("core/kepler.py", "    f_dot = make_zero(M_dot) * (1 + ecosf) ** 2 / ome2**1.5\n    f_dot += make_zero(e_dot) * (2 + ecosf) * sinf / ome2\n",
     "    df_dM = jnp.square(1 + ecosf) / (ome2 * jnp.sqrt(ome2))\n    df_de = sinf * (2 + ecosf) / ome2\n    f_dot = df_de * make_zero(e_dot) + df_dM * make_zero(M_dot)\n"))
ref("ld-solution", "C07 C08 C23",
    ("core/limb_dark.py", "        s0: Array = jnp.where(no_occ, jnp.pi, s0)\n        s0 = jnp.where(full_occ, jnp.zeros_like(s0), s0)\n", "        s0 = jnp.where(full_occ, 0.0, jnp.where(no_occ, jnp.pi, s0))\n"),
    ("core/limb_dark.py", "            s1 = -P[:1] - 2 * (kappa1 - jnp.pi) / 3\n", "            s1 = 2 * (jnp.pi - kappa1) / 3 - P[:1]\n"),
    ("core/limb_dark.py", "    for n in range(size - 1, 1, -1):\n        g[n] = p[n] / (n + 2) + g[n + 2]\n", "    n = size - 1\n    while n > 1:\n        g[n] = g[n + 2] + p[n] / (n + 2)\n        n -= 1\n"))
ref("ld-kite", "C07 C19 C23",
    ("core/limb_dark.py", "    a, b = sort2(a, b)\n    b, c = sort2(b, c)\n    a, b = sort2(a, b)\n\n", "    b, c = sort2(b, c)\n    a, b = sort2(a, b)\n    b, c = sort2(b, c)\n\n"),
    ("core/limb_dark.py", "def s0s2(", "def lens_area(r2, area, kappa0, kappa1):\n    return kappa1 + r2 * kappa0 - 0.5 * area\n\n\ndef s0s2("),
    ("core/limb_dark.py", "    Alens = kappa1 + r2 * kappa0 - area * 0.5\n", "    Alens = lens_area(r2, area, kappa0, kappa1)\n"))
ref("ld-pintegral", "C07",
    ("core/limb_dark.py", "        n = jnp.arange(3, l_max + 1)\n        f = f0[None, :] ** (0.5 * n[:, None])\n        f *= 2 * r * (r - b + 2 * b * s2[None, :])\n        arg.append(f)\n",
     "        sq = zero_safe_sqrt(f0)\n        common = 2 * r * (r - b + 2 * b * s2)\n        rows = []\n        for n in range(3, l_max + 1):\n            rows.append(common * sq**n)\n        arg.append(jnp.stack(rows))\n"))
ref("lc-loop", "C08",
    ("light_curves/emission.py", "        bodies_lc = []\n        for body, surface in zip(system.bodies, system.body_surfaces, strict=False):\n", "        bodies_lc = []\n\n        def separation(x, y, radius):\n            return jnpu.sqrt(x * x + y * y) / radius\n\n        for i, body in enumerate(system.bodies):\n            surface = system.body_surfaces[i]\n"),
    ("light_curves/emission.py", "            b = jnpu.sqrt(x**2 + y**2) / body.radius\n", "            b = separation(x, y, body.radius)\n"),
    ("light_curves/limb_dark.py", "        lc = jnp.where(z > 0, lc, 0)\n\n        return lc\n", "        return jnp.where(z <= 0, 0, lc)\n"))
ref("integrate-stencil", "C09",
    ("light_curves/transforms.py", "        stencil = 2 * stencil\n        stencil = stencil.at[0].set(1)\n        stencil = stencil.at[-1].set(1)\n", "        stencil = stencil.at[1:-1].multiply(2)\n"),
    ("light_curves/transforms.py", "        dt = jnp.linspace(-0.5, 0.5, 2 * num_samples + 1)[1:-1:2]\n", "        dt = (jnp.arange(num_samples) + 0.5) / num_samples - 0.5\n"),
    ("light_curves/transforms.py", "        f = lu.wrap_init(jax.vmap(lambda t: func(t, *args, **kwargs)))\n        f = apply_exposure_time_integration(f, stencil, dt)  # type: ignore\n        return f.call_wrapped(time, (), {})  # type: ignore\n",
     "        result = jax.vmap(lambda t: func(t, *args, **kwargs))(time + dt)\n        if is_quantity(result):\n            return jnp.tensordot(stencil, result.magnitude, axes=1) * result.units\n        return jnp.tensordot(stencil, result, axes=1)\n"))
ref("interpolate-wrap", "C10",
    ("light_curves/transforms.py", "        time_wrapped = (\n            jnpu.mod(time - time_transit + 0.5 * period, period)\n            + 0.5 * period\n            + time_transit\n        )\n",
     "        half = 0.5 * period\n        phase = jnpu.mod(time - time_transit + half, period)\n        time_wrapped = time_transit + phase - half\n"))
ref("keplerian-helpers", "C03 C05 C06",
    ("orbits/keplerian.py", "            self.period = (\n                2 * jnp.pi * body.semimajor * jnpu.sqrt(body.semimajor / mass_factor)\n            )\n", "            self.period = 2 * jnp.pi * jnpu.sqrt(body.semimajor**3 / mass_factor)\n"),
    ("orbits/keplerian.py", "            ome2 = 1 - self.eccentricity**2\n            incl_factor = (1 + self.eccentricity * self.sin_omega_peri) / ome2\n", "            incl_factor = (1 + self.eccentricity * self.sin_omega_peri) / (\n                (1 - self.eccentricity) * (1 + self.eccentricity)\n            )\n"),
    ("orbits/keplerian.py", "        # 2) rotate about x1 axis by -incl\n        # z3 = z2, subsequent rotation by Omega doesn't affect it\n        if include_inclination:\n            x2 = x1\n            y2 = self.cos_inclination * y1\n            Z = -self.sin_inclination * y1\n        else:\n            x2 = x1\n            y2 = y1\n            Z = -y1\n",
     "        x2 = x1\n        y2, Z = self._incline(y1) if include_inclination else (y1, -y1)\n"),
    ("orbits/keplerian.py", "    def _rotate_vector(\n", "    def _incline(self, y: Quantity) -> tuple[Quantity, Quantity]:\n        return self.cos_inclination * y, -(self.sin_inclination * y)\n\n    def _rotate_vector(\n"))
ref("keplerian-check", "C04",
    ("orbits/keplerian.py", "        if not ((self.period is None) ^ (self.semimajor is None)):\n", "        given = [v for v in (self.period, self.semimajor) if v is not None]\n        if len(given) != 1:\n"),
    ("orbits/keplerian.py", "        if self.impact_param is not None and self.inclination is not None:\n            raise ValueError(\n                \"Only one of impact_param and inclination can be specified\"\n            )\n\n        if self.time_transit is not None and self.time_peri is not None:\n            raise ValueError(\"Only one of time_transit or time_peri can be specified\")\n",
     "        if not (self.time_transit is None or self.time_peri is None):\n            raise ValueError(\"Only one of time_transit or time_peri can be specified\")\n\n        if not (self.impact_param is None or self.inclination is None):\n            raise ValueError(\n                \"Only one of impact_param and inclination can be specified\"\n            )\n"))
ref("transit-mod", "C11 C12 C08",
    ("orbits/transit.py", "        half_period = 0.5 * self.period\n        ref_time = self.time_transit - half_period\n        dt = jnpu.mod(t - ref_time, self.period) - half_period\n", "        half_period = self.period / 2\n        dt = jnpu.mod(t - self.time_transit + half_period, self.period) - half_period\n"),
    ("orbits/transit.py", "        z = (m * 1.0 - (~m) * 1.0) * ureg.dimensionless\n", "        z = jnp.where(m, 1.0, -1.0) * ureg.dimensionless\n"),
    ("orbits/transit.py", "        x2 = jnpu.square(1 + self.radius_ratio) - jnpu.square(self.impact_param)\n        if duration is None:\n            self.duration = 2 * jnpu.sqrt(jnpu.maximum(0, x2)) / self.speed\n        else:\n            self.speed = 2 * jnpu.sqrt(jnpu.maximum(0, x2)) / self.duration\n",
     "        k = 1 + self.radius_ratio\n        x2 = (k - self.impact_param) * (k + self.impact_param)\n        chord = 2 * jnpu.sqrt(jnpu.maximum(x2, 0))\n        if duration is not None:\n            self.speed = chord / self.duration\n        else:\n            self.duration = chord / self.speed\n"))
ref("ttv-lstsq", "C12",
    ("orbits/ttv.py", "    X = jnp.vstack([jnp.ones(n), indices])\n    beta = jnp.linalg.solve(X @ X.T, X @ transit_times)\n    intercept, slope = beta\n", "    del n\n    mean_index, mean_time = jnp.mean(indices), jnp.mean(transit_times)\n    d = indices - mean_index\n    slope = jnp.sum(d * (transit_times - mean_time)) / jnp.sum(d * d)\n    intercept = mean_time - slope * mean_index\n"))
ref("ttv-bins", "C12",
    ("orbits/ttv.py", "    inds = jnp.searchsorted(bin_edges, t_mag)\n    return bin_values[inds]\n", "    # one comparison per edge\n    count = jnp.sum(jnp.asarray(t_mag)[..., None] > bin_edges, axis=-1)\n    return bin_values[count]\n"))
ref("units-apply", "C13",
    ("units/decorator.py", "    if units is None:\n        return value\n    if _is_quantity(value):\n        try:\n            return value.to(units)\n        except DimensionalityError as e:\n            raise DimensionalityError(\n                e.units1,\n                e.units2,\n                e.dim1,\n                e.dim2,\n                \"\" if name is None else f\" for input '{name}'\",\n            ) from None\n    elif strict:\n        raise ValueError(\"Arguments must be quantities for strict parsing\")\n    else:\n        return unit_registry.Quantity(value, units)\n",
     "    if units is None:\n        return value\n    if not _is_quantity(value):\n        if strict:\n            raise ValueError(\"Arguments must be quantities for strict parsing\")\n        return unit_registry.Quantity(value, units)\n    return _convert(value, units, name)\n\n\ndef _convert(value: Any, units: Any, name: str | None) -> Any:\n    where = \"\" if name is None else f\" for input '{name}'\"\n    try:\n        return value.to(units)\n    except DimensionalityError as e:\n        raise DimensionalityError(e.units1, e.units2, e.dim1, e.dim2, where) from None\n"))
ref("stack-loop", "C14",
    ("object_stack.py", "            if spec.count(spec[0]) == len(spec):\n", "            if all(s == spec[0] for s in spec[1:]):\n"),
    ("object_stack.py", "            return out_tree.unflatten(  # type: ignore\n                parts[0] if a is None else jnpu.stack(parts, axis=a)\n                for a, *parts in zip(out_axes_flat, *results, strict=False)  # type: ignore\n            )\n",
     "            leaves = []\n            for i, a in enumerate(out_axes_flat):\n                parts = [res[i] for res in results]\n                leaves.append(parts[0] if a is None else jnpu.stack(parts, axis=a))\n            return out_tree.unflatten(leaves)  # type: ignore\n"))
ref("pijk-mul", "C15 C20",
    ("starry/core/polynomials.py", "            v1v2 = v1 * v2\n            if (k1 + k2) == 2:\n                uv[(i1 + i2, j1 + j2, 0)] += v1v2\n                uv[(i1 + i2 + 2, j1 + j2, 0)] -= v1v2\n                uv[(i1 + i2, j1 + j2 + 2, 0)] -= v1v2\n            else:\n                uv[(i1 + i2, j1 + j2, k1 + k2)] += v1v2\n",
     "            i, j, k = i1 + i2, j1 + j2, k1 + k2\n            if k < 2:\n                uv[(i, j, k)] += v1 * v2\n                continue\n            # z^2 = 1 - x^2 - y^2\n            for di, dj, sign in ((0, 0, 1), (2, 0, -1), (0, 2, -1)):\n                uv[(i + di, j + dj, 0)] += sign * v1 * v2\n"),
    ("starry/core/polynomials.py", "        l = int(np.floor(np.sqrt(n)))\n        m = n - l**2 - l\n        return l, m\n", "        l = math.isqrt(n)\n        return l, n - l * (l + 1)\n"),
    ("starry/core/polynomials.py", "from collections import defaultdict\n", "import math\nfrom collections import defaultdict\n"))
ref("ylm-dense", "C16",
    ("starry/ylm.py", "        data = {}\n        for i, ylm in enumerate(y):\n            l = int(np.floor(np.sqrt(i)))\n            m = i - l * (l + 1)\n            data[(l, m)] = ylm\n        ylm = cls(data)\n        if normalize:\n            return ylm.normalize()\n        else:\n            return ylm\n",
     "        degree = math.isqrt(max(len(y) - 1, 0))\n        lm = [(l, m) for l in range(degree + 1) for m in range(-l, l + 1)]\n        ylm = cls({k: y[i] for i, k in enumerate(lm[: len(y)])})\n        return ylm.normalize() if normalize else ylm\n"))
ref("basis-poly", "C17 C22",
    ("starry/core/basis.py", "        inds = []\n        n = 0\n        for ell in range(deg + 1):\n            for m in range(-ell, ell + 1):\n                if (ell + m) % 2 != 0:\n                    inds.append(n)\n                n += 1\n\n        p = jnp.array(xarr) * jnp.array(yarr)\n        if len(inds):\n            return p.at[np.array(inds)].multiply(z)\n        else:\n            return p\n",
     "        p = []\n        for n in range(N):\n            term = xarr[n] * yarr[n]\n            p.append(term * z if ptilde(n)[2] else term)\n        return jnp.array(p)\n"))
ref("rotation-blocks", "C18",
    ("starry/core/rotation.py", "        result = []\n        for ell in range(ydeg + 1):\n            result.append(\n                M[ell * ell : ell * ell + 2 * ell + 1] @ rotation_matrices[ell]\n            )\n        return jnp.concatenate(result, axis=0)\n",
     "        blocks = [M[l * l : (l + 1) ** 2] for l in range(ydeg + 1)]\n        return jnp.concatenate(\n            [rotation_matrices[l].T @ block for l, block in enumerate(blocks)]\n        )\n"),
    ("starry/core/rotation.py", "    y = dot_rotation_matrix(ydeg, 1.0, None, None, -0.5 * jnp.pi)(y)\n    y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta)(y)\n    y = dot_rotation_matrix(ydeg, 1.0, None, None, inc)(y)\n    y = dot_rotation_matrix(ydeg, None, None, -1.0, obl)(y)\n    y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta_z)(y)\n    return y\n",
     "    for rotation in (\n        (1.0, None, None, -0.5 * jnp.pi),\n        (None, None, 1.0, m_theta),\n        (1.0, None, None, inc),\n        (None, None, -1.0, obl),\n        (None, None, 1.0, m_theta_z),\n    ):\n        y = dot_rotation_matrix(ydeg, *rotation)(y)\n    return y\n"))
ref("solution-q", "C19 C20",
    ("starry/core/solution.py", "    b2 = jnp.square(b)\n    factor = (r - 1) * (r + 1)\n    b_cond", "    b2 = b * b\n    factor = r * r - 1\n    b_cond"),
    ("starry/core/solution.py", "                f = high_fa3 * high_a1 ** (l // 2 - 1) * high_a4\n", "                f = high_a4 * high_fa3 * jnp.power(high_a1, (l - 2) // 2)\n"),
    ("starry/core/solution.py", "    P = jnp.zeros(l_max**2 + 2 * l_max + 1)\n    P = P.at[low_indices].set(low_P0)\n    P = P.at[high_indices].set(high_P0)\n\n    return P\n",
     "    P = jnp.zeros((l_max + 1) ** 2)\n    return P.at[high_indices].add(high_P0).at[low_indices].add(low_P0)\n"))
ref("surface-flux", "C20 C21",
    ("starry/light_curves.py", "        b = jnp.sqrt(jnp.square(x) + jnp.square(y))\n        b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))\n        b_occ = jnp.logical_not(b_rot)\n",
     "        b = jnp.hypot(x, y) if False else jnp.sqrt(x * x + y * y)\n        b_occ = (b < 1.0 + r) & (z > 0.0)\n        b_rot = ~b_occ\n"),
    ("starry/light_curves.py", "    return surface.amplitude * (p_yu.tosparse() @ design_matrix_p) * norm\n", "    flux = p_yu.todense() @ design_matrix_p\n    return norm * flux * surface.amplitude\n"),
    ("starry/doppler.py", "    intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm\n\n    return rv * norm / intensity\n", "    intensity = p_yu.tosparse() @ design_matrix_p[0:n_deg]\n\n    return rv / intensity\n"))
ref("observable", "C20 C21",
    ("starry/system_observable.py", "                        central_light_curves = central_light_curves.sum(\n                            0\n                        ) - central_phase_curve * (n - 1)\n                        central_light_curves = jnp.expand_dims(central_light_curves, 0)\n",
     "                        change = jnp.sum(central_light_curves - central_phase_curve, 0)\n                        central_light_curves = (central_phase_curve + change)[None]\n"))
ref("intensity", "C22",
    ("starry/surface.py", "            p = p_y * p_u * p_rv\n", "            p = p_rv * p\n"),
    ("starry/surface.py", "        lon = jnp.pi / 2 - lon  # convention, 0 lon faces the observer\n        lat = jnp.pi / 2 + lat  # convention, latitude 0 is equator\n        x = jnp.sin(lat) * jnp.cos(lon)\n        y = jnp.sin(lat) * jnp.sin(lon)\n        z = jnp.cos(lat) * jnp.ones_like(x)\n",
     "        x = jnp.cos(lat) * jnp.sin(lon)\n        y = jnp.cos(lat) * jnp.cos(lon)\n        z = -jnp.sin(lat) * jnp.ones_like(x)\n"),
    ("starry/surface.py", "            return 2 * jnp.pi * time / self.period + self.phase\n", "            turns = time / self.period\n            return self.phase + turns * (2 * jnp.pi)\n"))
ref("mp-flux", "C24",
    ("starry/multiprecision/flux.py", "        y_rotated = dot_rotation_matrix(ydeg, None, None, R_px)(y)\n        y_rotated = dot_rz(ydeg, -phi)(y_rotated)\n        y_rotated = dot_rotation_matrix(ydeg, None, None, R_mx)(y_rotated)\n        y_rotated = dot_rotation_matrix(ydeg, None, None, R_obl)(y_rotated)\n        y_rotated = dot_rotation_matrix(ydeg, None, None, R_inc)(y_rotated)\n        return y_rotated\n",
     "        y = dot_rz(ydeg, -phi)(dot_rotation_matrix(ydeg, None, None, R_px)(y))\n        for matrices in (R_mx, R_obl, R_inc):\n            y = dot_rotation_matrix(ydeg, None, None, matrices)(y)\n        return y\n"),
    ("starry/multiprecision/solution.py", "    square_area = (a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c))\n", "    square_area = ((a + b) ** 2 - c**2) * (c**2 - (a - b) ** 2)\n"))


def main(names):
    for n in names or list(R):
        props, edits = R[n]
        work = tempfile.mkdtemp(prefix="ref_")
        repo = os.path.join(work, "repo")
        try:
            subprocess.run(f"cp -a /repo {repo}; git -C {repo} checkout -q -- .", shell=True)
            for f, old, new in edits:
                p = os.path.join(repo, "src/jaxoplanet", f)
                t = open(p).read()
                assert t.count(old) == 1, (n, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            for p in props:
                r = subprocess.run(f"bash {HERE}/run.sh {p} quick", shell=True, env=dict(os.environ, JV_REPO=repo, JV_EVIDENCE=os.path.join(work, "ev"), VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                lines = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "FAILED" in x or "failed:" in x or "error:" in x or "counterexample" in x]
                print(n, p, "exit", r.returncode, *[x[:260] for x in lines[:6]], sep="\n    " if lines else " ", flush=True)
        except Exception as ex:
            print(n, "ERROR", str(ex)[:400], flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
