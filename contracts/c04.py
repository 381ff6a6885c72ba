"""C04 acceptance of parameter combinations: the space of provided/omitted parameters is
finite and is enumerated completely; values are abstract (JAX tracers), so acceptance that
depended on a value would raise instead of deciding."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
from jaxoplanet.units import unit_registry as ureg
from jv.contract import HostContract

CORE = ["time_transit", "time_peri", "period", "semimajor", "inclination", "impact_param", "eccentricity",
        "omega_peri", "sin_omega_peri", "cos_omega_peri", "asc_node", "sin_asc_node", "cos_asc_node"]
FREE = ["mass", "radius", "radial_velocity_semiamplitude", "parallax"]
UNITS = dict(time_transit="day", time_peri="day", period="day", semimajor="R_sun", inclination="radian",
             omega_peri="radian", asc_node="radian", mass="M_sun", radius="R_sun", parallax="arcsec")
VAL = dict(period=3.0, semimajor=12.0, inclination=1.5, impact_param=0.2, eccentricity=0.1, omega_peri=0.3,
           sin_omega_peri=0.6, cos_omega_peri=0.8, asc_node=0.4, sin_asc_node=0.6, cos_asc_node=-0.8, mass=0.01,
           radius=0.1, radial_velocity_semiamplitude=1.0, parallax=3.0, time_transit=0.5, time_peri=0.7)


def valid(s):
    h = s.__contains__
    omega = h("omega_peri") or h("sin_omega_peri") or h("cos_omega_peri")
    return (
        h("period") != h("semimajor")
        and not (h("omega_peri") and (h("sin_omega_peri") or h("cos_omega_peri")))
        and h("sin_omega_peri") == h("cos_omega_peri")
        and not (h("asc_node") and (h("sin_asc_node") or h("cos_asc_node")))
        and h("sin_asc_node") == h("cos_asc_node")
        and h("eccentricity") == omega
        and not (h("impact_param") and h("inclination"))
        and not (h("time_transit") and h("time_peri"))
    )


def outcome(f):
    try:
        f()
        return "accepted"
    except ValueError:
        return "ValueError"
    except Exception as ex:  # noqa: BLE001
        return f"{type(ex).__name__}: {str(ex)[:120]}"


def patterns(keys):
    for bits in itertools.product((False, True), repeat=len(keys)):
        yield frozenset(k for k, b in zip(keys, bits) if b)


def values_modes():
    """how a provided value looks: concrete, special, quantity"""
    yield "ordinary", dict(VAL)
    yield "zero", {k: 0.0 for k in VAL}
    yield "nan", {k: float("nan") for k in VAL}
    yield "negative", {k: -1.0 for k in VAL}
    yield "arrays", {k: jnp.asarray(v) for k, v in VAL.items()}
    yield "quantities", {k: v * getattr(ureg, UNITS[k]) if k in UNITS else v for k, v in VAL.items()}


def sweep(ctx, pats, vals, what, show=True):
    bad = None
    n = 0
    for p in pats:
        n += 1
        want = "accepted" if valid(p) else "ValueError"
        got = outcome(lambda: Body(**{k: vals[k] for k in p}))
        if got != want and bad is None:
            bad = (sorted(p), got, want)
    ctx.ok(f"{what}: {n} combinations", bad is None,
           {"provided": bad[0], "values": what} if bad else None, bad and bad[1], bad and bad[2])


def body_abstract(ctx):
    def run(*xs):
        vals = dict(zip(VAL, xs))
        free = [(), FREE] if ctx.tier == "quick" else list(patterns(FREE))
        for f in free:
            sweep(ctx, (p | frozenset(f) for p in patterns(CORE)), vals, f"abstract values, with {sorted(f)}")
        return 0.0

    jax.make_jaxpr(run)(*VAL.values())


def body_free(ctx):
    """the unconstrained parameters never matter"""
    keys = [p for p in patterns(CORE) if valid(p)]
    pick = keys[:: 1 if ctx.tier == "thorough" else 9]
    sweep(ctx, (p | f for p in pick for f in patterns(FREE)), VAL, "ordinary values, unconstrained parameters")


def body_values(ctx):
    step = 1 if ctx.tier == "thorough" else 11
    for what, vals in values_modes():
        sweep(ctx, list(patterns(CORE))[::step], vals, what)
        sweep(ctx, [p for p in patterns(CORE) if valid(p)], vals, what + ", every valid combination")


def nonscalar(ctx):
    keys = [p for p in patterns(CORE) if valid(p)]
    bad, n = None, 0
    for i, p in enumerate(keys):
        for shape in ((1,), (2,), (1, 1)):
            if ctx.tier == "quick" and (i + len(shape)) % 2:
                continue
            for k in sorted(p | set(FREE)):
                v = {q: VAL[q] for q in p | set(FREE)}
                v[k] = jnp.full(shape, VAL[k])
                n += 1
                got = outcome(lambda: Body(**v))
                if got != "ValueError" and bad is None:
                    bad = ({"non-scalar": k, "shape": list(shape), "provided": sorted(v)}, got)
    ctx.ok(f"non-scalar parameter rejected: {n} cases", bad is None, bad and bad[0], bad and bad[1], "ValueError")
    for arg in ("mass", "radius", "density"):
        for other in ("mass", "radius", "density"):
            if other == arg:
                continue
            for shape in ((1,), (2,)):
                got = outcome(lambda: Central(**{arg: jnp.ones(shape), other: 1.0}))
                ctx.ok(f"Central {arg}{shape} with {other}", got == "ValueError", {"arg": arg, "other": other, "shape": list(shape)}, got, "ValueError")
    for arg in ("period", "semimajor", "radius", "body_mass"):
        v = dict(period=10.0, semimajor=20.0, radius=1.0, body_mass=0.001)
        v[arg] = jnp.full((2,), v[arg])
        got = outcome(lambda: Central.from_orbital_properties(**v))
        ctx.ok(f"from_orbital_properties {arg}", got == "ValueError", {"arg": arg}, got, "ValueError")


def central(ctx):
    def check(vals, what):
        for p in patterns(["mass", "radius", "density"]):
            ok = len(p) == 2 or p in (frozenset(), frozenset(["density"]))
            got = outcome(lambda: Central(**{k: vals[k] for k in p}))
            want = "accepted" if ok else "ValueError"
            ctx.ok(f"Central({', '.join(sorted(p))}) with {what}", got == want, {"provided": sorted(p), "values": what}, got, want)

    check(dict(mass=1.1, radius=0.9, density=0.3), "ordinary values")
    check(dict(mass=jnp.asarray(-1.0), radius=jnp.asarray(-2.0), density=jnp.asarray(jnp.nan)), "special arrays")
    check(dict(mass=1.0 * ureg.M_sun, radius=1 * ureg.R_sun, density=1 * ureg.g / ureg.cm**3), "quantities")

    def run(a, b, c):
        check(dict(mass=a, radius=b, density=c), "abstract values")
        return a

    jax.make_jaxpr(run)(1.0, 1.0, 1.0)


def orbital(ctx):
    """every accepted combination also yields an orbit"""
    cen = Central()
    keys = [p for p in patterns(CORE) if valid(p)]
    bad = None
    n = 0
    for i, p in enumerate(keys):
        for f in ((), FREE) if ctx.tier == "thorough" else ((FREE if i % 2 else ()),):
            n += 1
            got = outcome(lambda: OrbitalBody(cen, Body(**{k: VAL[k] for k in p | set(f)})))
            if got != "accepted" and bad is None:
                bad = ({"provided": sorted(p | set(f))}, got)
    ctx.ok(f"OrbitalBody from every accepted combination: {n} cases", bad is None, bad and bad[0], bad and bad[1], "accepted")


BF = ["jaxoplanet.orbits.keplerian.Body.__check_init__"]
HostContract("C04", "Body: every combination, abstract values", body_abstract, BF)
HostContract("C04", "Body: unconstrained parameters never matter", body_free, BF)
HostContract("C04", "Body: special values", body_values, BF,
             bounded="six value assignments (ordinary, zero, NaN, negative, arrays, quantities), sampled combinations in the quick tier")
HostContract("C04", "non-scalar parameters are rejected", nonscalar, BF + ["jaxoplanet.orbits.keplerian.Central.__init__", "jaxoplanet.orbits.keplerian.Central.from_orbital_properties"])
HostContract("C04", "Central: every combination", central, ["jaxoplanet.orbits.keplerian.Central.__init__"])
HostContract("C04", "OrbitalBody from every accepted Body", orbital, ["jaxoplanet.orbits.keplerian.OrbitalBody.__init__"])
