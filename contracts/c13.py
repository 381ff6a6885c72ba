"""C13 units: conversion, defaults, rejection, registry constants.  The conversion factors in
this file are written down independently of the registry under test."""
import itertools
import math

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet import units
from jaxoplanet.light_curves import emission, limb_dark, transforms
from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
from jaxoplanet.orbits.ttv import TTVOrbit
from jaxoplanet.units import unit_registry as ureg
from jv.contract import Contract, GhostFn, HostContract, In

from .c08 import LD
from .common import KEPLER, KEPLER_RULES, mag

U = "jaxoplanet.units."
G = 6.67430e-11
GM = {"sun": 1.3271244e20, "jupiter": 1.2668653e17, "earth": 3.986004e14}
R = {"sun": 6.957e8, "jupiter": 7.1492e7, "earth": 6.3781e6}
AU = 149597870700.0
PC = AU / math.tan(math.radians(1 / 3600.0))
DEG = math.pi / 180

# SI value of every unit offered for a dimension
DIMS = {
    "time": {"day": 86400.0, "hour": 3600.0, "minute": 60.0, "second": 1.0, "millisecond": 1e-3, "week": 604800.0, "year": 365.25 * 86400.0},
    "length": {"R_sun": R["sun"], "m": 1.0, "km": 1e3, "cm": 1e-2, "AU": AU, "R_jupiter": R["jupiter"], "R_earth": R["earth"], "parsec": PC},
    "mass": {"M_sun": GM["sun"] / G, "kg": 1.0, "g": 1e-3, "M_jupiter": GM["jupiter"] / G, "M_earth": GM["earth"] / G},
    "angle": {"radian": 1.0, "degree": DEG, "arcminute": DEG / 60, "arcsecond": DEG / 3600, "milliarcsecond": DEG / 3.6e6, "turn": 2 * math.pi},
    "density": {"M_sun / R_sun**3": GM["sun"] / G / R["sun"] ** 3, "g / cm**3": 1e3, "kg / m**3": 1.0},
    "velocity": {"R_sun / day": R["sun"] / 86400.0, "m / s": 1.0, "km / s": 1e3, "AU / year": AU / (365.25 * 86400.0)},
    "rate": {"1 / day": 1 / 86400.0, "1 / hour": 1 / 3600.0, "1 / s": 1.0, "hertz": 1.0},
    "number": {"dimensionless": 1.0, "percent": 0.01},
}
DIMS["parallax"] = {k: DIMS["angle"][k] for k in ("arcsecond", "milliarcsecond", "degree", "radian")}


def default_of(dim):
    return next(iter(DIMS[dim]))


def given(v, dim, unit):
    """the physical value that is `v` in the default unit, stated in `unit`"""
    f = DIMS[dim][default_of(dim)] / DIMS[dim][unit]
    return ureg.Quantity(v * f, ureg.parse_units(unit) if "/" in unit or "*" in unit else unit)


# -- registry constants ------------------------------------------------------------------
def constants(ctx):
    want = {"AU": AU, "au": AU, "astronomical_unit": AU, "parsec": PC, "pc": PC}
    for b, names in (("sun", ("sun", "solar")), ("jupiter", ("jupiter", "jup")), ("earth", ("earth",))):
        for n in names:
            want |= {f"R_{n}": R[b], f"M_{n}": GM[b] / G, f"GM_{n}": GM[b]}
        long = "solar" if b == "sun" else b
        want |= {f"{long}_mass": GM[b] / G, f"{long}_radius": R[b], f"{long}_mass_parameter": GM[b]}
    want |= {"L_sun": 3.828e26, "solar_luminosity": 3.828e26, "L_bol0": 3.0128e28, "gravitational_constant": G, "G": None}
    dims = {"R": "m", "M": "kg", "A": "m", "a": "m", "p": "m", "L": "W"}
    for k, v in want.items():
        if v is None:
            continue
        si = ("m^3/kg/s^2" if k.startswith("grav") else "m^3/s^2" if k.startswith("GM") or k.endswith("parameter") else "kg" if k.endswith("mass")
              else "W" if k.startswith("L") or k.endswith("luminosity") else "m" if k.endswith("radius") else dims[k[0]])
        try:
            got = float((1.0 * ureg.parse_units(k)).to(si).magnitude)
        except Exception as ex:  # noqa: BLE001
            got = f"{type(ex).__name__}: {ex}"
        ctx.ok(f"constant {k}", isinstance(got, float) and abs(got - v) <= 1e-12 * v, {"unit": k, "in": si}, got, v)


HostContract("C13", "registry constants", constants, functions=[U + "astro_constants_and_units.txt"])


# -- conversion by the decorator and by fields ------------------------------------------------
def conversions(dim):
    base = default_of(dim)
    names = list(DIMS[dim])

    def program(v):
        f = units.quantity_input(x=ureg.parse_units(base))(lambda x: x)

        class M(eqx.Module):
            q: object = units.field(units=ureg.parse_units(base))

        out = {}
        for u in names:
            out["call", u] = mag(f(given(v, dim, u)), base) if f(given(v, dim, u)).units == ureg.parse_units(base) else jnp.nan * v
            q = M(given(v, dim, u)).q
            out["field", u] = mag(q, base) if q.units == ureg.parse_units(base) else jnp.nan * v
        out["plain"] = f(v).to(base).magnitude
        out["plain field"] = M(v).q.to(base).magnitude
        return {str(k): x for k, x in out.items()}

    Contract("C13", f"conversion to {base}", {"v": In(shape=(2,), lo=-4, hi=4, edges=[0.0])}, program,
             lambda I, O, K: [K.eq(k, O[k], I["v"]) for k in sorted(O)], functions=[U + "decorator.quantity_input", U + "decorator._apply_units", U + "field.field"], n_samples=10)


for d in DIMS:
    conversions(d)


# -- binding, defaults, pass-through, structures ----------------------------------------------
def binding(ctx):
    day = ureg.day

    def is_days(x, v):
        return hasattr(x, "magnitude") and str(x.units) == "day" and abs(float(x.magnitude) - v) <= 1e-12 * abs(v)

    marker = object()

    @units.quantity_input(b=day, d=day, e=day)
    def f(a, b, c=marker, d=None, *args, e=2.0, **kw):
        return a, b, c, d, args, e, kw

    x = ureg.Quantity(48.0, "hour")
    calls = [("positional", (marker, 1.0), {}), ("keyword", (), {"b": 1.0, "a": marker}), ("mixed", (marker,), {"b": ureg.Quantity(24.0, "hour")}),
             ("optional", (marker, 1.0, "c", ureg.Quantity(86400.0, "s")), {}), ("extra", (marker, 1.0, "c", 1.0, 7, x), {"e": ureg.Quantity(1440.0, "minute"), "z": x})]
    for name, a, k in calls:
        got = f(*a, **k)
        ok = got[0] is marker and is_days(got[1], 1.0)
        ok = ok and (got[2] is marker if len(a) < 3 else got[2] == "c") and (got[3] is None if len(a) < 4 else is_days(got[3], 1.0))
        ok = ok and is_days(got[5], 1.0 if "e" in k else 2.0)
        if name == "extra":
            ok = ok and got[4][0] == 7 and got[4][1] is x and got[6]["z"] is x
        ctx.ok(f"arguments bound and converted: {name}", ok, {"call": name}, str(got), "b, d, e in days; everything else untouched")
    # defaults of None pass, whatever the unit; an explicit None is accepted only there
    got = f(marker, 1.0, d=None)
    ctx.ok("None for an optional argument", got[3] is None, {"d": None}, str(got[3]), None)

    # structures
    spec = {"t": day, "flag": None, "n": [ureg.m, None, (ureg.kg,)]}

    @units.quantity_input(p=spec)
    def g(p):
        return p

    h = object()
    got = g({"t": ureg.Quantity(12.0, "hour"), "flag": h, "n": [ureg.Quantity(2.0, "km"), h, (3.0,)]})
    ok = is_days(got["t"], 0.5) and got["flag"] is h and got["n"][1] is h and float(got["n"][0].magnitude) == 2000.0 and str(got["n"][0].units) == "meter" and str(got["n"][2][0].units) == "kilogram" and float(got["n"][2][0].magnitude) == 3.0
    ctx.ok("nested structure", ok, {"spec": str(spec)}, str(got), "leaves converted, unlisted leaves untouched")
    got = units.quantity_input(lambda a, b: (a, b), a=day)(2.0, h)
    ctx.ok("functional form", is_days(got[0], 2.0) and got[1] is h, {}, str(got), "(2 day, h)")

    class M(eqx.Module):
        q: object = units.field(units=day, default=None)
        p: object = units.field(units={"a": day, "b": None}, default=None)
        r: object = units.field(default=None)
        s: object = units.field(units=day, default=3.0)
        w: object = units.field(units=day, converter=lambda v: 2.0 * v, default=None)

    m = M()
    ctx.ok("field defaults", m.q is None and m.p is None and m.r is None and is_days(m.s, 3.0) and m.w is None, {}, str(m), "None stays None; a default is given units")
    m = M(q=ureg.Quantity(24.0, "hour"), p={"a": 1.0, "b": h}, r=h, w=ureg.Quantity(12.0, "hour"))
    ctx.ok("field structures", is_days(m.q, 1.0) and is_days(m.p["a"], 1.0) and m.p["b"] is h and m.r is h and is_days(m.w, 1.0), {}, str(m), "converted like arguments")
    # strict mode and rejections
    for name, fn in (("strict call", lambda: units.quantity_input(lambda x: x, _strict=True, x=day)(1.0)),
                     ("strict field", lambda: type("S", (eqx.Module,), {"__annotations__": {"x": object}, "x": units.field(units=day, strict=True)})(1.0))):
        try:
            fn()
            ok = False
        except ValueError:
            ok = True
        ctx.ok(f"{name} refuses a plain number", ok, {}, "accepted", "ValueError")
    ok = is_days(units.quantity_input(lambda x: x, _strict=True, x=day)(ureg.Quantity(24.0, "hour")), 1.0)
    ctx.ok("strict call converts a quantity", ok, {}, "", "1 day")
    for name, fn in (("*args with units", lambda: units.quantity_input(args=day)(lambda *args: args)), ("unknown name", lambda: units.quantity_input(zz=day)(lambda x: x))):
        try:
            fn()
            ok = False
        except TypeError:
            ok = True
        ctx.ok(f"{name} refused", ok, {}, "accepted", "TypeError")
    # incompatible units, in every pair of dimensions
    for d1, d2 in itertools.permutations(DIMS, 2):
        if {d1, d2} <= {"angle", "parallax", "number"}:
            continue  # angles are dimensionless in the registry
        for u in DIMS[d2]:
            q = ureg.Quantity(1.0, ureg.parse_units(u))
            base = ureg.parse_units(default_of(d1))
            for where in ("call", "field"):
                try:
                    if where == "call":
                        units.quantity_input(lambda x: x, x=base)(q)
                    else:
                        units.quantity_input(p=[base])(lambda p: p)([q])
                    ok = False
                except Exception as ex:  # noqa: BLE001
                    ok = "Dimensionality" in type(ex).__name__
                ctx.ok(f"{u} for {default_of(d1)} refused ({where})", ok, {"unit": u, "wanted": default_of(d1)}, "accepted", "DimensionalityError")


HostContract("C13", "binding, defaults, structures, rejection", binding, functions=[U + "decorator.quantity_input", U + "field.field"])


# -- every entry point that takes quantities ---------------------------------------------------
def val(q):
    return q.to_base_units().magnitude if hasattr(q, "to_base_units") else q


def state(o):
    """the physical content of a module: every numerical leaf, quantities by their magnitude in the unit they carry plus that unit"""
    return [jnp.ravel(jnp.asarray(x, dtype=float)) for x in jax.tree_util.tree_leaves(o) if not isinstance(x, str | bool)]


def sig(o):
    leaves = jax.tree_util.tree_leaves(o, is_leaf=lambda x: hasattr(x, "_magnitude"))
    return [str(x.units) if hasattr(x, "_magnitude") else None for x in leaves]


# name -> (dimension, sample range)
CENTRAL = dict(mass=("mass", 0.3, 3), radius=("length", 0.3, 3), density=("density", 0.1, 2))
PROPS = dict(period=("time", 1, 9), semimajor=("length", 4, 20), radius=("length", 0.5, 2), body_mass=("mass", 1e-4, 1e-2))
BODY = dict(time_transit=("time", -2, 2), time_peri=("time", -2, 2), period=("time", 1, 9), semimajor=("length", 4, 20), inclination=("angle", 1.4, 1.6), impact_param=("number", 0, 0.5),
            eccentricity=("number", 0.05, 0.8), omega_peri=("angle", -3, 3), sin_omega_peri=("number", 0.6, 0.6), cos_omega_peri=("number", 0.8, 0.8), asc_node=("angle", -3, 3),
            sin_asc_node=("number", 0.6, 0.6), cos_asc_node=("number", 0.8, 0.8), mass=("mass", 1e-4, 1e-1), radius=("length", 0.05, 0.5),
            radial_velocity_semiamplitude=("velocity", 0.1, 2), parallax=("parallax", 0.1, 2))
TRANSIT = dict(period=("time", 2, 9), duration=("time", 0.1, 0.5), speed=("rate", 3, 9), time_transit=("time", -2, 2), impact_param=("number", 0, 0.5), radius_ratio=("number", 0.05, 0.2))
CENTRAL_SETS = [("mass", "radius"), ("mass", "density"), ("radius", "density"), ("density",)]
PROPS_SETS = [("period", "semimajor"), ("period", "semimajor", "radius", "body_mass")]
BODY_SETS = [("period", "time_transit", "inclination", "eccentricity", "omega_peri", "asc_node", "mass", "radius", "parallax", "radial_velocity_semiamplitude"),
             ("semimajor", "time_peri", "impact_param", "eccentricity", "sin_omega_peri", "cos_omega_peri", "sin_asc_node", "cos_asc_node")]
TRANSIT_SETS = [("period", "duration", "time_transit", "impact_param", "radius_ratio"), ("period", "speed", "time_transit", "impact_param", "radius_ratio")]


def constructor(name, make, table, sets, functions):
    for keys in sets:
        ins = {k: In(lo=table[k][1], hi=table[k][2], pos=table[k][1] > 0) if table[k][1] < table[k][2] else In(lo=table[k][1] * 0.99, hi=table[k][1] * 1.01, pos=True) for k in keys}

        def program(keys=keys, **I):
            ref = make(**I)
            want, s = state(ref), sig(ref)
            out = []
            for k in keys:
                dim = table[k][0]
                for u in DIMS[dim]:
                    o = make(**{**I, k: given(I[k], dim, u)})
                    got = state(o)
                    bad = len(got) != len(want) or sig(o) != s
                    out.append(jnp.concatenate([jnp.nan * a if bad else a for a in (want if bad else got)]))
            return {"want": jnp.concatenate(want), "got": jnp.stack(out)}

        Contract("C13", f"{name}: {', '.join(keys)} in any unit", ins, program, lambda I, O, K: [K.eq("state", O["got"], np.broadcast_to(O["want"], O["got"].shape))],
                 functions=functions, n_samples=10, definedness=False, p_edge=0.0)


def body(**kw):
    return OrbitalBody(Central(mass=1.2, radius=0.9), Body(**kw))


K = "jaxoplanet.orbits.keplerian."
constructor("Central", lambda **k: Central(**k), CENTRAL, CENTRAL_SETS, [K + "Central.__init__"])
constructor("Central.from_orbital_properties", lambda **k: Central.from_orbital_properties(**k), PROPS, PROPS_SETS, [K + "Central.from_orbital_properties"])
constructor("Body", body, BODY, BODY_SETS, [K + "Body", K + "OrbitalBody.__init__"])
constructor("TransitOrbit", lambda **k: TransitOrbit(**k), TRANSIT, TRANSIT_SETS, ["jaxoplanet.orbits.transit.TransitOrbit.__init__"])
constructor("TTVOrbit", lambda **k: TTVOrbit(ttvs=(jnp.array([0.01, -0.03, 0.02]),), **k), TRANSIT, TRANSIT_SETS, ["jaxoplanet.orbits.ttv.TTVOrbit.__init__"])


# methods: time and parallax arguments
BODY_METHODS = ["position", "central_position", "relative_position", "velocity", "central_velocity", "relative_velocity", "radial_velocity", "relative_angles"]


def method(m, ecc):
    with_par = m.endswith("position")
    ins = {"t": In(lo=-3, hi=9), "P": In(lo=2, hi=9, pos=True)}
    if with_par:
        ins["par"] = In(lo=0.1, hi=2, pos=True)

    def program(t, P, par=None):
        kw = dict(eccentricity=0.3, omega_peri=0.7) if ecc else {}
        o = body(period=P, mass=0.01, radius=0.1, impact_param=0.2, asc_node=0.4, **kw)

        def flat(r):
            qs = r if isinstance(r, tuple) else (r,)
            return jnp.stack([q.magnitude for q in qs]), [str(q.units) for q in qs]

        def runs(fs):
            want, s = flat(fs[0]())
            got = [flat(g()) for g in fs[1:]]
            return want, jnp.stack([g if s2 == s else jnp.nan * g for g, s2 in got])

        f = getattr(o, m)
        out = {}
        out["w"], out["g"] = runs([lambda: f(t)] + [lambda u=u: f(given(t, "time", u)) for u in DIMS["time"]])
        if with_par:
            out["pw"], out["pg"] = runs([lambda: f(t, parallax=par)] + [lambda u=u: f(t, parallax=given(par, "parallax", u)) for u in DIMS["parallax"]])
        return out

    def ens(I, O, Kx):
        out = [Kx.eq("time in any unit", O["g"], np.broadcast_to(O["w"], O["g"].shape), scale=1.0)]
        if with_par:
            out.append(Kx.eq("parallax in any unit", O["pg"], np.broadcast_to(O["pw"], O["pg"].shape), scale=1.0))
        return out

    Contract("C13", f"OrbitalBody.{m}: arguments in any unit{', eccentric' if ecc else ''}", ins, program, ens, opaque=[KEPLER], uf_rules=KEPLER_RULES,
             functions=[K + "OrbitalBody." + m, K + "OrbitalBody._get_position_and_velocity"], n_samples=10, definedness=False, tol=1e-7)


for m in BODY_METHODS:
    method(m, False)
method("relative_position", True)
method("velocity", True)


def orbit_time(name, make):
    def program(t):
        o = make()

        def flat(r):
            return jnp.stack([jnp.reshape(q.magnitude if hasattr(q, "magnitude") else q, ()) for q in r])

        return {"w": flat(o.relative_position(t)), "g": jnp.stack([flat(o.relative_position(given(t, "time", u))) for u in DIMS["time"]]),
                "p": jnp.stack([flat(o.relative_position(t, parallax=given(1.0, "parallax", u))) for u in DIMS["parallax"]])}

    Contract("C13", f"{name}.relative_position: time in any unit", {"t": In(lo=-3, hi=9)}, program,
             lambda I, O, Kx: [Kx.eq("time", O["g"], np.broadcast_to(O["w"], O["g"].shape), scale=1.0), Kx.eq("parallax ignored", O["p"], np.broadcast_to(O["w"], O["p"].shape), scale=1.0)],
             functions=["jaxoplanet.orbits.transit.TransitOrbit.relative_position"], n_samples=10, definedness=False, tol=1e-6)


orbit_time("TransitOrbit", lambda: TransitOrbit(period=3.0, duration=0.2, time_transit=0.3, impact_param=0.1, radius_ratio=0.1))
orbit_time("TTVOrbit", lambda: TTVOrbit(period=3.0, duration=0.2, time_transit=0.3, ttvs=(np.array([0.1, -0.2]),)))

# light curves and their transforms
FLUX = GhostFn("flux13", 1, lambda t: 1.0 / (1.0 + t * t))


def flux(t):
    return FLUX(t.to("day").magnitude if hasattr(t, "to") else t)


def lc(name, ins, calls, opaque=(), functions=()):
    """calls(I) -> list of thunks; the first uses plain numbers, every other one states the same value in another unit"""

    def program(**I):
        rs = [jnp.reshape(jnp.asarray(c()), (-1,)) for c in calls(I)]
        return {"w": rs[0], "g": jnp.stack(rs[1:])}

    Contract("C13", f"{name} in any unit", ins, program, lambda I, O, Kx: [Kx.eq("flux", O["g"], np.broadcast_to(O["w"], O["g"].shape), scale=1.0)],
             opaque=list(opaque), functions=list(functions), n_samples=10, definedness=False, tol=1e-6)


T = {"t": In(lo=-1, hi=4)}


def units_of(f, v, dim="time"):
    return [lambda: f(v)] + [lambda u=u: f(given(v, dim, u)) for u in DIMS[dim]]


tro = TransitOrbit(period=3.0, duration=0.2, time_transit=0.3, impact_param=0.1, radius_ratio=0.1)
lc("limb_dark light curve time", T, lambda I: units_of(limb_dark.light_curve(tro, jnp.array([0.2, 0.1])), I["t"]), [LD], ["jaxoplanet.light_curves.limb_dark.light_curve"])
from jaxoplanet.starry.orbit import SurfaceSystem  # noqa: E402
from jaxoplanet.starry.surface import Surface  # noqa: E402

EM = SurfaceSystem(Central(mass=1.0, radius=1.0), Surface()).add_body(period=3.0, radius=0.1, time_transit=0.2, surface=Surface(amplitude=0.3))
lc("emission light curve time", T, lambda I: units_of(emission.light_curve(EM), I["t"]), [LD], ["jaxoplanet.light_curves.emission.light_curve"])
lc("integrate: exposure_time", {**T, "e": In(lo=0.01, hi=0.2, pos=True)}, lambda I: units_of(lambda e: transforms.integrate(flux, exposure_time=e, order=2, num_samples=3)(I["t"]), I["e"]), [FLUX], ["jaxoplanet.light_curves.transforms.integrate"])
lc("integrate: time", {**T, "e": In(lo=0.01, hi=0.2, pos=True)}, lambda I: units_of(transforms.integrate(flux, exposure_time=I["e"], order=1, num_samples=3), I["t"]), [FLUX], ["jaxoplanet.light_curves.transforms.integrate"])


# incompatible units are refused by every entry point
def refusals(ctx):
    def bad(dim):
        same = {"angle", "parallax", "number"}
        for d in DIMS:
            if d != dim and not (d in same and dim in same):
                yield ureg.Quantity(1.0, ureg.parse_units(default_of(d)))

    def refuse(name, f, q):
        try:
            f(q)
            got = "accepted"
        except Exception as ex:  # noqa: BLE001
            got = type(ex).__name__
        ctx.ok(f"{name} refuses {q.units}", "Dimensionality" in got, {"argument": name, "unit": str(q.units)}, got, "DimensionalityError")

    mid = {k: 0.5 * (v[1] + v[2]) for t in (CENTRAL, PROPS, BODY, TRANSIT) for k, v in t.items()}
    ttv = lambda **k: TTVOrbit(ttvs=(jnp.array([0.01, -0.03, 0.02]),), **k)  # noqa: E731
    for name, make, table, sets in (("Central", lambda **k: Central(**k), CENTRAL, CENTRAL_SETS), ("Central.from_orbital_properties", lambda **k: Central.from_orbital_properties(**k), PROPS, PROPS_SETS),
                                    ("Body", lambda **k: Body(**k), BODY, BODY_SETS), ("TransitOrbit", lambda **k: TransitOrbit(**k), TRANSIT, TRANSIT_SETS), ("TTVOrbit", ttv, TRANSIT, TRANSIT_SETS)):
        for keys in sets:
            for k in keys:
                kw = {x: mid[x] if table[x][1] > -1 else 0.3 for x in keys}
                for q in bad(table[k][0]):
                    refuse(f"{name}({k})", lambda q, k=k, kw=kw: make(**{**kw, k: q}), q)
    o = body(period=3.0, mass=0.01)
    for m in BODY_METHODS:
        for q in bad("time"):
            refuse(f"{m}(t)", getattr(o, m), q)
        if m.endswith("position"):
            for q in bad("parallax"):
                refuse(f"{m}(parallax)", lambda q, m=m: getattr(o, m)(0.1, parallax=q), q)
    for q in bad("time"):
        refuse("TransitOrbit.relative_position(t)", tro.relative_position, q)
        refuse("limb_dark light curve(t)", limb_dark.light_curve(tro, jnp.array([0.2])), q)
        refuse("integrate(exposure_time)", lambda q: transforms.integrate(flux, exposure_time=q), q)
        refuse("integrate(t)", transforms.integrate(flux, exposure_time=0.1), q)
        for k in ("period", "time_transit", "duration"):
            kw = dict(period=3.0, time_transit=0.1, duration=0.5)
            refuse(f"interpolate({k})", lambda q, k=k, kw=kw: transforms.interpolate(flux, num_samples=4, **{**kw, k: q}), q)
        refuse("interpolate(t)", transforms.interpolate(flux, num_samples=4, period=3.0, time_transit=0.1, duration=0.5), q)
        for k in ("ttvs", "transit_times"):
            base = dict(duration=0.1) | ({"period": 3.0} if k == "ttvs" else {})
            refuse(f"TTVOrbit({k})", lambda q, k=k, base=base: TTVOrbit(**base, **{k: (np.array([0.0, 1.0]) * q,)}), q)


HostContract("C13", "incompatible units are refused by every entry point", refusals, functions=[U + "decorator._apply_units"])
