"""C21 radial velocity of surfaces."""
import functools
import math

import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
from jaxoplanet.starry.doppler import radial_velocity, rv_map_expansion, surface_radial_velocity
from jaxoplanet.starry.orbit import SurfaceSystem
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm
from jaxoplanet.units import unit_registry as ureg
from jv import terms as tm
from jv import trace as tr
from jv.contract import Callee, Contract, HostContract, In, Num

from .c19 import exact_vector
from .c20 import ALL, ANGLE, MATRICES, NOISE, POS, SKY, SOLUTION, intensity, lit, separation, vec, visible_name
from .common import KEPLER, KEPLER_RULES, mag
from .poly import P, X, Y, Z, in_greens, integral
from .rotations import about
from .sphere import map_value

F = "jaxoplanet.starry.doppler."


# -- ghost: the velocity of the surface away from the observer ---------------------------------
def axis(K, inc, obl):
    ci, si = (K.cos(inc), K.sin(inc)) if inc is not None else (1.0, 0.0)
    co, so = (K.cos(obl), K.sin(obl)) if obl is not None else (1.0, 0.0)
    return (0.0 - si * so, si * co, ci)


def speed(a, veq, alpha, p):
    """rotation about the axis a at the equatorial speed veq; positive away from the observer on
    the +z axis; the angular velocity falls with the square of the sine of the latitude"""
    x, y, z = p
    v = (x * a[1] - y * a[0]) * veq
    if alpha is None:
        return v
    s = x * a[0] + y * a[1] + z * a[2]
    return v - v * (s * s) * alpha


XY = {"x": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0]), "y": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0])}
VEQ, ALPHA = In(lo=-3, hi=3, edges=[0.0]), In(lo=-1, hi=1, edges=[0.0])


def field(given):
    """the expansion is that field at every point of the sphere"""
    def ens(I, O, K):
        a = axis(K, I.get("inc", None), I.get("obl"))
        if "inc" not in given:  # without an inclination the expansion is that of an equator-on body
            co, so = (K.cos(I["obl"]), K.sin(I["obl"])) if "obl" in given else (1.0, 0.0)
            a = (0.0 - so, co, 0.0)
        out = []
        for side, s in (("near side", 1.0), ("far side", -1.0)):
            p = (I["x"], I["y"], s * K.sqrt(1 - I["x"] ** 2 - I["y"] ** 2))
            out.append(K.eq(side, map_value(O["y"], *p), speed(a, I["veq"], I.get("alpha"), p), scale=1.0, noise=NOISE))
        return out

    ins = {"veq": VEQ, **{k: ANGLE for k in ("inc", "obl") if k in given}, **({"alpha": ALPHA} if "alpha" in given else {}), **XY}
    Contract("C21", f"velocity field: {', '.join(given) or 'speed only'}", ins, lambda veq, x, y, **I: {"y": rv_map_expansion(veq=veq, **I)}, ens, requires=lambda I, K: [K.le(I["x"] ** 2 + I["y"] ** 2, 1.0)], functions=[F + "rv_map_expansion"], n_samples=20)


for given in ((), ("inc",), ("obl",), ("inc", "obl"), ("alpha",), ("inc", "alpha"), ("obl", "alpha"), ("inc", "obl", "alpha")):
    field(given)


# -- the ratio ----------------------------------------------------------------------------------
def inputs(deg, nu, given, shear, occulted):
    out = {"v": vec((deg + 1) ** 2), "Q": In(lo=0.3, hi=5, pos=True), "R": In(lo=0.2, hi=3, pos=True), **{k: ANGLE for k in given}}
    if nu:
        out["u"] = In(shape=(nu,), lo=-0.3, hi=0.5, edges=[0.0])
    if shear:
        out["alpha"] = ALPHA
    return out | (POS if occulted else {})


def surface(I, nu, **kw):
    kw = {"normalize": False, "period": I.get("Q"), **({"radius": I["R"]} if "R" in I else {}), **kw}
    return Surface(y=Ylm.from_dense(I["v"], normalize=False), inc=I.get("inc"), obl=I.get("obl"), u=[I["u"][k] for k in range(nu)] if nu else (), shear=I.get("alpha"), **kw)


def rv(I, nu, occulted, order=5, **kw):
    where = {k: I[k] for k in "rxyz"} if occulted else {}
    return surface_radial_velocity(surface(I, nu, **kw), **where, theta=I.get("theta"), order=order)


def maps(I, K, deg, nu, cz=None, sz=None):
    """intensity and intensity times velocity, over the sky"""
    m = intensity(I, K, deg, nu, cz, sz)
    p = (X, Y, Z) if cz is None else about("z", cz, 0.0 - sz, (X, Y, Z))
    return m, m * speed(axis(K, I.get("inc"), I.get("obl")), 2 * math.pi * I["R"] / I["Q"], I.get("alpha"), p)


def seen(p, deg, I, K, order, b):
    return sum((a * K.uf(visible_name(n, order), b, I["r"]) for n, a in enumerate(in_greens(p, deg)) if not (isinstance(a, float) and a == 0.0)), 0.0)


KW = {"functions": [F + "surface_radial_velocity", F + "rv_map_expansion", "jaxoplanet.starry.surface.Surface.veq"], "opaque": [MATRICES, SKY, SOLUTION], "n_samples": 20, "definedness": False}


def ratio(deg, nu, given, shear, place, tier="quick"):
    vdeg = 3 if shear else 1

    def parts(I, K):
        if place == "occulted":
            b = separation(I, K)
            m, mv = maps(I, K, deg, nu, I["y"] / b, I["x"] / b)
            return seen(m, deg + nu, I, K, 5, b), seen(mv, deg + nu + vdeg, I, K, 5, b)
        return tuple(integral(p) for p in maps(I, K, deg, nu))

    def req(I, K):
        out = lit(I, K, nu)
        if place == "occulted":
            b = separation(I, K)
            out += [K.lt(0.0, b), K.lt(b, 1 + I["r"]), K.lt(I["r"], 1 + b), K.lt(0.0, I["z"])]
        if place == "behind":
            out += [K.le(I["z"], 0.0)]
        if place == "beside":
            out += [K.le(1 + I["r"], separation(I, K))]
        f = parts(I, K)[0]
        return out + [K.lt(1e-3, f * f)]

    def ens(I, O, K):
        f, fv = parts(I, K)
        return [K.eq("weighted velocity", O["rv"] * f, fv, scale=1.0, noise=NOISE)]

    Contract("C21", f"{place}: degree {deg}, {nu} coefficients, {', '.join(given) or 'no angles'}{', shear' * shear}", inputs(deg, nu, given, shear, place != "alone"), lambda **I: {"rv": rv(I, nu, place != "alone")}, ens, requires=req, tier=tier, **KW)


for args in ((0, 0, (), False), (0, 2, ALL, False), (1, 0, ALL, False), (1, 1, ALL, False), (2, 1, ALL, False), (0, 1, ALL, True), (1, 0, ALL, True), (1, 1, ("inc",), True), (1, 0, ("theta",), False)):
    ratio(*args, "alone")
for args in ((0, 0, ALL, False), (0, 1, ALL, False), (1, 0, ALL, False), (0, 0, ALL, True), (1, 1, ("theta",), False)):
    ratio(*args, "occulted")
ratio(1, 1, ("inc", "theta"), False, "occulted", "thorough")
ratio(2, 0, ("inc",), False, "occulted", "thorough")
for where in ("behind", "beside"):
    for args in ((0, 1, ALL, False), (1, 0, ALL, False), (0, 0, ALL, True)):
        ratio(*args, where)


# -- corollaries ------------------------------------------------------------------------------
def corollary(deg, nu, given, shear, occulted):
    ins = inputs(deg, nu, given, shear, occulted) | {"a": In(lo=0.1, hi=3, pos=True), "k": In(lo=-3, hi=3, edges=[0.0]), "s": In(lo=0.1, hi=3, pos=True)}

    def program(a, k, s, **I):
        f = lambda **kw: rv({**I, **kw}, nu, occulted)  # noqa: E731
        return {"rv": f(), "bright": rv(I, nu, occulted, amplitude=a), "scaled": f(v=s * I["v"]), "fast": f(R=k * I["R"]), "back": f(Q=-I["Q"]), "still": f(R=0.0), "none": rv(I, nu, occulted, period=None), "unit": rv({**I, "v": I["v"] / I["v"][0]}, nu, occulted), "normalised": rv(I, nu, occulted, normalize=True)}

    def ens(I, O, K):
        eq = lambda name, a, b: K.eq(name, a, b, scale=1.0, noise=NOISE)  # noqa: E731
        return [eq("the amplitude does not matter", O["bright"], O["rv"]), eq("the scale of the map does not matter", O["scaled"], O["rv"]), eq("linear in the speed", O["fast"], I["k"] * O["rv"]), eq("reversed", O["back"], 0.0 - O["rv"]),
                K.eq("no speed", O["still"], 0.0), K.eq("no period", O["none"], 0.0), eq("normalised", O["normalised"], O["unit"])]

    def req(I, K):
        f = integral(intensity(I, K, deg, nu))
        out = lit(I, K, nu) + [K.not_(K.equal(I["v"][0], 0.0))]
        if occulted:  # some light left
            b = separation(I, K)
            out += [K.lt(0.0, b), K.lt(b, 1 + I["r"]), K.lt(I["r"], 1 + b), K.lt(0.0, I["z"])]
        return out + [K.lt(1e-3, f * f)]

    Contract("C21", f"corollaries: degree {deg}, {nu} coefficients{', shear' * shear}{', occulted' * occulted}", ins, program, ens, requires=req, **KW)


for args in ((0, 0, ALL, False, False), (0, 1, ALL, True, False), (1, 0, ALL, False, False), (1, 1, ("inc", "theta"), False, False), (0, 1, ALL, False, True), (1, 0, ("inc", "theta"), False, True)):
    corollary(*args)


# -- systems ----------------------------------------------------------------------------------
class AnySurfaceVelocity(Callee):
    """surface_radial_velocity by its contract: a function of the surface and the geometry"""

    def __init__(self):
        self.path, self.name, self.jvp = "jaxoplanet.starry.doppler:surface_radial_velocity", "surface_velocity", None
        self.real_uf = {"rv_of_surface": real_velocity}
        Num.uf_real["rv_of_surface"] = real_velocity
        tr.Opaque(self.name, None, (0,) * 10, lambda *s: ((),), lambda *a: [tr.oarr((), [tm.uf("rv_of_surface", tuple(x[()] for x in a))])])

    def stub(self):
        def call(surface, r=None, x=None, y=None, z=None, theta=None, order=20, higher_precision=False):
            alone = r is None
            return tr.opaque_call(self.name, surface.period, surface.phase, surface.radius, surface.inc, *([FAR] * 4 if alone else [r, x, y, z]), theta, 20.0 if alone else float(order))[0]

        return call


FAR = -99.0  # no occultor


@functools.cache
def _velocity(alone, order):
    def f(q, ph, R, inc, r, x, y, z, theta):
        s = Surface(inc=inc, period=q, phase=ph, radius=R, u=(0.3,))
        return surface_radial_velocity(s, theta=theta) if alone else surface_radial_velocity(s, r, x, y, z, theta, order=order)

    return jax.jit(f)


_real = surface_radial_velocity


def real_velocity(*a):
    a = np.broadcast_arrays(*[np.asarray(t, dtype=float) for t in a])
    out = np.empty(a[0].shape)
    for k in np.ndindex(out.shape):
        v = [float(t[k]) for t in a]
        out[k] = float(_velocity(v[4] == FAR, int(v[9]))(*v[:9]))
    return out if out.shape else float(out)


VELOCITY = AnySurfaceVelocity()


def system(n, tshape, order, same=True):
    W = lambda lo, hi, **k: In(shape=(n,), lo=lo, hi=hi, **k)  # noqa: E731
    ins = {"t": In(shape=tshape, lo=-3, hi=3), "M": In(lo=0.3, hi=3, pos=True), "Rs": In(lo=0.5, hi=2, pos=True), "Q": In(lo=0.5, hi=3, pos=True), "f": In(lo=-1, hi=1), "ic": In(lo=0.5, hi=2),
           "P": W(1, 20, pos=True), "R": W(0.05, 0.5, pos=True), "m": W(1e-3, 0.1, pos=True), "i": W(1.5, 1.6), "Qb": W(0.5, 3, pos=True), "fb": W(-1, 1), "ib": W(0.5, 2)}

    def program(**I):
        cen = Central(mass=I["M"], radius=I["Rs"])
        kws = [dict(period=I["P"][k], radius=I["R"][k], inclination=I["i"][k], mass=I["m"][k]) for k in range(n)]
        if not same:
            kws[-1]["asc_node"] = 0.3
        surf = lambda q, f, inc, R: Surface(inc=inc, period=q, phase=f, radius=R, u=(0.3,))  # noqa: E731
        s = SurfaceSystem(cen, surf(I["Q"], I["f"], I["ic"], I["Rs"]), bodies=[(Body(**k), surf(I["Qb"][j], I["fb"][j], I["ib"][j], I["R"][j])) for j, k in enumerate(kws)])
        bs = [OrbitalBody(cen, Body(**k)) for k in kws]
        at = [I["t"][ti] if ti else I["t"] for ti in np.ndindex(*tshape)]
        pos = lambda b, t: jnp.stack([jnp.asarray(mag(x, ureg.R_sun)) for x in b.relative_position(t)])  # noqa: E731
        return {"rv": radial_velocity(s, **({} if order is None else {"order": order}))(I["t"]), "X": jnp.stack([jnp.stack([pos(b, t) for b in bs]) for t in at]),
                "reflex": jnp.stack([jnp.stack([mag(b.radial_velocity(t), ureg.R_sun / ureg.day) for b in bs]) for t in at])}

    def ens(I, O, K):
        o, out = 20.0 if order is None else float(order), []
        for k, ti in enumerate(np.ndindex(*tshape)):
            t = I["t"][ti] if ti else I["t"]
            got = O["rv"][ti] if ti else O["rv"]
            me = (I["Q"], I["f"], I["Rs"], I["ic"])
            th = 2 * math.pi * t / I["Q"] + I["f"]
            alone = K.uf("rv_of_surface", *me, *[FAR] * 4, th, 20.0)
            X = [[O["X"][k, j, c] for c in range(3)] for j in range(n)]
            seen = [K.uf("rv_of_surface", *me, I["R"][j] / I["Rs"], *[c / I["Rs"] for c in X[j]], th, o) for j in range(n)]
            # every body acts on the same unocculted velocity, and all pull on the central
            out.append(K.eq(f"central {list(ti)}", got[0], alone + sum((s - alone for s in seen), 0.0) + sum((O["reflex"][k, j] for j in range(n)), 0.0), scale=1.0))
            for j in range(n):
                out.append(K.eq(f"body {j} {list(ti)}", got[1 + j], K.uf("rv_of_surface", I["Qb"][j], I["fb"][j], I["R"][j], I["ib"][j], I["Rs"] / I["R"][j], *[0.0 - c / I["R"][j] for c in X[j]], 2 * math.pi * t / I["Qb"][j] + I["fb"][j], o), scale=1.0))
        return out

    Contract("C21", f"system of {n} bodies, times {tshape}, order {order}{'' if same else ', different structure'}", ins, program, ens, opaque=[VELOCITY, KEPLER], uf_rules=KEPLER_RULES, functions=[F + "radial_velocity", "jaxoplanet.starry.system_observable.system_observable"], n_samples=8, definedness=False)


system(1, (), None)
system(2, (), 7)
system(1, (2,), 7)
system(2, (2,), None)
system(2, (), None, same=False)


# -- everything together ----------------------------------------------------------------------
def end_to_end(ctx):
    rng = np.random.default_rng(21)
    for deg, nu, shear in ((0, 0, False), (0, 2, True), (1, 1, False), (2, 0, True), (3, 1, False), (0, 5, False), (6, 0, True)):
        N, vdeg = (deg + 1) ** 2, 3 if shear else 1

        @jax.jit
        def run(v, u, a, inc, obl, theta, Q, R, alpha, r, x, y, z):
            s = Surface(y=Ylm.from_dense(v, normalize=False), u=[u[k] for k in range(nu)] if nu else (), inc=inc, obl=obl, amplitude=a, normalize=False, period=Q, radius=R, shear=alpha if shear else None)
            return surface_radial_velocity(s, r=r, x=x, y=y, z=z, theta=theta)

        for x, y, r, z in [(0.0, 0.0, 0.1, 1.0), (0.3, -0.4, 0.2, 1.0), (0.0, 0.95, 0.1, 1.0), (2.0, 1.0, 0.5, 1.0), (0.2, 0.3, 0.1, -1.0), (0.5, 0.0, 0.5, 1.0)] + [(*rng.uniform(-1, 1, size=2), float(rng.uniform(0.02, 0.8)), 1.0) for _ in range(6 if ctx.tier == "quick" else 40)]:
            v, u = rng.normal(size=N) * 0.2, rng.uniform(0, 0.4, size=max(nu, 1))
            v[0] = 1.0
            I = {"v": v, "u": u, "inc": float(rng.choice([0.0, np.pi / 2, 1.1])), "obl": float(rng.choice([0.0, -0.7, 2.0])), "theta": float(rng.uniform(-3, 3)), "Q": float(rng.uniform(0.5, 3)), "R": float(rng.uniform(0.5, 2))} | ({"alpha": float(rng.uniform(-0.5, 0.5))} if shear else {})
            got = float(run(v, u, 1.7, I["inc"], I["obl"], I["theta"], I["Q"], I["R"], I.get("alpha", 0.0), r, float(x), float(y), z))
            b = float(np.hypot(x, y))
            if z <= 0 or b >= 1 + r:
                m, mv = (integral(p) for p in maps(I, np, deg, nu))
            else:
                cz, sz = (y / b, x / b) if b else (1.0, 0.0)
                s = exact_vector(deg + nu + vdeg, b, r)
                c, cv = (np.array(in_greens(p, d), dtype=float) for p, d in zip(maps(I, np, deg, nu, cz, sz), (deg + nu, deg + nu + vdeg)))
                m, mv = c @ s[: len(c)], cv @ s
            if abs(m) < 0.05:
                continue
            ctx.ok(f"degree {deg}, {nu} coefficients, shear {shear}, x={x}, y={y}, r={r}, z={z}", abs(got - mv / m) < 1e-5 * (1 + abs(mv / m)), {k: (t.tolist() if hasattr(t, "tolist") else t) for k, t in {**I, "x": float(x), "y": float(y), "z": z, "r": r}.items()}, got, float(mv / m))


HostContract("C21", "velocity at sampled positions", end_to_end, functions=[F + "surface_radial_velocity"], bounded="7 configurations, 12 positions each (thorough 46), every part of the code in float64 against line integrals, tolerance 1e-5")
