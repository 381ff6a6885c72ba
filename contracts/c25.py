"""C25 a spot map is the documented dip, rotated to the spot's centre."""
import math

import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.starry import Surface
from jaxoplanet.starry.ylm import Bp, spot_profile, ylm_spot
from jv.contract import Contract, HostContract, In

from .rotations import MATRICES
from .sphere import harmonic, map_value

F = "jaxoplanet.starry.ylm."
XY = {"x": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0]), "y": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0])}
LAT = In(lo=-1.5, hi=1.5, edges=[0.0, math.pi / 2, -math.pi / 2])
LON = In(lo=-4, hi=4, edges=[0.0, math.pi / 2, math.pi, -math.pi])
SPOT = {"contrast": In(lo=-1, hi=1, edges=[0.0, 1.0]), "r": In(lo=0.01, hi=3.1, edges=[0.5, 2.6]), "lat": LAT, "lon": LON}


# -- ghost: the profile and its expansion in zonal harmonics -----------------------------------
def legendre(l, x):
    p, q = np.ones_like(x), x
    if l == 0:
        return p
    for n in range(2, l + 1):
        p, q = q, ((2 * n - 1) * x * q - (n - 1) * p) / n
    return q


def expansion(ydeg, npts, eps=1e-9, smoothing=None):
    """least-squares coefficients of a profile sampled in angle, on sqrt(2l+1) P_l, damped by
    a Gaussian in degree"""
    theta = np.linspace(0.0, math.pi, npts)
    B = np.stack([math.sqrt(2 * l + 1) * legendre(l, np.cos(theta)) for l in range(ydeg + 1)], axis=1)
    s = smoothing if smoothing is not None else 0.5 if ydeg < 4 else 2.0 / ydeg
    G = B.T @ B
    for l in range(ydeg + 1):
        G[l, l] += eps
    M = np.linalg.solve(G, B.T)
    return np.array([[math.exp(-0.5 * l * (l + 1) * s * s) * M[l, k] for k in range(npts)] for l in range(ydeg + 1)]), theta


def dip(theta, r, fac, K):
    """0 far outside the radius, -1 well inside"""
    return 1.0 / (1.0 + K.exp(-(fac * (theta - r)))) - 1.0


def spotted(I, K, p, ydeg, npts, fac):
    M, theta = expansion(ydeg, npts)
    b = [dip(float(t), I["r"], fac, K) for t in theta]
    n = (K.cos(I["lat"]) * K.sin(I["lon"]), K.sin(I["lat"]), K.cos(I["lat"]) * K.cos(I["lon"]))
    mu = n[0] * p[0] + n[1] * p[1] + n[2] * p[2]
    out = harmonic(0, 0, 0.0, 0.0, 1.0)
    for l in range(ydeg + 1):
        c = sum((float(M[l, k]) * b[k] for k in range(npts)), 0.0)
        out = out + I["contrast"] * c * harmonic(l, 0, 0.0, 0.0, mu)
    return out


def sides(I, K):
    z = K.sqrt(1 - I["x"] ** 2 - I["y"] ** 2)
    return {"near side": (I["x"], I["y"], z), "far side": (I["x"], I["y"], -z)}


def on_disc(I, K):
    return [K.le(I["x"] ** 2 + I["y"] ** 2, 1.0)]


# -- the profile --------------------------------------------------------------------------------
PROFILE = {"theta": In(lo=0.0, hi=math.pi, edges=[0.0]), "r": In(lo=0.0, hi=math.pi, edges=[0.0, 3.0]), "fac": In(lo=1.0, hi=400.0, pos=True, edges=[300.0])}


def profile_program(theta, r, fac):
    y, pull = jax.vjp(lambda *a: spot_profile(*a, spot_fac=fac), theta, r)
    gt, gr = pull(jnp.ones_like(y))
    return {"b": y, "gt": gt, "gr": gr}


Contract("C25", "profile: a logistic step of unit depth", PROFILE, lambda theta, r, fac: {"b": spot_profile(theta, r, fac)},
         lambda I, O, K: [K.eq("value", O["b"], dip(I["theta"], I["r"], I["fac"], K), scale=1.0), K.holds("no deeper than 1", K.le(-1.0, O["b"])), K.holds("never brighter", K.le(O["b"], 0.0))],
         functions=[F + "spot_profile"], n_samples=60)
Contract("C25", "profile: derivatives", {"d": In(lo=-0.05, hi=0.05, edges=[0.0]), "r": In(lo=0.06, hi=3.0), "fac": In(lo=1.0, hi=300.0, pos=True)}, lambda d, r, fac: profile_program(r + d, r, fac),
         lambda I, O, K: [K.eq("in angle", O["gt"], I["fac"] * K.exp(-(I["fac"] * I["d"])) / (1.0 + K.exp(-(I["fac"] * I["d"]))) ** 2, scale=1.0), K.eq("in radius", O["gr"], 0.0 - O["gt"], scale=1.0)],
         functions=[F + "spot_profile"], n_samples=40)

def maker(*a, **k):
    """the node matrix is computed in floats once, so outside of the trace"""
    try:
        return ylm_spot(*a, **k)
    except Exception as ex:  # noqa: BLE001
        def fails(*_, error=ex):
            raise error

        return fails


# -- the map ------------------------------------------------------------------------------------
def spot(ydeg, npts, fac, tier="quick", **kw):
    make = maker(ydeg, npts=npts, spot_fac=fac)

    def program(contrast, r, lat, lon, **_):
        return {"v": make(contrast, r, lat, lon).todense()}

    Contract("C25", f"map of a spot, degree {ydeg}, {npts} nodes, sharpness {fac}", {**SPOT, **XY}, program,
             lambda I, O, K: [K.eq(k, map_value(O["v"], *p), spotted(I, K, p, ydeg, npts, fac), scale=1.0, noise=1e-9) for k, p in sides(I, K).items()],
             requires=on_disc, functions=[F + k for k in ("ylm_spot", "Bp", "spot_profile")], opaque=[MATRICES], n_samples=20, tier=tier, **kw)


spot(0, 3, 300)
spot(1, 4, 300)
spot(2, 5, 300)
spot(2, 5, 20)
spot(3, 6, 300)
spot(4, 8, 300)
spot(5, 9, 300, "thorough")
Contract("C25", "no spot", {"r": SPOT["r"], "lat": LAT, "lon": LON, "y": In(lo=-1, hi=1), "x": In(lo=-1, hi=1), "contrast": In(lo=0, hi=0)},
         lambda r, lat, lon, make=maker(2, npts=5), **_: {"v": make(0.0, r, lat, lon).todense()},
         lambda I, O, K: [K.eq(f"coefficient {n}", O["v"][n], 1.0 if n == 0 else 0.0, scale=1.0, noise=1e-12) for n in range(9)], functions=[F + "ylm_spot"], opaque=[MATRICES], n_samples=10)


# -- at the sizes in use, in floats -----------------------------------------------------------
class Floats:
    cos, sin, exp, sqrt = math.cos, math.sin, (lambda x: math.exp(min(x, 700.0))), math.sqrt


def default_size(ctx):
    rng = np.random.default_rng(25)
    for ydeg in (1, 3, 4, 5, 8, 10) if ctx.tier == "quick" else (*range(1, 13), 15):
        make = ylm_spot(ydeg)
        vals = jax.jit(lambda c, r, a, b: make(c, r, a, b).todense())  # noqa: B023
        grads = jax.jit(jax.jacobian(lambda c, r, a, b: make(c, r, a, b).todense(), argnums=(0, 1, 2, 3)))  # noqa: B023
        for _ in range(12):
            I = {"contrast": float(rng.uniform(-1, 1)), "r": float(rng.choice([rng.uniform(0.02, 3.1), 0.5, 2.6])),
                 "lat": float(rng.choice([0.0, rng.uniform(-1.5, 1.5), math.pi / 2])), "lon": float(rng.choice([0.0, rng.uniform(-6, 6), math.pi]))}
            v = np.asarray(vals(*I.values()))
            for _ in range(4):
                p = rng.normal(size=3)
                p /= np.linalg.norm(p)
                got, exp = float(map_value(v, *p)), float(spotted(I, Floats, p, ydeg, 300, 300))
                ctx.ok(f"map of degree {ydeg}", abs(got - exp) < 1e-7 * (1 + abs(exp)), {"ydeg": ydeg, **I, "point": [float(x) for x in p]}, got, exp)
            # derivatives: finite, and those of the map itself
            J = np.stack([np.asarray(g) for g in grads(*I.values())])
            for j, k in enumerate(I):
                h = 1e-6
                d = (np.asarray(vals(*{**I, k: I[k] + h}.values())) - np.asarray(vals(*{**I, k: I[k] - h}.values()))) / (2 * h)
                ctx.ok(f"derivative of the coefficients, degree {ydeg}", np.allclose(J[j], d, rtol=1e-3, atol=1e-4 * (1 + np.abs(d).max())), {"ydeg": ydeg, **I, "with respect to": k}, J[j].tolist()[:9], d.tolist()[:9])


HostContract("C25", "spots of the default resolution", default_size, functions=[F + k for k in ("ylm_spot", "Bp", "spot_profile")], bounded="degrees 1 to 10 (thorough 15), 12 random spots each, values at 4 points and all derivatives")


def single_precision(ctx):
    """derivatives stay finite where single precision overflows"""
    for r in (0.05, 0.31, 0.5, 1.0, 2.0, 3.0):
        for dtype in (jnp.float32, jnp.float64):
            theta = jnp.linspace(0, jnp.pi, 50).astype(dtype)
            y, pull = jax.vjp(lambda t, r: spot_profile(t, r), theta, dtype(r))
            for a in (y, *pull(jnp.ones_like(y))):
                ctx.ok("profile and its derivatives are finite", np.all(np.isfinite(np.asarray(a))), {"radius": r, "dtype": np.dtype(dtype).name}, np.asarray(a).reshape(-1).tolist()[:5], "finite numbers")


HostContract("C25", "profile without overflow", single_precision, functions=[F + "spot_profile"], bounded="six radii, 50 angles, both precisions")


def on_the_sky(ctx):
    """the rendered body has the spot at the requested place, for every orientation"""
    rng = np.random.default_rng(26)
    make = ylm_spot(6)
    for _ in range(20 if ctx.tier == "quick" else 100):
        lat, lon, inc, obl = (float(rng.uniform(*b)) for b in ((-1.4, 1.4), (-3.1, 3.1), (0.1, 3.0), (-3, 3)))
        I = {"contrast": 0.7, "r": 0.4, "lat": lat, "lon": lon}
        s = Surface(y=make(*I.values()), inc=inc, obl=obl, normalize=False)
        for k in range(5):
            at = (lat, lon) if k == 0 else (float(rng.uniform(-1.5, 1.5)), float(rng.uniform(-3.1, 3.1)))
            got, exp = float(s.intensity(*at)), float(spotted(I, Floats, place(*at), 6, 300, 300))
            ctx.ok("intensity of a spotted surface", abs(got - exp) < 1e-6, {**I, "inc": inc, "obl": obl, "at": at}, got, exp)


def place(lat, lon):
    return math.cos(lat) * math.sin(lon), math.sin(lat), math.cos(lat) * math.cos(lon)


HostContract("C25", "spotted surface", on_the_sky, functions=[F + "ylm_spot", "jaxoplanet.starry.surface.Surface.intensity"], bounded="20 random orientations and spots, five places each")
