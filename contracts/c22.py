"""C22 intensity of surfaces."""
import math

import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.starry.light_curves import surface_light_curve
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.utils import ortho_grid
from jaxoplanet.starry.ylm import Ylm
from jv.contract import Contract, HostContract, In

from .c20 import ALL, ANGLE, MATRICES, NOISE, SKY, limb, sky, vec
from .c21 import axis, speed
from .rotations import FROM_ROTVEC, FULL
from .sphere import map_value

F = "jaxoplanet.starry.surface.Surface."
XY = {"x": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0]), "y": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0])}


def inputs(deg, nu, given, **more):
    out = {"v": vec((deg + 1) ** 2), "a": In(lo=-2, hi=2), **{k: ANGLE for k in given}, **more}
    if nu:
        out["u"] = In(shape=(nu,), lo=-0.3, hi=0.5, edges=[0.0])
    return out


def surface(I, nu, **kw):
    return Surface(**{"y": Ylm.from_dense(I["v"], normalize=False), "inc": I.get("inc"), "obl": I.get("obl"), "u": [I["u"][k] for k in range(nu)] if nu else (), "normalize": False, "amplitude": I.get("a"), **kw})


def limb_at(u, nu, z):
    return 1.0 - sum((u[k] * (1.0 - z) ** (k + 1) for k in range(nu)), 0.0)


def seen(I, K, nu, p):
    """brightness of the map at a point of the sky"""
    return I["a"] * map_value(I["v"], *sky(K, I, I.get("inc"), I.get("obl"), p)) * limb_at(I.get("u"), nu, p[2])


KW = {"opaque": [MATRICES, SKY], "n_samples": 20}


def on_disc(I, K):
    return [K.le(I["x"] ** 2 + I["y"] ** 2, 1.0)]


def at_sky(deg, nu, given):
    def program(x, y, **I):
        return {"I": surface(I, nu)._intensity(x, y, jnp.sqrt(1 - x**2 - y**2), theta=I.get("theta"))}

    def ens(I, O, K):
        p = (I["x"], I["y"], K.sqrt(1 - I["x"] ** 2 - I["y"] ** 2))
        return [K.eq("brightness", O["I"], seen(I, K, nu, p), scale=1.0, noise=NOISE)]

    Contract("C22", f"on the sky: degree {deg}, {nu} coefficients, {', '.join(given) or 'no angles'}", inputs(deg, nu, given, **XY), program, ens, requires=on_disc, functions=[F + "_intensity", F + "_poly_basis"], **KW)


for deg, nu, given in ((0, 0, ()), (0, 2, ALL), (1, 0, ALL), (1, 1, ALL), (1, 2, ("inc",)), (2, 0, ALL), (2, 1, ("inc", "theta")), (3, 0, ("theta",)), (1, 1, ()), (1, 0, ("obl", "theta"))):
    at_sky(deg, nu, given)


def doppler(deg, nu, given, shear):
    more = {"Q": In(lo=0.3, hi=5, pos=True), "R": In(lo=0.2, hi=3, pos=True), **({"alpha": In(lo=-1, hi=1, edges=[0.0])} if shear else {})}

    def program(x, y, **I):
        return {"I": surface(I, nu, period=I["Q"], radius=I["R"], shear=I.get("alpha"))._intensity(x, y, jnp.sqrt(1 - x**2 - y**2), theta=I.get("theta"), rv=True)}

    def ens(I, O, K):
        p = (I["x"], I["y"], K.sqrt(1 - I["x"] ** 2 - I["y"] ** 2))
        v = speed(axis(K, I.get("inc"), I.get("obl")), 2 * math.pi * I["R"] / I["Q"], I.get("alpha"), p)
        return [K.eq("brightness times velocity", O["I"], seen(I, K, nu, p) * v, scale=1.0, noise=NOISE)]

    Contract("C22", f"velocity on the sky: degree {deg}, {nu} coefficients, {', '.join(given)}{', shear' * shear}", inputs(deg, nu, given, **more, **XY), program, ens, requires=on_disc, functions=[F + "_intensity", F + "veq"], **KW)


for args in ((0, 1, ALL, False), (1, 0, ALL, False), (0, 0, ALL, True), (1, 1, ("inc", "theta"), True)):
    doppler(*args)


# -- by latitude and longitude ------------------------------------------------------------------
LAT, LON = In(lo=-1.5, hi=1.5, edges=[0.0, np.pi / 2, -np.pi / 2]), In(lo=-3, hi=6, edges=[0.0, np.pi / 2, np.pi])


def place(I, K, lat, lon):
    """the point of the map, and its height above the sky plane"""
    cl, sl, cm, sm = K.cos(lat), K.sin(lat), K.cos(lon), K.sin(lon)
    p = (cl * sm, sl, cl * cm)
    ci, si = (K.cos(I["inc"]), K.sin(I["inc"])) if "inc" in I else (1.0, 0.0)
    return p, ci * p[1] + si * p[2]  # along the pole and along the meridian facing us


def by_latitude(deg, nu, given, shape=(), tier="quick"):
    def program(lat, lon, **I):
        return {"I": surface(I, nu).intensity(lat, lon)}

    def ens(I, O, K):
        out = []
        for k in np.ndindex(*shape):
            lat, lon = (I[n][k] if k else I[n] for n in ("lat", "lon"))
            p, z = place(I, K, lat, lon)
            out.append(K.eq(f"brightness {list(k)}", O["I"][k] if k else O["I"], I["a"] * map_value(I["v"], *p) * limb_at(I.get("u"), nu, z), scale=1.0, noise=NOISE))
        return out

    lat, lon = (In(shape=shape, lo=t.lo, hi=t.hi, edges=t.edges) for t in (LAT, LON))
    Contract("C22", f"latitude and longitude: degree {deg}, {nu} coefficients, {', '.join(given) or 'no angles'}, shape {shape}", inputs(deg, nu, given, lat=lat, lon=lon), program, ens, functions=[F + "intensity"], tier=tier, **{**KW, "opaque": [MATRICES, SKY, FULL, FROM_ROTVEC]})


for args in ((0, 0, ("inc",)), (0, 1, ("inc", "obl")), (1, 0, ("inc", "obl")), (1, 1, ("inc", "obl")), (2, 0, ("inc", "obl")), (2, 1, ("inc",)), (1, 1, ()), (1, 1, ("obl",)), (1, 2, ("inc", "obl"), (2,)), (0, 1, ("inc", "obl"), (3,))):
    by_latitude(*args)
by_latitude(3, 1, ("inc", "obl"), tier="thorough")


# -- images -----------------------------------------------------------------------------------
def image(deg, nu, given, res, rv=False):
    def program(**I):
        kw = {"period": I["Q"], "radius": I["R"]} if rv else {}
        out = surface(I, nu, **kw).render(theta=I.get("theta"), res=res, **({"rv": True} if rv else {}))
        return {"I": jnp.stack([out[j, i] for j, i in pixels])}

    step = [2 * k / (res - 1) - 1 for k in range(res)]
    pixels = [(j, i) for j in range(res) for i in range(res) if step[i] ** 2 + step[j] ** 2 < 0.99]

    def ens(I, O, K):
        out = []
        for n, (j, i) in enumerate(pixels):
            p = (step[i], step[j], math.sqrt(1 - step[i] ** 2 - step[j] ** 2))
            v = speed(axis(K, I.get("inc"), I.get("obl")), 2 * math.pi * I["R"] / I["Q"], None, p) if rv else 1.0
            out.append(K.eq(f"pixel {j}, {i}", O["I"][n], seen(I, K, nu, p) * v, scale=1.0, noise=NOISE))
        return out

    more = {"Q": In(lo=0.3, hi=5, pos=True), "R": In(lo=0.2, hi=3, pos=True)} if rv else {}
    Contract("C22", f"image{' of velocity' * rv}: degree {deg}, {nu} coefficients, {', '.join(given) or 'no angles'}, {res} pixels", inputs(deg, nu, given, **more), program, ens, functions=[F + "render", "jaxoplanet.starry.utils.ortho_grid"], **KW)


for args in ((0, 1, ALL, 4), (1, 0, ALL, 5), (1, 1, ("inc", "theta"), 4), (2, 0, ("inc",), 4), (1, 0, ALL, 4, True)):
    image(*args)


def grid(ctx):
    for res in list(range(2, 30)) + [64, 101, 400]:
        (lat, lon), xyz = ortho_grid(res)
        x, y, z = (np.asarray(t) for t in xyz)
        i, j = np.meshgrid(np.arange(res), np.arange(res))
        X, Y = ((2 * k / (res - 1) - 1).ravel() for k in (i, j))
        r2 = X**2 + Y**2
        inside, edge = r2 < 1 - 1e-12, np.abs(r2 - 1) <= 1e-12
        ok = x.shape == y.shape == z.shape == (1, res * res) and np.allclose(x[0], X, atol=1e-14) and np.allclose(y[0][inside], Y[inside], atol=1e-14)
        ok = ok and np.allclose(z[0][inside] ** 2, 1 - r2[inside], atol=1e-12) and (z[0][inside] > 0).all() and np.isnan(y[0][~inside & ~edge]).all() and np.isnan(z[0][~inside & ~edge]).all()
        ok = ok and np.allclose(np.sin(np.asarray(lat)[0][inside]), Y[inside], atol=1e-12) and np.allclose(np.tan(np.asarray(lon)[0][inside]) * z[0][inside], X[inside], atol=1e-10)
        ctx.ok(f"grid of {res}", bool(ok), {"res": res})
    rng = np.random.default_rng(22)
    for res, inc, obl, nu in ((2, 1.0, None, 0), (3, None, 0.3, 1), (8, 0.7, 0.2, 2), (31, np.pi / 2, -1.0, 0)):
        v = rng.normal(size=9)
        I = {"v": v, "a": 1.3, "theta": 0.8, "u": [0.3, 0.1]} | ({"inc": inc} if inc is not None else {}) | ({"obl": obl} if obl is not None else {})
        got = np.asarray(surface(I, nu).render(theta=0.8, res=res))
        step = np.array([2 * k / (res - 1) - 1 for k in range(res)])
        X, Y = np.meshgrid(step, step)
        r2 = X**2 + Y**2
        inside, edge = r2 < 1 - 1e-9, np.abs(r2 - 1) <= 1e-9
        want = seen(I, np, nu, (X, Y, np.sqrt(np.where(inside, 1 - r2, 0.0))))
        ok = got.shape == (res, res) and np.allclose(got[inside], want[inside], atol=1e-6) and np.isnan(got[~inside & ~edge]).all()
        ctx.ok(f"image of {res} pixels", bool(ok), {"res": res, "inc": inc, "obl": obl}, got[inside].tolist()[:3], want[inside].tolist()[:3])


HostContract("C22", "grid of an image", grid, functions=["jaxoplanet.starry.utils.ortho_grid", F + "render"], bounded="31 resolutions; four whole images of degree 2")


# -- rotation ---------------------------------------------------------------------------------
Contract("C22", "rotational phase", {"t": In(lo=-5, hi=5), "Q": In(lo=0.1, hi=5, pos=True), "f": In(lo=-3, hi=3), "n": In(lo=-3, hi=3)},
         lambda t, Q, f, n: {"p": Surface(period=Q, phase=f).rotational_phase(t), "later": Surface(period=Q, phase=f).rotational_phase(t + n * Q), "zero": Surface(period=Q).rotational_phase(0.0)},
         lambda I, O, K: [K.eq("phase", O["p"], 2 * math.pi * I["t"] / I["Q"] + I["f"]), K.eq("n periods", O["later"] - O["p"], 2 * math.pi * I["n"], scale=1.0), K.eq("no initial phase", O["zero"], 0.0)], functions=[F + "rotational_phase"])


def periodic(deg, nu):
    """a whole period later everything looks the same"""
    more = {"t": In(lo=-3, hi=3), "Q": In(lo=0.3, hi=5, pos=True), "f": In(lo=-3, hi=3)}

    def program(x, y, t, **I):
        s = surface(I, nu, period=I["Q"], phase=I["f"])
        out = {}
        for k, time in (("now", t), ("later", t + I["Q"]), ("before", t - 2 * I["Q"])):
            th = s.rotational_phase(time)
            out[k] = jnp.stack([s._intensity(x, y, jnp.sqrt(1 - x**2 - y**2), theta=th), surface_light_curve(s, theta=th)])
        return out

    req = lambda I, K: on_disc(I, K) + ([K.lt(1e-3, 1.0 - sum((I["u"][k] * (2.0 / ((k + 2) * (k + 3))) for k in range(nu)), 0.0))] if nu else [])  # noqa: E731
    Contract("C22", f"whole periods: degree {deg}, {nu} coefficients", inputs(deg, nu, ("inc", "obl"), **more, **XY), program, lambda I, O, K: [K.eq(k, O[k], O["now"], scale=1.0, noise=NOISE) for k in ("later", "before")], requires=req,
             functions=[F + "rotational_phase", F + "_intensity"], **KW)


periodic(1, 0)
periodic(1, 1)
periodic(2, 0)


# -- everything together ----------------------------------------------------------------------
def end_to_end(ctx):
    rng = np.random.default_rng(22)
    H = np.pi / 2
    for deg, nu in ((1, 1), (3, 0), (5, 2), (0, 6), (9, 0), (4, 4)):
        run = jax.jit(lambda v, u, inc, obl, lat, lon: surface({"v": v, "a": 1.2, "u": u, "inc": inc, "obl": obl}, nu).intensity(lat, lon))  # noqa: B023
        for inc, obl, lat, lon in [(H, 0.0, 0.3, 0.4), (0.0, 0.0, 0.3, 0.4), (np.pi, 0.0, -0.3, 2.0), (H, np.pi, 0.1, -2.0), (H, 1e-6, 0.4, 0.1), (H + 1e-6, 0.0, 0.2, 0.5), (H - 0.004, 0.003, 0.2, 0.5), (1.0, -2.0, H, 0.0), (0.3, 0.2, 0.0, H)] + [tuple(rng.uniform(-3, 3, size=4)) for _ in range(20)]:
            v, u = rng.normal(size=(deg + 1) ** 2), rng.uniform(0, 0.4, size=max(nu, 1))
            I = {"v": v, "u": u, "inc": inc, "obl": obl, "a": 1.2}
            p, z = place(I, np, lat, lon)
            got, want = float(run(v, u, inc, obl, lat, lon)), 1.2 * map_value(v, *p) * limb_at(u, nu, z)
            ctx.ok(f"degree {deg}, inc={inc}, obl={obl}, lat={lat}, lon={lon}", abs(got - want) < 2e-6 * (1 + np.abs(v).sum()), {"v": v.tolist(), "u": u.tolist(), "inc": inc, "obl": obl, "lat": lat, "lon": lon}, got, want)


HostContract("C22", "intensity at sampled places", end_to_end, functions=[F + "intensity"], bounded="six pairs of degrees, 29 inclinations, obliquities, latitudes and longitudes each, every part of the code in float64")
