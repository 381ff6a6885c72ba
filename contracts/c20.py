"""C20 light curves of surfaces."""
import functools
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.starry.core import solution as S
from jaxoplanet.orbits.keplerian import Body, Central
from jaxoplanet.starry.light_curves import light_curve, surface_light_curve
from jaxoplanet.starry.orbit import SurfaceSystem
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.system_observable import system_observable
from jaxoplanet.starry.ylm import Ylm
from jaxoplanet.units import unit_registry as ureg
from jv import terms as tm
from jv import trace as tr
from jv.contract import Callee, Contract, GhostFn, HostContract, In, Num

from .c08 import LD
from .c19 import exact_vector
from .poly import P, X, Y, Z, greens_poly, in_greens, integral
from .rotations import MATRICES, SKY, about
from .sphere import lm, map_value

F = "jaxoplanet.starry.light_curves."


# -- the contract of the occultation vector (proved in C19) -----------------------------------
@functools.cache
def real_visible(n, order):
    fn = jax.jit(S.solution_vector(max(lm(n)[0], 1), order=order))
    return np.vectorize(lambda b, r: float(fn(float(b), float(r))[n]), otypes=[float])


def visible_name(n, order):
    """integral of the n-th Green's term over the part of the disc outside the occultor"""
    name = f"visible_{n}_{order}"
    if name not in Num.uf_real:
        Num.uf_real[name] = lambda b, r: real_visible(n, order)(b, r)
    return name


class Solution(Callee):
    def __init__(self):
        self.path, self.name, self.jvp, self.real_uf = "jaxoplanet.starry.core.solution:solution_vector", "occultation_vector", None, {visible_name(n, o): (lambda b, r, n=n, o=o: real_visible(n, o)(b, r)) for n in range(64) for o in (5, 20)}

    def stub(self):
        def call(l_max, order=20):
            name, N = f"occultation_vector_{l_max}_{order}", (l_max + 1) ** 2
            if name not in tr.Opaque.registry:
                def model(b, r):
                    b, r = b[()], r[()]
                    return [tr.oarr((N,), [tm.ite(tm.le(1.0 + b, r), tm.ZERO, tm.uf(visible_name(n, order), (b, r))) for n in range(N)])]

                tr.Opaque(name, None, (0, 0), lambda *s: ((N,),), model)
            return lambda b, r: tr.opaque_call(name, b, r)[0]

        return call


SOLUTION = Solution()


# -- ghost ------------------------------------------------------------------------------------
def sky(K, I, inc, obl, p, cz=None, sz=None):
    """a point of the sky frame in the frame of the map"""
    if cz is not None:
        p = about("z", cz, 0.0 - sz, p)
    if obl is not None:
        p = about("z", K.cos(obl), 0.0 - K.sin(obl), p)
    if inc is not None:
        p = about("x", K.cos(inc), K.sin(inc), p)
    if "theta" in I:
        p = about("z", K.cos(I["theta"]), 0.0 - K.sin(I["theta"]), p)
    return about("x", 0.0, -1.0, p)


def limb(u, nu):
    out = P.of(1.0)
    for k in range(nu):
        out = out - (P.of(1.0) - Z) ** (k + 1) * u[k]
    return out


def intensity(I, K, deg, nu, cz=None, sz=None):
    """of the sky, as a polynomial on the visible hemisphere; normalised limb darkening"""
    m = P.of(map_value(I["v"], *sky(K, I, I.get("inc"), I.get("obl"), (X, Y, Z), cz, sz))) if deg else P.of(I["v"][0] * map_value([1.0], 0.0, 0.0, 1.0))
    return m * limb(I.get("u"), nu)


def norm(I, K, nu):
    """mean of the limb darkening"""
    return 1.0 - sum((I["u"][k] * (2.0 / ((k + 2) * (k + 3))) for k in range(nu)), 0.0)


def total(I, K, deg, nu):
    return integral(intensity(I, K, deg, nu))


def visible(I, K, deg, nu, order, b):
    cz, sz = (I["y"] / b, I["x"] / b)
    c = in_greens(intensity(I, K, deg, nu, cz, sz), deg + nu)
    return sum((a * K.uf(visible_name(n, order), b, I["r"]) for n, a in enumerate(c) if not (isinstance(a, float) and a == 0.0)), 0.0)


# -- configurations ---------------------------------------------------------------------------
ANGLE = In(lo=-4, hi=7, edges=[0.0, np.pi / 2, np.pi, 2 * np.pi])
POS = {"x": In(lo=-2, hi=2, edges=[0.0]), "y": In(lo=-2, hi=2, edges=[0.0]), "z": In(lo=-3, hi=3, edges=[0.0]), "r": In(lo=0.01, hi=3, nonneg=True, edges=[1.0])}


def vec(n):
    return In(shape=(n,), lo=-1, hi=1, edges=[0.0])


def inputs(deg, nu, given=("inc", "obl", "theta"), occulted=True, amp=True):
    out = {"v": vec((deg + 1) ** 2)}
    if nu:
        out["u"] = In(shape=(nu,), lo=-0.3, hi=0.5, edges=[0.0])
    if amp:
        out["a"] = In(lo=-2, hi=2)
    out |= {k: ANGLE for k in given}
    return out | (POS if occulted else {})


def surface(I, deg, nu, normalize=False):
    return Surface(y=Ylm.from_dense(I["v"], normalize=False), inc=I.get("inc"), obl=I.get("obl"), u=[I["u"][k] for k in range(nu)] if nu else (), normalize=normalize, **({"amplitude": I["a"]} if "a" in I else {}))


def flux(I, deg, nu, order=5, occulted=True, normalize=False):
    s = surface(I, deg, nu, normalize)
    where = {k: I[k] for k in "rxyz"} if occulted else {}
    return surface_light_curve(s, **where, theta=I.get("theta"), order=order)


def lit(I, K, nu):
    """the limb darkening leaves some light"""
    return [K.lt(1e-3, norm(I, K, nu))] if nu else []


def amp(I):
    return I["a"] if "a" in I else 1.0


KW = {"functions": [F + "surface_light_curve"], "opaque": [MATRICES, SKY, SOLUTION], "n_samples": 20}
NOISE = 1e-12


def goal(name, got, I, K, nu, want):
    """the flux is normalised by the limb darkening"""
    return K.eq(name, got * norm(I, K, nu), amp(I) * want, scale=1.0, noise=NOISE)


def phase_curve(deg, nu, given, tier="quick", normalize=False):
    def ens(I, O, K):
        if normalize:  # the constant coefficient becomes the amplitude
            return [K.eq("flux", O["F"] * norm(I, K, nu), total(I, K, deg, nu), scale=1.0, noise=NOISE)]
        return [goal("flux", O["F"], I, K, nu, total(I, K, deg, nu))]

    req = lambda I, K: lit(I, K, nu) + ([K.not_(K.equal(I["v"][0], 0.0))] if normalize else [])  # noqa: E731
    Contract("C20", f"phase curve{', normalised' * normalize}: degree {deg}, {nu} coefficients, {', '.join(given) or 'no angles'}", inputs(deg, nu, given, False, not normalize),
             lambda **I: {"F": flux(I, deg, nu, occulted=False, normalize=normalize)}, ens, requires=req, tier=tier, **KW)


ALL = ("inc", "obl", "theta")
for deg, nu, given in ((0, 0, ()), (0, 2, ALL), (1, 0, ALL), (1, 1, ALL), (1, 2, ("inc",)), (2, 0, ALL), (2, 2, ALL), (3, 1, ("inc", "theta")), (1, 3, ("theta",)), (1, 0, ())):
    phase_curve(deg, nu, given)
phase_curve(1, 1, ALL, normalize=True)
phase_curve(0, 1, ALL, normalize=True)


def separation(I, K):
    return K.sqrt(I["x"] ** 2 + I["y"] ** 2)


def occulted(deg, nu, given, order=5, tier="quick"):
    def ens(I, O, K):
        b = separation(I, K)
        return [goal("flux", O["F"], I, K, nu, visible(I, K, deg, nu, order, b))]

    def req(I, K):
        b = separation(I, K)
        return lit(I, K, nu) + [K.lt(0.0, b), K.lt(b, 1 + I["r"]), K.lt(I["r"], 1 + b), K.lt(0.0, I["z"])]

    Contract("C20", f"occulted: degree {deg}, {nu} coefficients, {', '.join(given) or 'no angles'}", inputs(deg, nu, given), lambda **I: {"F": flux(I, deg, nu, order)}, ens, requires=req, tier=tier, **KW)


for deg, nu, given in ((1, 0, ALL), (1, 1, ALL), (2, 0, ALL), (1, 2, ("inc",)), (2, 1, ("theta",)), (3, 0, ("inc",)), (2, 2, ALL), (1, 0, ("inc", "obl")), (1, 1, ())):
    occulted(deg, nu, given)
occulted(1, 1, ("inc", "theta"), 20)


def concentric(deg, nu, given):
    def program(**I):
        return {"F": flux({**I, "x": 0.0 * I["r"], "y": 0.0 * I["r"]}, deg, nu)}

    def ens(I, O, K):
        c = in_greens(intensity(I, K, deg, nu, 1.0, 0.0), deg + nu)
        return [goal("flux", O["F"], I, K, nu, sum((a * K.uf(visible_name(n, 5), 0.0, I["r"]) for n, a in enumerate(c) if not (isinstance(a, float) and a == 0.0)), 0.0))]

    ins = {k: v for k, v in inputs(deg, nu, given).items() if k not in "xy"}
    Contract("C20", f"concentric: degree {deg}, {nu} coefficients", ins, program, ens, requires=lambda I, K: lit(I, K, nu) + [K.lt(I["r"], 1.0), K.lt(0.0, I["z"])], **KW)


concentric(1, 1, ALL)
concentric(2, 0, ("inc", "theta"))
occulted(4, 0, ALL, tier="thorough")
occulted(3, 2, ALL, tier="thorough")


def clear(deg, nu, given, where, tier="quick"):
    """nothing in front: the phase curve, wherever the other body is"""
    def ens(I, O, K):
        return [goal("flux", O["F"], I, K, nu, total(I, K, deg, nu)), K.eq("same as without another body", O["F"], O["alone"], scale=1.0, noise=NOISE)]

    req = lambda I, K: lit(I, K, nu) + [K.le(I["z"], 0.0) if where == "behind" else K.le(1 + I["r"], separation(I, K))]  # noqa: E731
    Contract("C20", f"{where}: degree {deg}, {nu} coefficients", inputs(deg, nu, given), lambda **I: {"F": flux(I, deg, nu), "alone": flux(I, deg, nu, occulted=False)}, ens, requires=req, tier=tier, **{**KW, "opaque": KW["opaque"] + [LD]})


for where in ("behind", "beside"):
    for deg, nu, given in ((0, 0, ()), (0, 1, ()), (0, 2, ALL), (1, 0, ALL), (1, 2, ALL), (2, 1, ALL), (1, 1, ())):
        clear(deg, nu, given, where)


def covered(deg, nu, given):
    def req(I, K):
        return lit(I, K, nu) + [K.le(1 + separation(I, K), I["r"]), K.lt(0.0, I["z"])]

    Contract("C20", f"covered: degree {deg}, {nu} coefficients", inputs(deg, nu, given), lambda **I: {"F": flux(I, deg, nu)}, lambda I, O, K: [K.eq("dark", O["F"], 0.0, scale=1.0)], requires=req, **KW)


for deg, nu, given in ((0, 0, ()), (0, 1, ALL), (1, 0, ALL), (1, 1, ()), (2, 2, ("inc", "theta")), (3, 0, ("inc", "theta"))):
    covered(deg, nu, given)


def uniform(nu, given, order, normalize=False):
    """a map without structure: the limb-darkened transit, whatever the angles"""
    def ens(I, O, K):
        b = separation(I, K)
        lc = K.where(K.lt(0.0, I["z"]), K.where(K.lt(b, 1 + I["r"]), K.uf("ld_flux", b, I["r"], float(order), *[I["u"][k] for k in range(nu)]), 0.0), 0.0)
        return [K.eq("flux", O["F"], amp(I) * I["v"][0] * (1 + lc), scale=1.0)]

    Contract("C20", f"uniform{', normalised' * normalize}: {nu} coefficients, {', '.join(given) or 'no angles'}, order {order}", inputs(0, nu, given, amp=not normalize), lambda **I: {"F": flux(I, 0, nu, order, normalize=normalize)}, ens,
             requires=lambda I, K: [K.not_(K.equal(I["v"][0], 0.0))] if normalize else [], functions=KW["functions"], opaque=[LD], n_samples=20)


for nu, given, order in ((0, (), 20), (1, ALL, 5), (2, ALL, 20), (3, ("inc",), 7)):
    uniform(nu, given, order)
uniform(2, ALL, 20, True)


# -- corollaries ------------------------------------------------------------------------------
def linear(deg, nu):
    N = (deg + 1) ** 2
    ins = inputs(deg, nu) | {"w": vec(N), "p": In(lo=-2, hi=2), "q": In(lo=-2, hi=2)}

    def program(v, w, p, q, **I):
        f = lambda x: flux({**I, "v": x}, deg, nu)  # noqa: E731
        return {"sum": f(p * v + q * w), "v": f(v), "w": f(w), "twice": flux({**I, "v": v, "a": p * I["a"]}, deg, nu)}

    Contract("C20", f"linear in the map and the amplitude: degree {deg}, {nu} coefficients", ins, program,
             lambda I, O, K: [K.eq("map", O["sum"], I["p"] * O["v"] + I["q"] * O["w"], scale=1.0, noise=NOISE), K.eq("amplitude", O["twice"], I["p"] * O["v"], scale=1.0, noise=NOISE)],
             requires=lambda I, K: lit(I, K, nu) + [K.lt(0.0, separation(I, K))], **{**KW, "opaque": KW["opaque"] + [LD]}, definedness=False)


for deg, nu in ((0, 1), (1, 0), (1, 1), (2, 0)):
    linear(deg, nu)


# -- systems ----------------------------------------------------------------------------------
OBS = GhostFn("flux_occulted", 7, lambda a, v, r, x, y, z, t: jnp.sin(a + 2 * v) * jnp.cos(r) + x * a - 0.3 * y * v + z * r + 0.2 * t * a)
ALONE = GhostFn("flux_alone", 3, lambda a, v, t: jnp.exp(0.1 * a) * v - 0.4 * t)
STILL = -7.5  # stands for a surface without rotation


def any_observable(surface, r=None, x=None, y=None, z=None, theta=None, order=None):
    t = (STILL if theta is None else theta) + (0.0 if order is None else 100.0 * order)
    a, v = surface.amplitude, surface.y[(0, 0)]
    if r is None:
        return ALONE(a, v, STILL if theta is None else theta)
    return OBS(a, v, r, x, y, z, t)


class Anywhere:
    """a system whose bodies are at arbitrary positions, affine in time"""

    def __init__(self, real, I):
        self.real, self.I = real, I

    def __getattr__(self, k):
        return getattr(self.real, k)

    def relative_position(self, t):
        tt = t.to(ureg.day).magnitude
        return tuple((self.I[k] + self.I["v" + k] * tt) * ureg.R_sun for k in "xyz")


def system(n, tshape, order, rotating, same=True, dark=()):
    W = lambda lo, hi, **k: In(shape=(n,), lo=lo, hi=hi, **k)  # noqa: E731
    ins = {"t": In(shape=tshape, lo=-1, hi=1, edges=[0.0]), "Rs": In(lo=0.5, hi=2, pos=True), "a": In(lo=-1, hi=1), "v0": In(lo=0.2, hi=1)}
    if n:
        ins |= {"R": W(0.05, 0.8, pos=True), "av": W(-1, 1), "bv": W(0.2, 1)}
        for k in "xyz":
            ins[k], ins["v" + k] = W(-1, 1), W(-1, 1)
    if rotating:
        ins |= {"Q": In(lo=0.5, hi=3, pos=True), "f": In(lo=-1, hi=1)} | ({"Qb": W(0.5, 3, pos=True), "fb": W(-1, 1)} if n else {})

    def surf(a, v, q, f):
        return Surface(y=Ylm({(0, 0): v}), amplitude=a, normalize=False, **({} if q is None else {"period": q, "phase": f}))

    def build(I):
        cen = Central(mass=1.0, radius=I["Rs"])
        kws = [dict(period=1.0 + i, radius=I["R"][i]) for i in range(n)]
        bodies = []
        for i, k in enumerate(kws):
            q = None if not rotating or (not same and i == 0) else I["Qb"][i]
            bodies.append((Body(**k), None if i in dark else surf(I["av"][i], I["bv"][i], q, I["fb"][i] if rotating else None)))
        return Anywhere(SurfaceSystem(cen, surf(I["a"], I["v0"], I.get("Q"), I.get("f")), bodies=bodies), I)

    def program(**I):
        return {"f": system_observable(any_observable, **({} if order is None else {"order": order}))(build(I))(I["t"])}

    def angle(I, K, q, f, t, o=True):
        still = STILL if q is None else 2 * math.pi * t / q + f
        return still + 100.0 * order if order is not None and o else still

    def ens(I, O, K):
        out = []
        for ti in np.ndindex(*tshape):
            t = I["t"][ti] if ti else I["t"]
            got = O["f"][ti] if ti else O["f"]
            th, th0 = angle(I, K, I.get("Q"), I.get("f"), t), angle(I, K, I.get("Q"), I.get("f"), t, False)
            alone = K.uf("flux_alone", I["a"], I["v0"], th0)
            pos = [[I[k][i] + I["v" + k][i] * t for k in "xyz"] for i in range(n)]
            seen = [K.uf("flux_occulted", I["a"], I["v0"], I["R"][i] / I["Rs"], *[p / I["Rs"] for p in pos[i]], th) for i in range(n)]
            # each body takes its own share off the same phase curve
            out.append(K.eq(f"central {list(ti)}", got[0], alone + sum((s - alone for s in seen), 0.0), scale=1.0))
            for i in range(n):
                if i in dark:
                    out.append(K.eq(f"dark body {i} {list(ti)}", got[1 + i], 0.0))
                    continue
                q = None if not rotating or (not same and i == 0) else I["Qb"][i]
                tb = angle(I, K, q, I["fb"][i] if rotating else None, t)
                out.append(K.eq(f"body {i} {list(ti)}", got[1 + i], K.uf("flux_occulted", I["av"][i], I["bv"][i], I["Rs"] / I["R"][i], *[0.0 - p / I["R"][i] for p in pos[i]], tb), scale=1.0))
        return out

    Contract("C20", f"system: {n} bodies, times {tshape}, order {order}, {'rotating' if rotating else 'still'}{'' if same else ', different structure'}{f', dark {dark}' if dark else ''}", ins, program, ens, opaque=[OBS, ALONE],
             functions=["jaxoplanet.starry.system_observable.system_observable", "jaxoplanet.starry.surface.Surface.rotational_phase"], n_samples=10, definedness=False)


for args in ((0, (), None, True), (0, (2,), 7, False), (1, (), 7, True), (1, (2,), None, False), (2, (), None, True), (2, (2,), 7, True), (3, (), None, True)):
    system(*args)
system(2, (), 7, True, same=False)
system(2, (), None, True, dark=(0,))
system(1, (), None, True, dark=(0,))
system(3, (), None, False, dark=(1, 2))


def whole(n):
    """light_curve is that observable, with its order"""
    ins = {"t": In(lo=-1, hi=1), "Rs": In(lo=0.5, hi=2, pos=True), "R": In(shape=(n,), lo=0.05, hi=0.8, pos=True), "us": In(shape=(2,), lo=0, hi=0.3), "a": In(shape=(n,), lo=-1, hi=1), "ub": In(shape=(n,), lo=0, hi=0.3)}
    for k in "xyz":
        ins[k], ins["v" + k] = In(shape=(n,), lo=-1, hi=1), In(shape=(n,), lo=-1, hi=1)

    def program(**I):
        bodies = [(Body(period=1.0 + i, radius=I["R"][i]), Surface(amplitude=I["a"][i], normalize=False, u=(I["ub"][i],))) for i in range(n)]
        s = Anywhere(SurfaceSystem(Central(mass=1.0, radius=I["Rs"]), Surface(u=(I["us"][0], I["us"][1])), bodies=bodies), I)
        return {"f": light_curve(s, order=6)(I["t"])}

    def dip(K, x, y, z, r, u):
        b = K.sqrt(x * x + y * y)
        return K.where(K.lt(0.0, z), K.where(K.lt(b, 1 + r), K.uf("ld_flux", b, r, 6.0, *u), 0.0), 0.0)

    def ens(I, O, K):
        pos = [[I[k][i] + I["v" + k][i] * I["t"] for k in "xyz"] for i in range(n)]
        out = [K.eq("central", O["f"][0], 1.0 + sum(dip(K, *[p / I["Rs"] for p in pos[i]], I["R"][i] / I["Rs"], [I["us"][0], I["us"][1]]) for i in range(n)), scale=1.0)]
        for i in range(n):
            out.append(K.eq(f"body {i}", O["f"][1 + i], I["a"][i] * (1.0 + dip(K, *[0.0 - p / I["R"][i] for p in pos[i]], I["Rs"] / I["R"][i], [I["ub"][i]])), scale=1.0))
        return out

    Contract("C20", f"light curve of a system of {n} bodies", ins, program, ens, opaque=[LD], functions=[F + "light_curve", F + "surface_light_curve", "jaxoplanet.starry.system_observable.system_observable"], n_samples=10, definedness=False)


whole(1)
whole(2)


# -- everything together ----------------------------------------------------------------------
def end_to_end(ctx):
    rng = np.random.default_rng(20)
    n = 6 if ctx.tier == "quick" else 30
    D = [0.0, np.pi / 2, np.pi, 0.4, -1.3]
    for deg, nu in ((0, 0), (0, 2), (1, 0), (1, 1), (2, 2), (3, 0), (5, 1), (0, 6), (4, 3), (9, 0)):
        N = (deg + 1) ** 2
        places = [(0.0, 0.0, 0.1, 1.0), (0.3, -0.4, 0.2, 1.0), (-0.7, 0.6, 0.3, 2.0), (0.0, 1.05, 0.1, 1.0), (1.0, 0.0, 2.5, 1.0), (0.2, 0.3, 0.1, -1.0), (2.0, 1.0, 0.5, 1.0), (0.5, 0.0, 0.5, 1.0), (0.0, -0.9, 0.1, 1.0), (0.0, 0.0, 1.0, 1.0), (0.2, 0.1, 0.4, 0.0)]
        places += [(*rng.uniform(-1, 1, size=2), float(rng.uniform(0.02, 1.5)), 1.0) for _ in range(n)]

        @functools.partial(jax.jit, static_argnames=())
        def run(v, u, a, inc, obl, theta, r, x, y, z):
            return surface_light_curve(Surface(y=Ylm.from_dense(v, normalize=False), u=[u[k] for k in range(nu)] if nu else (), inc=inc, obl=obl, amplitude=a, normalize=False), r=r, x=x, y=y, z=z, theta=theta)

        for x, y, r, z in places:
            v, u, a = rng.normal(size=N), rng.uniform(0, 0.4, size=max(nu, 1)), float(rng.uniform(0.5, 2))
            inc, obl, theta = (float(t) for t in rng.choice(D, size=3))
            I = {"v": v, "u": u, "inc": inc, "obl": obl, "theta": theta}
            b = float(np.hypot(x, y))
            got = float(run(v, u, a, inc, obl, theta, r, float(x), float(y), z))
            if z <= 0 or b >= 1 + r:
                want = integral(intensity(I, np, deg, nu))
            else:
                cz, sz = (y / b, x / b) if b else (1.0, 0.0)
                c = np.array(in_greens(intensity(I, np, deg, nu, cz, sz), deg + nu), dtype=float)
                want = float(c @ (exact_vector(max(deg + nu, 1), b, r)[: len(c)]))
            want = a * want / norm(I, np, nu)
            ctx.ok(f"degree {deg}, {nu} coefficients, x={x}, y={y}, r={r}, z={z}", abs(got - want) < 2e-6 * (1 + np.abs(v).sum()), {"v": v.tolist(), "u": u.tolist(), "amplitude": a, "inc": inc, "obl": obl, "theta": theta, "r": r, "x": float(x), "y": float(y), "z": z}, got, want)


HostContract("C20", "flux at sampled positions", end_to_end, functions=[F + "surface_light_curve"], bounded="10 pairs of degrees, 17 positions each (thorough 41), every part of the code in float64 against line integrals, tolerance 2e-6")


def many(ctx):
    """a system of many bodies is the sum of pairs, each by surface_light_curve"""
    rng = np.random.default_rng(201)
    for n, order in ((4, 13), (7, 20)):
        R, Rs, P = rng.uniform(0.2, 0.6, n), 1.2, rng.uniform(2, 6, n)
        cen = Central(mass=1.0, radius=Rs)
        surf = [None if i % 3 == 2 else Surface(y=Ylm.from_dense(np.concatenate([[1.0], 0.2 * rng.normal(size=3)]), normalize=False), u=(0.1, 0.2), inc=rng.uniform(0, 3), obl=rng.uniform(-3, 3), amplitude=rng.uniform(0.1, 1), period=rng.uniform(0.5, 3), phase=rng.uniform(-1, 1), normalize=False) for i in range(n)]
        star = Surface(y=Ylm.from_dense(np.concatenate([[1.0], 0.2 * rng.normal(size=8)]), normalize=False), u=(0.3,), inc=1.2, obl=0.3, period=7.7, phase=0.4, normalize=False)
        s = SurfaceSystem(cen, star, bodies=[(Body(period=P[i], radius=R[i], time_transit=0.0 if i % 2 else P[i] / 2, impact_param=rng.uniform(-1, 1)), surf[i]) for i in range(n)])
        alone = jax.jit(lambda u, th: surface_light_curve(u, theta=th, order=order))  # noqa: B023
        pair = jax.jit(lambda u, r, x, y, z, th: surface_light_curve(u, r=r, x=x, y=y, z=z, theta=th, order=order))  # noqa: B023
        t = rng.uniform(-0.08, 0.08, 3)
        got = np.asarray(light_curve(s, order=order)(t))
        want = np.zeros((3, n + 1))
        for k, tk in enumerate(t):
            th = 2 * np.pi * tk / 7.7 + 0.4
            want[k, 0] = base = float(alone(star, th))
            for i, o in enumerate(s.bodies):
                x, y, z = (float(q.to(ureg.R_sun).magnitude) for q in o.relative_position(float(tk) * ureg.day))
                want[k, 0] += float(pair(star, R[i] / Rs, x / Rs, y / Rs, z / Rs, th)) - base
                if surf[i] is not None:
                    want[k, 1 + i] = float(pair(surf[i], Rs / R[i], -x / R[i], -y / R[i], -z / R[i], 2 * np.pi * tk / float(surf[i].period) + float(surf[i].phase)))
        ctx.ok(f"{n} bodies, order {order}", got.shape == want.shape and np.allclose(got, want, rtol=0, atol=1e-8), {"bodies": n, "order": order, "t": t.tolist()}, got.tolist(), want.tolist())


HostContract("C20", "many bodies", many, functions=[F + "light_curve", "jaxoplanet.starry.system_observable.system_observable"], bounded="systems of four and seven bodies, some dark, all rotating")
