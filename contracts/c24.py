"""C24 the arbitrary-precision implementation computes the same quantities."""
import contextlib
import io
from collections import defaultdict

import jax
import jax.numpy as jnp
import numpy as np

import jaxoplanet.core.limb_dark as ld
from jaxoplanet.starry.core import basis as B
from jaxoplanet.starry.core import rotation as R
from jaxoplanet.starry.core import solution as S
from jaxoplanet.starry.light_curves import surface_light_curve
from jaxoplanet.starry.doppler import surface_radial_velocity
from jaxoplanet.starry.multiprecision import basis as MB
from jaxoplanet.starry.multiprecision import flux as MF
from jaxoplanet.starry.multiprecision import mp
from jaxoplanet.starry.multiprecision import rotation as MR
from jaxoplanet.starry.multiprecision import solution as MS
from jaxoplanet.starry.multiprecision import utils as MU
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm
from jv.contract import Contract, HostContract, In

from .c07 import REGIMES, place
from .c08 import LD
from .c19 import exact_vector
from .c20 import SOLUTION, visible_name
from .mpx import MX, arg, run
from .rotations import MATRICES, SKY
from .sphere import lm, map_value, value

M = "jaxoplanet.starry.multiprecision."
EMPTY = ("no overlap", "external contact", "fully covered", "just covered")  # nothing of the limb inside


# -- the occultation integrals, under the same quadrature rule ------------------------------------
def vector(regime, deg, order, tier="quick"):
    ins, _, req = REGIMES[regime]
    N = (deg + 1) ** 2

    def program(**I):
        g = place(regime, I)
        return {"s": S.solution_vector(deg, order=order)(g["b"], g["r"])}

    def ens(I, O, K):
        b, r = (arg(K, place(regime, I)[k]) for k in "br")
        s = run(K, lambda: MS.sT(deg, b, r), order, empty=regime in EMPTY)
        if deg:  # this term is integrated over the whole range
            s[2] = run(K, lambda: [MS.sT(1, b, r)[2]], order, whole=True, empty=regime in EMPTY)[0]
        return [K.eq(f"term {lm(n)}", O["s"][n], s[n], scale=1.0) for n in range(N)]

    Contract("C24", f"occultation vector, {regime}: degree {deg}, order {order}", ins, program, ens, requires=lambda I, K: req(I, K, 1, order),
             functions=[M + "solution." + k for k in ("sT", "p_numerical", "q_numerical", "P", "kappas", "kite_area")], n_samples=6, tier=tier)


def dark(regime, deg, order, tier="quick"):
    ins, _, req = REGIMES[regime]

    def program(**I):
        g = place(regime, I)
        return {"s": ld.solution_vector(deg, order=order)(g["b"], g["r"])}

    def ens(I, O, K):
        b, r = (arg(K, place(regime, I)[k]) for k in "br")
        s = run(K, lambda: MS.solution_limb_dark(deg, b, r), order, empty=regime in EMPTY)
        return [K.eq(f"term {n}", O["s"][n], s[n], scale=1.0) for n in range(deg + 1)]

    Contract("C24", f"limb-darkened occultation, {regime}: {deg + 1} terms, order {order}", ins, program, ens, requires=lambda I, K: req(I, K, deg, order),
             functions=[M + "solution." + k for k in ("solution_limb_dark", "kappas", "kite_area")], n_samples=6, tier=tier)


for regime in REGIMES:
    hard = regime == "partial overlap"
    for deg, order in ((1, 6), (3, 3), (4, 2)) if hard else ((1, 6), (3, 4), (4, 4)):
        vector(regime, deg, order)
    vector(regime, 6, 2, "thorough")
    for deg, order in ((0, 2), (2, 4), (4, 2)):
        dark(regime, deg, order)
    dark(regime, 6, 3, "thorough")


# -- rotations --------------------------------------------------------------------------------
def about_z(deg, tier="quick"):
    N = (deg + 1) ** 2
    Contract("C24", f"rotation about the polar axis: degree {deg}", {"v": In(shape=(N,), lo=-1, hi=1), "t": In(lo=-7, hi=7, edges=[0.0, np.pi])},
             lambda v, t: {"w": R.dot_rz(deg, t)(v)},
             lambda I, O, K: [K.eq(f"{lm(n)}", O["w"][n], w, scale=1.0) for n, w in enumerate(run(K, lambda: MR.dot_rz(deg, arg(K, I["t"]))(MX([arg(K, x) for x in I["v"]]))))],
             functions=[M + "rotation.dot_rz"], n_samples=6, tier=tier)


for deg in range(0, 7):
    about_z(deg)
about_z(12, "thorough")


# -- flux ------------------------------------------------------------------------------------
CACHE = {}


def mp_flux(K, I, deg, nu, inc, obl, order, rotate=True):
    b, r = (arg(K, I[k]) for k in "br")
    v = np.array([arg(K, x) for x in I["v"]], dtype=object) if deg else ()
    u = [arg(K, I["u"][k]) for k in range(nu)]

    def vector(l_max, b, r, cache=None):
        b = abs(b)
        return MX([K.uf(visible_name(n, order), b if K.symbolic else float(b), r if K.symbolic else float(r)) for n in range((l_max + 1) ** 2)])

    cache = CACHE.setdefault((deg, nu, inc, obl), defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}}))

    def go():
        old, MF.get_sT = MF.get_sT, vector
        try:
            return [MF.flux(ydeg=deg, udeg=nu, inc=inc, obl=obl, cache=cache)(b, r, y=v, phi=arg(K, I["t"]), u=u, rotate=rotate)]
        finally:
            MF.get_sT = old

    return run(K, go, order)[0]


def flux(where, deg, nu, inc, obl, side=1, order=5, tier="quick"):
    ins = {"v": In(shape=((deg + 1) ** 2,), lo=-1, hi=1)} if deg else {}
    if nu:
        ins["u"] = In(shape=(nu,), lo=-0.3, hi=0.5, edges=[0.0])
    ins |= {"t": In(lo=-4, hi=7, edges=[0.0]), "b": In(lo=0, hi=3, nonneg=True, edges=[0.0]), "r": In(lo=0.01, hi=3, pos=True, edges=[1.0])}

    def program(**I):
        v = I["v"] if deg else jnp.ones(1)
        s = Surface(y=Ylm.from_dense(v, normalize=False), inc=inc, obl=obl, u=[I["u"][k] for k in range(nu)] if nu else (), normalize=False)
        return {"F": surface_light_curve(s, x=0.0, y=side * I["b"], z=1.0, r=I["r"], theta=I["t"], order=order)}

    def req(I, K):
        b, r = I["b"], I["r"]
        c = {"occulted": [K.lt(b, 1 + r), K.lt(r, 1 + b), K.lt(0.0, b)], "beside": [K.le(1 + r, b)], "covered": [K.le(1 + b, r)]}[where]
        return c + ([K.lt(1e-3, 1.0 - sum(I["u"][k] * (2.0 / ((k + 2) * (k + 3))) for k in range(nu)))] if nu else [])

    Contract("C24", f"flux, {where}{', below' * (side < 0)}: degree {deg}, {nu} coefficients, inc {inc}, obl {obl}", ins, program,
             lambda I, O, K: [K.eq("flux", O["F"], mp_flux(K, {**I, "b": side * I["b"]}, deg, nu, inc, obl, order), scale=1.0, noise=1e-12)], requires=req,
             functions=[M + "flux.flux", M + "rotation.dot_rotation_matrix", M + "rotation.get_R", M + "rotation.R"], opaque=[MATRICES, SKY, SOLUTION, LD], n_samples=6, tier=tier)


for where in ("occulted", "beside", "covered"):
    for deg, nu, inc, obl in ((1, 0, np.pi / 2, 0.0), (1, 1, 1.0, 0.4), (2, 0, 0.3, -2.0), (2, 1, 0.0, 0.0), (1, 2, 2.5, 1.2)):
        flux(where, deg, nu, inc, obl)
    flux(where, 1, 1, 1.0, 0.4, side=-1)


def unrotated(deg, nu, inc, obl):
    """a map already turned to the frame of the occultor"""
    ins = {"v": In(shape=((deg + 1) ** 2,), lo=-1, hi=1), "b": In(lo=0, hi=3, nonneg=True), "r": In(lo=0.01, hi=3, pos=True), "t": In(lo=-4, hi=7)} | ({"u": In(shape=(nu,), lo=-0.3, hi=0.5)} if nu else {})

    def program(**I):
        s = Surface(y=Ylm.from_dense(I["v"], normalize=False), inc=inc, obl=obl, u=[I["u"][k] for k in range(nu)] if nu else (), normalize=False)
        return {"F": surface_light_curve(s, x=0.0, y=I["b"], z=1.0, r=I["r"], theta=I["t"], order=5), "w": R.left_project(deg, inc, obl, I["t"], 0.0, I["v"])}

    Contract("C24", f"flux of a map given in the frame of the occultor: degree {deg}, {nu} coefficients", ins, program,
             lambda I, O, K: [K.eq("flux", O["F"], mp_flux(K, {**I, "v": O["w"]}, deg, nu, inc, obl, 5, rotate=False), scale=1.0, noise=1e-12)],
             requires=lambda I, K: [K.lt(0.0, I["b"]), K.not_(K.equal(I["b"], 1 + I["r"])), K.not_(K.equal(I["r"], 1 + I["b"]))] + ([K.lt(1e-3, 1.0 - sum(I["u"][k] * (2.0 / ((k + 2) * (k + 3))) for k in range(nu)))] if nu else []),
             functions=[M + "flux.flux"], opaque=[MATRICES, SKY, SOLUTION], n_samples=6)


unrotated(1, 1, 1.0, 0.4)
unrotated(2, 0, np.pi / 2, 0.0)


# -- the same without the contract of mpmath, on samples ---------------------------------------
def num(x):
    return np.atleast_1d(np.asarray(MU.to_numpy(x), dtype=float))


def silent(f):
    def g(ctx):
        with contextlib.redirect_stdout(io.StringIO()):
            f(ctx)
    return g


def close(ctx, name, got, want, tol, inp):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    same = got.shape == want.shape
    err = float(np.max(np.abs(got - want), initial=0.0)) if same else np.inf
    ctx.ok(name, same and err <= tol * (1.0 + float(np.max(np.abs(want), initial=0.0))), inp, f"error {err:.3g}, shape {got.shape}", f"at most {tol}, shape {want.shape}")


@silent
def changes_of_basis(ctx):
    rng = np.random.default_rng(24)
    for deg in range(9 if ctx.tier == "quick" else 16):
        N = (deg + 1) ** 2
        a1, a2, a2i = (MU.to_numpy(f(deg)).reshape(N, N) for f in (MB.A1, MB.A2, MB.A2_inv))
        close(ctx, f"A1, degree {deg}", a1, B.A1(deg).toarray(), 1e-11, {"degree": deg})
        close(ctx, f"A2 inverse, degree {deg}", a2i, B.A2_inv(deg).toarray(), 1e-11, {"degree": deg})
        close(ctx, f"A2 is the inverse, degree {deg}", a2 @ a2i, np.eye(N), 1e-10, {"degree": deg})
        close(ctx, f"phase curve vector, degree {deg}", num(MS.rT(deg)), np.asarray(S.rT(deg)), 1e-12, {"degree": deg})
        for _ in range(3):
            p = rng.normal(size=3)
            p /= np.linalg.norm(p)
            p[2] = abs(p[2])
            v = rng.normal(size=N)
            close(ctx, f"a map in the monomial basis, degree {deg}", value(a1 @ v, *p), map_value(v, *p), 1e-9, {"degree": deg, "point": p.tolist(), "map": v.tolist()})


def turned(axis, t, p):
    """Rodrigues"""
    u = np.asarray(axis, dtype=float) / np.linalg.norm(axis)
    p = np.asarray(p)
    return p * np.cos(t) + np.cross(u, p) * np.sin(t) + u * np.dot(u, p) * (1 - np.cos(t))


@silent
def rotations(ctx):
    rng = np.random.default_rng(24)
    deg = 4 if ctx.tier == "quick" else 8
    N = (deg + 1) ** 2
    cases = [(a, t) for a in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (-1, 0, 0)) for t in (0.0, 0.4, -0.4, np.pi / 2, -np.pi / 2, np.pi, 2.0, 2 * np.pi, 7.5)]
    cases += [(tuple(rng.normal(size=3)), float(rng.uniform(-7, 7))) for _ in range(20)] + [((3.0, -4.0, 0.0), 1.1), ((0.0, 0.0, 5.0), 1.1), ((1, 1, 1), 2 * np.pi / 3)]
    for a, t in cases:
        v = rng.normal(size=N)
        w = num(MR.dot_rotation_matrix(deg, a, mp.mpf(t))(mp.matrix(v.tolist())))
        inp = {"axis": list(map(float, a)), "angle": t, "map": v.tolist()}
        for _ in range(4):
            p = rng.normal(size=3)
            p /= np.linalg.norm(p)
            close(ctx, f"turned about {a} by {t}", map_value(w, *p), map_value(v, *turned(a, t, p)), 1e-8, inp)
        close(ctx, f"as the standard one: {a}, {t}", w, np.asarray(R.dot_rotation_matrix(deg, *map(float, a), t)(jnp.asarray(v))), 1e-6, inp)
    for p in [(1.0, 0.3, 0.7, 0.4), (np.pi / 2, 0.0, 0.0, 0.0), (0.0, 0.0, 0.2, -1.0), (2.0, -1.0, 4.0, np.pi), (1.0, 0.0, 0.0, 0.5)] + [tuple(rng.uniform(-4, 4, size=4)) for _ in range(6)]:
        v = rng.normal(size=N)
        close(ctx, f"projection on the sky {p}", num(MR.left_project(deg, *map(mp.mpf, p), mp.matrix(v.tolist())).T), np.asarray(R.left_project(deg, *map(float, p), jnp.asarray(v))), 1e-7, {"angles": list(map(float, p)), "map": v.tolist()})


POSITIONS = [(0.0, 0.1), (0.5, 0.1), (1.0, 0.1), (0.9, 0.1), (1.1, 0.1), (1.5, 0.1), (0.2, 1.1), (0.1, 1.1), (0.2, 1.5), (0.0, 1.0), (0.1, 1.0), (0.0, 1.3), (0.5, 0.5), (0.3, 0.7), (5.0, 4.6), (-0.4, 0.2), (1.0, 1.0), (1e-7, 0.1), (0.4, 0.0)]


@silent
def occultations(ctx):
    rng = np.random.default_rng(25)
    more = [(float(rng.uniform(0, 1.8)), float(10 ** rng.uniform(-1.5, 0.5))) for _ in range(8 if ctx.tier == "quick" else 60)]
    deg = 3 if ctx.tier == "quick" else 6
    std = jax.jit(lambda b, r: ld.solution_vector(5, order=200)(b, r))
    for b, r in POSITIONS + more:
        close(ctx, f"occultation vector b={b}, r={r}", num(MS.sT(deg, mp.mpf(b), mp.mpf(r))), exact_vector(deg, abs(b), r), 1e-7, {"b": b, "r": r})
        close(ctx, f"limb-darkened occultation b={b}, r={r}", num(MS.solution_limb_dark(5, mp.mpf(b), mp.mpf(r))), np.asarray(std(b, r)), 1e-7, {"b": b, "r": r})


@silent
def fluxes(ctx):
    rng = np.random.default_rng(26)
    for deg, nu, inc, obl in ((0, 0, 1.0, 0.4), (0, 2, np.pi / 2, 0.0), (1, 0, 1.0, 0.4), (2, 1, 0.6, -2.0), (3, 2, np.pi / 2, 0.0)):
        f = MF.flux(ydeg=deg, udeg=nu, inc=inc, obl=obl)
        g = jax.jit(lambda v, u, b, r, t: surface_light_curve(Surface(y=Ylm.from_dense(v, normalize=False), inc=inc, obl=obl, u=[u[k] for k in range(nu)] if nu else (), normalize=False), x=0.0, y=b, z=1.0, r=r, theta=t, order=200))
        for b, r in POSITIONS if ctx.tier != "quick" else [POSITIONS[i] for i in rng.permutation(len(POSITIONS))[:9]] + POSITIONS[:1]:
            v = rng.normal(size=(deg + 1) ** 2) if deg else np.ones(1)
            u, t = rng.uniform(0, 0.4, size=nu), float(rng.uniform(-4, 4))
            got = float(f(b, r, y=v if deg else (), phi=t, u=list(u)))
            close(ctx, f"degree {deg}, {nu} coefficients, b={b}, r={r}", got, float(g(v, u, b, r, t)), 1e-6, {"map": v.tolist(), "u": u.tolist(), "b": b, "r": r, "theta": t, "inc": inc, "obl": obl})


@silent
def higher_precision(ctx):
    rng = np.random.default_rng(27)
    for deg, nu in ((0, 1), (1, 0), (2, 1), (4, 2)):
        v = rng.normal(size=(deg + 1) ** 2)
        v[0] = 1.0
        s = Surface(y=Ylm.from_dense(v), inc=1.1, obl=0.3, u=[0.2] * nu, period=1.0, normalize=False)
        for kw in ({"x": 0.3, "y": 0.4, "z": 1.0, "r": 0.2}, {"x": 0.7, "y": -0.6, "z": 1.0, "r": 0.3}, {}):
            pair = [float(surface_light_curve(s, **kw, theta=0.4, higher_precision=h)) for h in (True, False)]
            close(ctx, f"light curve, degree {deg}, {nu} coefficients", *pair, 1e-9, {"map": v.tolist(), **kw})
            if deg:
                pair = [float(np.asarray(surface_radial_velocity(s, **kw, theta=0.4, higher_precision=h))) for h in (True, False)]
                close(ctx, f"radial velocity, degree {deg}, {nu} coefficients", *pair, 1e-9, {"map": v.tolist(), **kw})


for name, f, fn, bound in (
    ("changes of basis", changes_of_basis, ["basis.A1", "basis.A2", "basis.A2_inv", "basis.gtilde", "solution.rT"], "degrees 0 to 8 (thorough 15), every entry"),
    ("rotations of maps", rotations, ["rotation.R", "rotation.dot_rotation_matrix", "rotation.left_project"], "degree 4 (thorough 8), 68 axes and angles and 11 projections, tolerance 1e-8"),
    ("occultation vectors by mpmath's quadrature", occultations, ["solution.sT", "solution.solution_limb_dark"], "degree 3 (thorough 6), 27 positions (thorough 79) including every contact, tolerance 1e-7"),
    ("flux by mpmath's quadrature", fluxes, ["flux.flux"], "degrees 0 to 3, 50 configurations including contacts, tolerance 1e-6"),
    ("change of basis in higher precision", higher_precision, [], "degrees 0 to 4, 21 configurations"),
):
    HostContract("C24", name, f, functions=[M + k for k in fn], bounded=bound)


# -- histories: nothing computed before changes a result ---------------------------------------
def empty():
    return defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}})


def numbers(x):
    return [float(x)] if not hasattr(x, "tolist") else [float(v) for row in x.tolist() for v in (row if isinstance(row, list) else [row])]


def histories(ctx):
    rng = np.random.default_rng(24)
    angle = (0.0, 0.4, -0.4, 1.0, -2.0, mp.pi / 2, 2.5)
    place = ((0.3, 0.1), (0.3, 0.2), (0.1, 0.3), (-0.3, 0.1), (0.95, 0.1), (1.0, 1.0), (0.3, 1.5), (3.0, 0.1), (0.0, 0.5))
    pick = lambda s: s[rng.integers(len(s))]  # noqa: E731
    y = {d: mp.matrix([float(v) for v in rng.normal(size=(d + 1) ** 2)]) for d in (1, 2)}

    def call():
        kind, d = rng.integers(6), int(rng.integers(1, 3))
        if kind <= 2:
            a, o, (b, r), phi, nu = pick(angle), pick(angle), pick(place), float(rng.uniform(-3, 3)), int(rng.integers(0, 2))
            u = [0.3] * nu
            what = {"function": "flux", "ydeg": d, "udeg": nu, "inc": float(a), "obl": float(o), "b": b, "r": r, "phi": phi}
            return what, lambda c: MF.flux(ydeg=d, udeg=nu, inc=a, obl=o, cache=c)(b, r, y=y[d], phi=phi, u=u)
        if kind == 3:
            n, a, o = pick(("R_obl", "R_inc", "R_px", "R_mx")), pick(angle), pick(angle)
            kw = {"obl": o, "inc": a} if n in ("R_obl", "R_inc") else {}
            return {"function": "get_R", "name": n, "l_max": d, **{k: float(t) for k, t in kw.items()}}, lambda c: [MR.get_R(n, d, cache=c, **kw)[l] for l in range(d + 1)]
        if kind == 4:
            b, r = pick(place)
            return {"function": "get_sT", "l_max": d, "b": b, "r": r}, lambda c: MS.get_sT(d, b, r, cache=c)
        f = pick((MB.A1, MB.A2))
        return {"function": f.__name__, "l_max": d}, lambda c: f(d, cache=c)

    flat = lambda x: np.concatenate([flat(t) for t in x]) if isinstance(x, list | tuple) else np.array(numbers(x))  # noqa: E731
    for which in ("one cache", "the default cache"):
        shared, past = (empty() if which == "one cache" else None), []
        for _ in range(120 if ctx.tier == "quick" else 600):
            what, f = call()
            with contextlib.redirect_stdout(io.StringIO()):
                got, want = flat(f(shared)), flat(f(empty()))
            past.append(what)
            ctx.ok(f"{what['function']} after {len(past) - 1} calls sharing {which}", got.shape == want.shape and np.abs(got - want).max() < 1e-14 * (1 + np.abs(want).max()), {"history": past, "cache": which}, got.tolist()[:9], want.tolist()[:9])


HostContract("C24", "no memory of previous calls", histories, functions=[M + k for k in ("flux.flux", "rotation.get_R", "solution.get_sT", "basis.get_A", "basis.A1", "basis.A2")], bounded="two histories of 120 calls (thorough 600) of five functions, degrees 1 and 2, seven angles, nine positions, against the same call with nothing cached")
