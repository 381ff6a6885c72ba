"""C23 derivatives at and away from contact points."""
import jax
import jax.numpy as jnp
import numpy as np

import jaxoplanet.core.limb_dark as ld
from jaxoplanet.core.limb_dark import light_curve
from jaxoplanet.utils import zero_safe_sqrt
from jv.contract import Contract, HostContract, In

from .dual import DK, D
from .c07 import REGIMES, disc_flux, F, g_of, ghost_s, overlap

EPS = float(np.finfo(float).eps)

# -- the guarded square root -------------------------------------------------------------------
X = In(lo=1e-14, hi=50.0, log=True, nonneg=True, edges=[0.0, 1.0, 10 * EPS, EPS, 1e-300])


def sqrt_program(x, v):
    y, d = jax.jvp(zero_safe_sqrt, (x,), (v,))
    y2, pull = jax.vjp(zero_safe_sqrt, x)
    return {"y": zero_safe_sqrt(x), "y1": y, "d": d, "g": pull(v)[0], "z": jax.vmap(zero_safe_sqrt)(x[None])[0]}


SQ = dict(functions=["jaxoplanet.utils.zero_safe_sqrt"], n_samples=60)
Contract("C23", "guarded square root: values, finite derivatives", {"x": X, "v": In(lo=-3, hi=3)}, sqrt_program,
         lambda I, O, K: [K.eq(k, O[k], K.sqrt(I["x"])) for k in ("y", "y1", "z")] + [K.finite("forward derivative", O, "d"), K.finite("reverse derivative", O, "g"), K.eq("forward = reverse", O["d"], O["g"])],
         nan=True, **SQ)
Contract("C23", "guarded square root: true derivative", {"x": In(lo=1e-14, hi=50.0, log=True, pos=True, edges=[1.0, 1e-14]), "v": In(lo=-3, hi=3)}, sqrt_program,
         lambda I, O, K: [K.eq("forward", O["d"] * 2.0 * K.sqrt(I["x"]), I["v"]), K.eq("reverse", O["g"] * 2.0 * K.sqrt(I["x"]), I["v"])],
         requires=lambda I, K: [K.le(1e-14, I["x"])], **SQ)
Contract("C23", "guarded square root: derivative at zero", {"v": In(lo=-3, hi=3)}, lambda v: {k: a for k, a in sqrt_program(0.0 * v, v).items() if k in "dg"},
         lambda I, O, K: [K.eq("forward", O["d"], 0.0), K.eq("reverse", O["g"], 0.0)], **SQ)

# -- the light curve: no NaN anywhere ------------------------------------------------------------
FN = [F + k for k in ("light_curve", "solution_vector", "kappas", "kite_area", "s0s2", "p_integral")] + ["jaxoplanet.utils.zero_safe_sqrt"]
REG = In(lo=0.0, hi=2.5, nonneg=True, edges=[0.0, 1.0])
RAD = In(lo=0.01, hi=2.0, pos=True, log=True, edges=[1.0, 0.5])


def near(rng):
    """contact points of every kind, and their neighbours within a few ulps"""
    r = float(rng.choice([rng.uniform(0.01, 2.0), 0.5, 1.0, 0.25, 1.5]))
    b = float(rng.choice([0.0, abs(1 - r), 1 + r, r, max(r - 1, 0.0), 1.0, rng.uniform(0, 2.5)]))
    for _ in range(int(rng.integers(0, 4))):
        b = float(np.nextafter(b, rng.choice([-1.0, 5.0])))
    return {"b": abs(b), "r": r}


def derivs(u, b, r, order):
    f = lambda u, b, r: light_curve(u, b, r, order=order)  # noqa: E731
    y, pull = jax.vjp(f, u, b, r)
    gu, gb, gr = pull(jnp.ones_like(y))
    z, o = jnp.zeros_like, jnp.ones_like
    return {"f": y, "gu": gu, "gb": gb, "gr": gr, "jb": jax.jvp(f, (u, b, r), (z(u), o(b), z(r)))[1], "jr": jax.jvp(f, (u, b, r), (z(u), z(b), o(r)))[1],
            "ju": jax.jvp(f, (u, b, r), (o(u), z(b), z(r)))[1]}


PLACE = {
    "no overlap": ({"b": In(lo=1.0, hi=3.5, nonneg=True), "r": RAD}, lambda I: (I["b"], I["r"])),
    "fully covered": ({"b": In(lo=0.0, hi=1.0, nonneg=True), "r": In(lo=1.0, hi=3.0, pos=True)}, lambda I: (I["b"], I["r"])),
    "inside": ({"b": In(lo=0.0, hi=1.0, nonneg=True), "r": In(lo=0.01, hi=1.0, pos=True)}, lambda I: (I["b"], I["r"])),
    "partial overlap": ({"b": In(lo=0.0, hi=3.0, nonneg=True), "r": RAD}, lambda I: (I["b"], I["r"])),
    "concentric": ({"r": RAD}, lambda I: (0.0 * I["r"], I["r"])),
    "internal contact": ({"r": In(lo=0.01, hi=1.0, pos=True)}, lambda I: (1 - I["r"], I["r"])),
    "external contact": ({"r": RAD}, lambda I: (1 + I["r"], I["r"])),
    "just covered": ({"b": In(lo=0.0, hi=1.0, nonneg=True)}, lambda I: (I["b"], 1 + I["b"])),
    "limb over the centre": ({"r": RAD}, lambda I: (I["r"], I["r"])),
}


SIDE = {
    "no overlap": lambda b, r, K: [K.le(1 + r, b)],
    "fully covered": lambda b, r, K: [K.le(1 + b, r)],
    "inside": lambda b, r, K: [K.le(b + r, 1.0)],
    "partial overlap": overlap,
}


ALL = ("f", "gu", "gb", "gr", "ju", "jb", "jr")


def finite(place, nu, order, tier="quick", keys=ALL):
    ins, at = PLACE[place]
    ins = {**ins, "u": In(shape=(nu,), lo=-0.3, hi=0.5)}

    def program(u, **I):
        return derivs(u, *at(I), order)

    def norm(u):
        return 1.0 - sum(2.0 * u[k] / ((k + 2) * (k + 3)) for k in range(nu))

    Contract("C23", f"finite derivatives, {place}: {nu} coefficients, order {order}{', ' * (keys != ALL)}{' '.join(keys) if keys != ALL else ''}", ins, program,
             lambda I, O, K: [K.finite({"f": "flux", "gu": "reverse, coefficients", "gb": "reverse, separation", "gr": "reverse, radius", "jb": "forward, separation",
                                        "jr": "forward, radius", "ju": "forward, coefficients"}[k], O, k) for k in keys],
             requires=lambda I, K: [K.le(1e-3, norm(I["u"]))] + (SIDE[place](I["b"], I["r"], K) if place in SIDE else []), nan=True, functions=FN, n_samples=20, tier=tier, definedness=False)


for place in PLACE:
    finite(place, 0, 1)
    for keys in ((("gb",), ("gr",), ("jb",), ("jr",), ("f", "gu", "ju")) if place == "partial overlap" else (ALL,)):  # shared out
        finite(place, 3, 2, keys=keys)
    finite(place, 2, 2, "thorough")
    finite(place, 5, 3, "thorough")


# -- values of the derivatives ------------------------------------------------------------------
def dghost(regime, nu, order, I, K, which):
    J = {k: D(I[k], 1.0 if k == which else 0.0) for k in ("b", "r")}
    return [D.of(x).d for x in ghost_s(regime, nu, order, J, DK(K))]


def radicand(b, r):
    return (b + r + 1) * (1 + r - b) * (1 + b - r) * (b + r - 1)


def true_derivative(regime, nu, order, tier):
    ins, _, req = REGIMES[regime]
    ins = {**ins, "u": In(shape=(nu,), lo=-0.3, hi=0.5)} if nu else dict(ins)

    def norm(I, K):
        g = g_of(I["u"], nu, K) if nu else [1.0]
        return g, g[0] + (2.0 / 3.0) * g[1] if nu else 1.0

    def program(**I):
        u = I["u"] if nu else jnp.zeros(0)
        f = lambda b, r: light_curve(u, b, r, order=order)  # noqa: E731
        y, pull = jax.vjp(f, I["b"], I["r"])
        gb, gr = pull(jnp.ones_like(y))
        one, zero = jnp.ones_like(I["b"]), jnp.zeros_like(I["b"])
        return {"gb": gb, "gr": gr, "jb": jax.jvp(f, (I["b"], I["r"]), (one, zero))[1], "jr": jax.jvp(f, (I["b"], I["r"]), (zero, one))[1]}

    def requires(I, K):
        return req(I, K, nu, order) + ([K.le(1e-3, norm(I, K)[1])] if nu else []) + ([K.le(1e-12, radicand(I["b"], I["r"]))] if regime == "partial overlap" else [])

    def ens(I, O, K):
        g, tot = norm(I, K)
        out = []
        for k, name in (("b", "separation"), ("r", "radius")):
            ds = dghost(regime, nu, order, I, K, k)
            ref = sum((g[n] * ds[n] for n in range(nu + 1)), 0.0)
            out += [K.eq(f"{how}, {name}", O[m + k] * tot * K.pi, ref, scale=1.0) for how, m in (("forward", "j"), ("reverse", "g"))]
        return out

    Contract("C23", f"true derivatives, {regime}: {nu} coefficients, order {order}", ins, program, ens, requires=requires, tier=tier, n_samples=40, functions=FN, tol=1e-5)


for regime in ("partial overlap", "occultor inside the disc"):
    for nu, order, tier in ((0, 10, "quick"), (2, 2, "quick")) + (((3, 2, "quick"), (2, 10, "thorough"), (5, 4, "thorough")) if regime != "partial overlap" else ()):
        true_derivative(regime, nu, order, tier)


def true_terms(regime, lmax, order, tier):
    ins, _, req = REGIMES[regime]

    def program(**I):
        f = lambda b, r: ld.solution_vector(lmax, order=order)(b, r)  # noqa: E731
        one, zero = jnp.ones_like(I["b"]), jnp.zeros_like(I["b"])
        return {"jb": jax.jvp(f, (I["b"], I["r"]), (one, zero))[1], "jr": jax.jvp(f, (I["b"], I["r"]), (zero, one))[1]}

    def ens(I, O, K):
        return [K.eq(f"{name}, term {n}", O["j" + k][n], dghost(regime, lmax, order, I, K, k)[n], scale=1.0) for k, name in (("b", "separation"), ("r", "radius")) for n in range(lmax + 1)]

    Contract("C23", f"true derivatives of the integrals, {regime}: {lmax + 1} terms, order {order}", ins, program, ens,
             requires=lambda I, K: req(I, K, lmax, order) + ([K.le(1e-12, radicand(I["b"], I["r"]))] if regime == "partial overlap" else []), tier=tier, n_samples=40, functions=FN[1:], tol=1e-5)


if hasattr(ld, "solution_vector"):
    for regime in ("partial overlap", "occultor inside the disc"):
        for lmax, order, tier in ((4, 2, "quick"), (6, 4, "thorough"), (3, 10, "thorough")):
            true_terms(regime, lmax, order, tier)


def flat(place, nu, order, tier="quick"):
    ins, at = PLACE[place]
    Contract("C23", f"no derivative, {place}: {nu} coefficients, order {order}", {**ins, "u": In(shape=(nu,), lo=-0.3, hi=0.5)}, lambda u, **I: derivs(u, *at(I), order),
             lambda I, O, K: [K.eq({"gb": "reverse, separation", "gr": "reverse, radius", "jb": "forward, separation", "jr": "forward, radius"}[k], O[k], 0.0) for k in ("gb", "gr", "jb", "jr")],
             requires=lambda I, K: [K.le(1e-3, 1.0 - sum(2.0 * I["u"][k] / ((k + 2) * (k + 3)) for k in range(nu)))] + (SIDE[place](I["b"], I["r"], K) if place in SIDE else []),
             functions=FN, n_samples=40, tier=tier)


for place in ("no overlap", "fully covered", "external contact", "just covered"):
    for nu, order, tier in ((1, 1, "quick"), (3, 2, "quick"), (4, 10, "thorough")):
        flat(place, nu, order, tier)


# -- many coefficients, fine quadratures -----------------------------------------------------------------
def sampled(ctx):
    rng = np.random.default_rng(23)
    places = [(0.0, 0.1), (0.0, 1.0), (0.0, 0.0), (0.0, 1.7), (1.0, 0.0), (0.3, 0.0), (0.9, 0.1), (1.1, 0.1), (0.5, 0.5), (1.0, 1.0), (2.0, 1.0), (0.3, 1.3), (0.25, 0.75), (1.25, 0.25), (3.0, 0.5), (0.1, 3.0), (0.5, 1.0), (1.0, 0.5), (1e-9, 0.2), (1.0, 1e-9)]
    for x, r in [(0.9, 0.1), (1.1, 0.1), (0.5, 0.5), (0.3, 1.3), (1.0, 1.0)]:
        for step in (-1, 1, -4, 4):
            b = x
            for _ in range(abs(step)):
                b = float(np.nextafter(b, b + step))
            places.append((b, r))
    away = [(0.4, 0.1), (0.95, 0.1), (0.7, 0.6), (0.3, 1.0), (1.3, 0.6), (0.2, 0.9), (0.05, 0.5), (1.2, 1.5), (2.5, 0.3), (0.1, 2.0)]
    for nu, order in ((0, 10), (1, 10), (2, 20), (4, 10), (7, 30), (10, 100)):
        u = jnp.asarray(rng.uniform(-0.1, 0.2, nu))
        run = jax.jit(lambda u, b, r, order=order: derivs(u, b, r, order))
        for b, r in places + away:
            O = run(u, b, r)
            ctx.ok(f"finite derivatives, {nu} coefficients, order {order}, b={b}, r={r}", all(bool(jnp.all(jnp.isfinite(v))) for v in O.values()), {"u": u.tolist(), "b": b, "r": r, "order": order}, {k: np.asarray(v).tolist() for k, v in O.items()}, "finite")
        h = 1e-4
        for b, r in away:
            O = run(u, b, r)
            d = lambda f: (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)  # noqa: E731
            want = {"b": d(lambda e: disc_flux(u, b + e, r)), "r": d(lambda e: disc_flux(u, b, r + e))}
            tol = {10: 1e-3, 20: 1e-4, 30: 1e-5, 100: 1e-6}[order]
            for k, w in want.items():
                for key in ("g" + k, "j" + k):
                    ctx.ok(f"true derivative, {nu} coefficients, order {order}, b={b}, r={r}, {key}", abs(float(O[key]) - w) < tol, {"u": u.tolist(), "b": b, "r": r, "order": order}, float(O[key]), w)


HostContract("C23", "sampled derivatives", sampled, functions=FN, bounded="0 to 10 coefficients, orders 10 to 100, 50 positions including contacts and their neighbours")
