"""C16 spherical-harmonic maps form an exact algebra."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.starry.core.polynomials import Pijk
from jaxoplanet.starry.core.wigner3j import Wigner3j, Wigner3jCalculator, clebsch_gordan
from jaxoplanet.starry.ylm import Ylm
from jv import ints
from jv.contract import Contract, HostContract, In

from .sphere import lm, map_value

F = "jaxoplanet.starry.ylm."
XY = {"x": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0]), "y": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0])}


def vec(n):
    return In(shape=(n,), lo=-1, hi=1, edges=[0.0])


def points(I, K):
    r2 = I["x"] ** 2 + I["y"] ** 2
    return {"near side": (I["x"], I["y"], K.sqrt(1 - r2)), "far side": (I["x"], I["y"], -K.sqrt(1 - r2))}


def on_disc(I, K):
    return [K.le(I["x"] ** 2 + I["y"] ** 2, 1.0)]


def sparse_value(pattern, v, x, y, z):
    full = [0.0] * (max(l * l + l + m for l, m in pattern) + 1)
    for k, (l, m) in enumerate(pattern):
        full[l * l + l + m] = v[k]
    return map_value(full, x, y, z)


def dense(pattern, v):
    top = max(l for l, _ in pattern)
    out = [0.0] * (top + 1) ** 2
    for k, (l, m) in enumerate(pattern):
        out[l * l + l + m] = v[k]
    return out


def build(pattern, v):
    return Ylm({k: v[i] for i, k in enumerate(pattern)})


# -- storage ----------------------------------------------------------------------------------
for deg in range(5):
    N = (deg + 1) ** 2
    Contract("C16", f"dense and back, degree {deg}", {"v": vec(N)},
             lambda v: {"same": Ylm.from_dense(v, normalize=False).todense(), "unit": Ylm.from_dense(v).todense(), "norm": Ylm.from_dense(v, normalize=False).normalize().todense(), "sparse": Ylm.from_dense(v, normalize=False).tosparse().todense()},
             lambda I, O, K, N=N: [K.eq("unnormalised", O["same"], I["v"]), K.eq("sparse", O["sparse"], I["v"]), K.eq("constant term one", O["unit"][0], 1.0)]
             + [K.eq(f"{k}, entry {n}", O[k][n] * I["v"][0], I["v"][n]) for k in ("unit", "norm") for n in range(N)],
             requires=lambda I, K: [K.not_(K.equal(I["v"][0], 0.0))], functions=[F + k for k in ("Ylm.from_dense", "Ylm.todense", "Ylm.tosparse", "Ylm.normalize")], n_samples=20)

LOW = [(0, 0), (1, -1), (1, 0), (1, 1)]
rng = np.random.default_rng(16)
ALL3 = [lm(n) for n in range(16)]
PATTERNS = [p for k in (1, 2, 3, 4) for p in itertools.combinations(LOW, k)]
PATTERNS += [tuple(ALL3[i] for i in rng.permutation(16)[: rng.integers(2, 9)]) for _ in range(12)]  # any order, any gaps
for pattern in PATTERNS:
    def program(v, c, pattern=pattern):
        f = build(pattern, v)
        return {"dense": f.todense(), "times": (f * c).todense(), "rtimes": (c * f).todense(), "get": jnp.stack([jnp.asarray(f[k]) for k in pattern])}

    def ens(I, O, K, pattern=pattern):
        d = dense(pattern, I["v"])
        return [K.holds("length", O["dense"].shape == (len(d),))] + [K.eq(f"{n} {lm(i)}", O[n][i], s * d[i]) for n, s in (("dense", 1.0), ("times", I["c"]), ("rtimes", I["c"])) for i in range(len(d))] + [K.eq("by index", O["get"], I["v"])]

    Contract("C16", f"coefficients {', '.join(map(str, pattern))}", {"v": vec(len(pattern)), "c": In(lo=-2, hi=2, edges=[0.0])}, program, ens,
             functions=[F + k for k in ("Ylm.tosparse", "Ylm.todense", "Ylm.__mul__", "Ylm.__rmul__", "Ylm.__getitem__", "Ylm.index")], n_samples=10)


# -- products ---------------------------------------------------------------------------------
def product(p, q, tier="quick"):
    def ens(I, O, K):
        out = []
        for k, P in points(I, K).items():
            out.append(K.eq(k, map_value(O["fg"], *P), sparse_value(p, I["v"], *P) * sparse_value(q, I["w"], *P), scale=1.0, noise=1e-12))
        return out

    def show(p):
        top = max(l for l, _ in p)
        return f"degree {top}" if len(p) == (top + 1) ** 2 else "{" + ", ".join(map(str, p)) + "}"

    Contract("C16", f"product of {show(p)} and {show(q)}", {"v": vec(len(p)), "w": vec(len(q)), **XY}, lambda v, w, **_: {"fg": (build(p, v) * build(q, w)).todense()}, ens,
             requires=on_disc, functions=[F + "Ylm.__mul__", F + "_mul", F + "_to_complex", F + "_to_real", "jaxoplanet.starry.core.wigner3j.Wigner3jCalculator"], n_samples=15, tier=tier)


def full(deg):
    return tuple(lm(n) for n in range((deg + 1) ** 2))


for a, b in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)):
    product(full(a), full(b))
product(full(3), full(1), "quick")
product(full(3), full(2))
product(full(3), full(3), "thorough")
for p, q in ((((1, -1),), ((1, 1),)), (((2, 0), (4, 0)), ((0, 0), (3, 0))), (((3, -2),), ((3, 2), (1, 0))), (((2, 2), (0, 0)), ((2, -1),)), (((4, -3), (1, 0)), ((2, -2), (3, 3))),
             (((5, 4),), ((2, -1), (1, 1))), (((5, -5), (2, 1)), ((4, 4), (3, 0))), (((6, 1),), ((5, -2),))):
    product(p, q)


# -- host parts -------------------------------------------------------------------------------
def indices(ctx):
    top = 60 if ctx.tier == "quick" else 150
    y = Ylm.from_dense(np.arange((top + 1) ** 2, dtype=float), normalize=False)
    seen = {(l, m) for l in range(top + 1) for m in range(-l, l + 1)}
    ctx.ok("every degree and order once", set(y.data) == seen and len(y.data) == (top + 1) ** 2, {"degree": top}, len(y.data), (top + 1) ** 2)
    bad = [(l, m) for (l, m), n in y.data.items() if Ylm.index(l, m) != n or n != l * l + l + m]
    ctx.ok("index inverts the decomposition", not bad, {"entries": bad[:3]}, bad[:3], [])
    ctx.ok("degree, shape and indices", y.deg == top and y.shape == ((top + 1) ** 2,) and y.indices == list(y.data), {"degree": top}, (y.deg, y.shape), None)
    ctx.ok("dense", np.array_equal(np.asarray(y.todense()), np.arange((top + 1) ** 2)), {"degree": top}, None, None)


def every_index(ctx):
    try:
        ints.forall(ctx, "index", ["l", "m"], lambda l, m: [l >= 0, m <= l, m >= 0 - l], lambda l, m: (Ylm.index(l, m), Pijk.n2lm(Ylm.index(l, m))),
                    lambda I, O: [("inverse: degree", O[1][0] == I["l"]), ("inverse: order", O[1][1] == I["m"]), ("place in the vector", O[0] == I["l"] * I["l"] + I["l"] + I["m"]), ("not negative", O[0] >= 0)],
                    ["jaxoplanet.starry.ylm", "jaxoplanet.starry.core.polynomials"])
    except ints.OutOfReach as ex:
        ctx.r.demoted = f"out of reach ({ex}): degree 60"
        ctx.r.obligations = ctx.r.discharged = len(ctx.r.failed)
        indices(ctx)


HostContract("C16", "index, every degree and order", every_index, functions=[F + "Ylm.index"])
HostContract("C16", "index and degree/order conversions", indices, functions=[F + "Ylm.index", F + "Ylm.from_dense"], bounded="degree 60 (thorough 150)")


def w3j(l1, l2, l3, m1, m2):
    """Racah's formula, exact under the root"""
    m3, f = -m1 - m2, math.factorial
    if not abs(l1 - l2) <= l3 <= l1 + l2 or abs(m3) > l3:
        return 0.0
    from fractions import Fraction as Q
    s = sum((Q((-1) ** k, f(k) * f(l1 + l2 - l3 - k) * f(l1 - m1 - k) * f(l2 + m2 - k) * f(l3 - l2 + m1 + k) * f(l3 - l1 - m2 + k))
             for k in range(max(0, l2 - l3 - m1, l1 - l3 + m2), min(l1 + l2 - l3, l1 - m1, l2 + m2) + 1)), Q(0))
    r = Q(f(l1 + l2 - l3) * f(l1 - l2 + l3) * f(l2 - l1 + l3), f(l1 + l2 + l3 + 1)) * f(l1 + m1) * f(l1 - m1) * f(l2 + m2) * f(l2 - m2) * f(l3 + m3) * f(l3 - m3)
    return (-1) ** (l1 - l2 - m3) * math.copysign(math.sqrt(s * s * r), s)


def wigner(ctx):
    top = 7 if ctx.tier == "quick" else 12
    for a, b in ((top, top), (top, 2), (1, top)):
        calc = Wigner3jCalculator(a, b)
        for l1, l2 in itertools.product(range(a + 1), range(b + 1)):
            bad = None
            for m1, m2 in itertools.product(range(-l1, l1 + 1), range(-l2, l2 + 1)):
                got = np.array(calc.calculate(l1, l2, m1, m2))
                for l3 in range(max(abs(l1 - l2), abs(m1 + m2)), l1 + l2 + 1):
                    if abs(got[l3] - w3j(l1, l2, l3, m1, m2)) > 1e-11:
                        bad = (l1, l2, l3, m1, m2), float(got[l3]), w3j(l1, l2, l3, m1, m2)
            ctx.ok(f"l1={l1}, l2={l2} of a table to {a}, {b}", bad is None, {"symbol": bad and bad[0]}, bad and bad[1], bad and bad[2])


def wigner_large(ctx):
    rng = np.random.default_rng(16)
    for top, count in ((12, 300), (20, 300), (35, 200)) if ctx.tier == "quick" else ((12, 5000), (20, 5000), (35, 3000), (60, 1000)):
        calc = Wigner3jCalculator(top, top)
        for _ in range(count):
            l1, l2 = (int(k) for k in rng.integers(0, top + 1, 2))
            m1, m2 = int(rng.integers(-l1, l1 + 1)), int(rng.integers(-l2, l2 + 1))
            lo = max(abs(l1 - l2), abs(m1 + m2))
            got = np.array(calc.calculate(l1, l2, m1, m2))
            want = np.array([w3j(l1, l2, l3, m1, m2) for l3 in range(lo, l1 + l2 + 1)])
            ctx.ok(f"symbols of l1={l1}, l2={l2}, m1={m1}, m2={m2}", np.allclose(got[lo : l1 + l2 + 1], want, rtol=0, atol=1e-10), {"l1": l1, "l2": l2, "m1": m1, "m2": m2}, got.tolist(), want.tolist())
    for a in itertools.product(range(4), range(4), range(6)):
        for m1, m2 in itertools.product(range(-a[0], a[0] + 1), range(-a[1], a[1] + 1)):
            want = w3j(*a, m1, m2)
            got = float(Wigner3j(*a, m1, m2, -m1 - m2)), float(clebsch_gordan(a[0], m1, a[1], m2, a[2], m1 + m2))
            cg = (-1) ** (a[0] - a[1] + m1 + m2) * math.sqrt(2 * a[2] + 1) * want
            ctx.ok(f"single symbol {a}, {m1}, {m2}", abs(got[0] - want) < 1e-11 and abs(got[1] - cg) < 1e-11 and Wigner3j(*a, m1, m2, 1 - m1 - m2) == 0, {"l": a, "m": [m1, m2]}, got, [want, cg])


HostContract("C16", "Wigner 3j symbols", wigner, functions=["jaxoplanet.starry.core.wigner3j.Wigner3jCalculator"], bounded="all symbols with l1, l2 up to 7 (thorough 12), against Racah's formula")
W3J = "jaxoplanet.starry.core.wigner3j."
HostContract("C16", "Wigner 3j symbols of high degree", wigner_large, functions=[W3J + "Wigner3jCalculator.calculate", W3J + "Wigner3j", W3J + "clebsch_gordan"], bounded="800 random rows of symbols to degree 35 (thorough 60); single symbols and Clebsch-Gordan coefficients to degree 5")


def products(ctx):
    rng = np.random.default_rng(17)
    top = [(4, 4), (6, 3), (2, 7)] if ctx.tier == "quick" else [(4, 4), (6, 3), (2, 7), (8, 8), (12, 5)]
    for a, b in top:
        v, w = rng.normal(size=(a + 1) ** 2), rng.normal(size=(b + 1) ** 2)
        pts = rng.normal(size=(3, 9))
        pts /= np.linalg.norm(pts, axis=0)
        got = map_value(np.asarray((Ylm.from_dense(v, normalize=False) * Ylm.from_dense(w, normalize=False)).todense()), *pts)
        want = map_value(v, *pts) * map_value(w, *pts)
        ctx.ok(f"degrees {a} and {b}", np.abs(got - want).max() < 1e-8, {"v": v.tolist(), "w": w.tolist()}, got.tolist(), want.tolist())


HostContract("C16", "products of higher degree", products, functions=[F + "_mul"], bounded="degrees up to 7 (thorough 12), random coefficients, nine points")


def limb_dark(ctx):
    rng = np.random.default_rng(18)
    x, w = np.polynomial.legendre.leggauss(60)
    z = 0.5 * (x + 1)  # mu, and the flux integral 2 pi mu dmu
    t = rng.uniform(0, 2 * np.pi, size=60)
    pts = (np.sqrt(1 - z * z) * np.cos(t), np.sqrt(1 - z * z) * np.sin(t), z)
    for deg in range(1, 9 if ctx.tier == "quick" else 13):
        us = [np.eye(deg)[i] * s for i in range(deg) for s in (0.7, -0.4)] + [np.zeros(deg)] + [rng.uniform(-0.5, 0.7, size=deg) for _ in range(3)]
        for u in us:
            y = np.asarray(Ylm.from_limb_darkening(tuple(u)).todense())
            got = map_value(y, *pts)
            law = 1 - sum(c * (1 - z) ** (i + 1) for i, c in enumerate(u))
            flux = np.pi * (w * z * law).sum()
            tol = 1e-9 * 8 ** max(deg - 4, 0)
            ctx.ok(f"degree {deg}, u={np.round(u, 3).tolist()}", np.abs(got - law / flux).max() < tol * max(1, np.abs(law / flux).max()), {"u": u.tolist()}, got[:4].tolist(), (law / flux)[:4].tolist())


HostContract("C16", "limb-darkened map", limb_dark, functions=[F + "Ylm.from_limb_darkening"], bounded="degrees 1 to 8 (thorough 12), unit and random coefficients, sixty points; the map has unit flux")
