"""C07 limb-darkened occultation: exact disc integral up to fixed quadrature."""
from fractions import Fraction
from math import comb

import jax
import jax.numpy as jnp
import numpy as np
from scipy.special import roots_legendre

import jaxoplanet.core.limb_dark as ld
from jaxoplanet.core.limb_dark import light_curve
from jv.contract import Contract, HostContract, In

F = "jaxoplanet.core.limb_dark."
KW = dict(functions=[F + "solution_vector", F + "kappas", F + "kite_area", F + "s0s2", F + "p_integral"], n_samples=40)
EPS = 1e-9
B = In(lo=0.02, hi=2.4, pos=True)
R = In(lo=0.02, hi=1.8, pos=True, log=True, edges=[1.0, 0.5])


# -- ghost definitions -------------------------------------------------------------------
def geometry(b, r, K):
    """overlap angles of two discs of radii r and 1 at separation b: kappa0 at the occultor's
    centre, kappa1 at the star's (law of cosines), and 4 x the area of the triangle"""
    A = K.sqrt((b + r + 1) * (1 + r - b) * (1 + b - r) * (b + r - 1))
    return A, K.atan2(A, b * b + r * r - 1), K.atan2(A, b * b + 1 - r * r)


def overlap(b, r, K):
    return [K.lt(b, 1 + r), K.lt(1 - r, b), K.lt(r - 1, b)]


def nodes(kap, b, r, order, K):
    """Gauss-Legendre nodes on 0 <= phi <= kappa: weight, cos(phi), omz2 = x^2 + y^2"""
    x, w = roots_legendre(order)
    for xk, wk in zip(x, w):
        c = K.cos(kap * (0.5 * (1 + float(xk))))
        yield float(wk), c, b * b + r * r - 2 * b * r * c


def line_integral(n, kap, b, r, order, K):
    """2 int_0^kappa G_n . dl over the occultor's limb, with G_n = z^n (-y, x) for n >= 2 and
    (1 - z^3)/(3 (1 - z^2)) (-y, x) for n = 1"""
    tot = 0.0
    for w, c, o in nodes(kap, b, r, order, K):
        z2 = 1 - o
        f = (1 - z2 * K.sqrt(z2)) / (3 * o) if n == 1 else z2 ** (n // 2) * (K.sqrt(z2) if n % 2 else 1.0)
        tot = tot + w * f * 2 * r * (r - b * c)
    return tot * (0.5 * kap)


def clear(kap, b, r, lmax, order, K):
    """the quadrature nodes stay clear of the eps-guards (limb and centre of the star)"""
    if lmax < 1:
        return []
    out = [K.le(EPS, 4 * b * r)]
    for _, c, o in nodes(kap, b, r, order, K):
        out += [K.le(EPS, o), K.le(EPS, 1 - o)]
    return out


def lens(b, r, A, k0, k1, K):
    return K.pi - (k1 + r * r * k0 - A / 2)


def _quad(b, r, A, k0, k1, K):
    # by Green: int (4 z^2 - 2) over the overlap = int over its boundary of z^2 (-y, x).dl, and z = 0
    # on the star's limb:  2 int_0^k0 (1 - r^2 - b^2 + 2 b r cos p) r (r - b cos p) dp, closed form
    s, c = A / (2 * b * r), (b * b + r * r - 1) / (2 * b * r)
    q = 1 - r * r - b * b
    sc2 = (k0 + s * c) / 2  # int cos^2
    return -2 * r * (q * r * k0 - q * b * s + 2 * b * r * r * s - 2 * b * b * r * sc2)


def angles_inside(b, r, K):
    return 0.0, K.pi, 0.0


# what each regime says about the vector of integrals
INSIDE = (angles_inside, lambda b, r, A, k0, k1, K: K.pi * (1 - r * r),
          lambda b, r, A, k0, k1, K: -2 * K.pi * r * r * (1 - r * r - 2 * b * b))
REGIMES = {
    "partial overlap": ({"b": B, "r": R}, (geometry, lens, _quad),
                        lambda I, K, l, o: overlap(I["b"], I["r"], K) + clear(geometry(I["b"], I["r"], K)[1], I["b"], I["r"], l, o, K)),
    "occultor inside the disc": ({"b": In(lo=0.01, hi=1, pos=True), "r": R}, INSIDE,
                                 lambda I, K, l, o: [K.lt(I["b"] + I["r"], 1.0)] + clear(K.pi, I["b"], I["r"], l, o, K)),
    "internal contact": ({"r": In(lo=0.02, hi=0.98, pos=True, edges=[0.5])}, INSIDE,
                         lambda I, K, l, o: [K.lt(I["r"], 1.0)] + clear(K.pi, 1 - I["r"], I["r"], l, o, K)),
    "concentric": ({"r": In(lo=0.02, hi=0.98, pos=True, edges=[0.5])}, INSIDE, lambda I, K, l, o: [K.lt(I["r"], 1.0), K.le(EPS, I["r"] ** 2)]),
    "no overlap": ({"b": In(lo=1.0, hi=3.0, edges=[1.0]), "r": In(lo=0.0, hi=1.5, nonneg=True, edges=[0.0])}, None,
                   lambda I, K, l, o: [K.le(1 + I["r"], I["b"])]),
    "external contact": ({"r": In(lo=0.0, hi=1.5, nonneg=True, edges=[0.0])}, None, lambda I, K, l, o: []),
    "fully covered": ({"b": In(lo=0.0, hi=1.0, nonneg=True, edges=[0.0]), "r": In(lo=1.0, hi=4.0, pos=True, edges=[1.0])}, None,
                      lambda I, K, l, o: [K.le(1 + I["b"], I["r"])]),
    "just covered": ({"b": In(lo=0.0, hi=1.0, nonneg=True, edges=[0.0])}, None, lambda I, K, l, o: []),
}
IMPLIED = {  # the coordinate fixed by a contact regime
    "internal contact": lambda I: {"b": 1 - I["r"], "r": I["r"]},
    "concentric": lambda I: {"b": 0.0 * I["r"], "r": I["r"]},
    "external contact": lambda I: {"b": 1 + I["r"], "r": I["r"]},
    "just covered": lambda I: {"b": I["b"], "r": 1 + I["b"]},
}


def place(regime, I):
    return IMPLIED.get(regime, lambda I: I)(I)


def ghost_s(regime, lmax, order, I, K):
    """the integrals over the visible part of the disc of 1, z and (n+2) z^n - n z^(n-2)"""
    g = place(regime, I)
    if regime in ("no overlap", "external contact"):
        return ([K.pi, 2 * K.pi / 3] + [0.0] * lmax)[: lmax + 1]
    if regime in ("fully covered", "just covered"):
        return [0.0] * (lmax + 1)
    kappa, s0, s2 = REGIMES[regime][1]
    b, r = g["b"], g["r"]
    A, k0, k1 = kappa(b, r, K)
    out = [s0(b, r, A, k0, k1, K)]
    for n in range(1, lmax + 1):
        if n == 2:
            out.append(s2(b, r, A, k0, k1, K))
        elif n == 1:
            out.append(2 * (K.pi - k1) / 3 - line_integral(n, k0, b, r, order, K))
        else:
            out.append(-line_integral(n, k0, b, r, order, K))
    return out


def sgn(regime, I):
    return {k: v for k, v in REGIMES[regime][0].items()}


# -- the vector of integrals -------------------------------------------------------------------
def s_contract(regime, lmax, order, tier):
    def program(**I):
        g = place(regime, I)
        return {"s": ld.solution_vector(lmax, order=order)(g["b"], g["r"])}

    def ens(I, O, K):
        ref = ghost_s(regime, lmax, order, I, K)
        names = ["visible area", "linear term", "quadratic term"] + [f"term {n}" for n in range(3, lmax + 1)]
        return [K.eq(names[n], O["s"][n], ref[n], scale=1.0) for n in range(lmax + 1)]

    ins, _, req = REGIMES[regime]
    Contract("C07", f"integrals, {regime}: {lmax + 1} terms, order {order}", ins, program, ens,
             requires=lambda I, K: req(I, K, lmax, order), tier=tier, **KW)


CASES = [(0, 10), (2, 10), (6, 10), (4, 8)]
for regime in REGIMES:
    for lmax, order in CASES + [(3, 10), (6, 4), (8, 20), (12, 10), (5, 40)]:
        if hasattr(ld, "solution_vector"):
            quick = (lmax, order) in (CASES if regime != "partial overlap" else [(3, 10), (6, 4)])
            s_contract(regime, lmax, order, "quick" if quick else "thorough")


# -- the light curve ---------------------------------------------------------------------------
def ghost_g(nu):
    """exact matrix C with sum_n (C @ (1, u))_n G_n(mu) = 1 - sum_k u_k (1 - mu)^k, where
    G_0 = 1, G_1 = mu, G_n = (n + 2) mu^n - n mu^(n-2)"""
    N = nu + 1
    G = [[Fraction(0)] * N for _ in range(N)]  # monomial rows
    for n in range(N):
        G[n][n] = Fraction(n + 2 if n > 1 else 1)
        if n > 1:
            G[n][n - 2] -= n
    Pm = [[Fraction(0)] * N for _ in range(N)]  # column k: coefficients of the k-th law term
    Pm[0][0] = Fraction(1)
    for k in range(1, N):
        for n in range(k + 1):
            Pm[n][k] -= comb(k, n) * (-1) ** n
    C = [[Fraction(0)] * N for _ in range(N)]
    for k in range(N):
        rest = [Pm[n][k] for n in range(N)]
        for n in reversed(range(N)):
            c = rest[n] / G[n][n]
            C[n][k] = c
            for m in range(N):
                rest[m] -= c * G[n][m]
    return C


def g_of(u, nu, K):
    C = ghost_g(nu)
    v = [1.0] + [u[k] for k in range(nu)]
    return [sum((float(C[n][k]) * v[k] for k in range(nu + 1) if C[n][k]), 0.0) for n in range(nu + 1)]


def lc_contract(regime, nu, order, tier):
    ins, _, req = REGIMES[regime]
    ins = dict(ins)
    if nu:
        ins["u"] = In(shape=(nu,), lo=-0.3, hi=0.5, edges=[0.0])

    def norm(I, K):
        g = g_of(I.get("u"), nu, K) if nu else [1.0]
        return g, g[0] + (2.0 / 3.0) * g[1] if nu else 1.0

    def program(**I):
        g = place(regime, I)
        return {"F": light_curve(I["u"] if nu else jnp.zeros(0), g["b"], g["r"], order=order)}

    def requires(I, K):
        out = req(I, K, nu, order)
        return out + [K.le(1e-3, norm(I, K)[1])] if nu else out

    def ens(I, O, K):
        if regime in ("no overlap", "external contact"):
            return [K.eq("no dip", O["F"], 0.0)]
        if regime in ("fully covered", "just covered"):
            return [K.eq("dark", O["F"], -1.0)]
        g, tot = norm(I, K)
        s = ghost_s(regime, nu, order, I, K)
        return [K.eq("blocked fraction of the flux", O["F"] * tot, sum((g[n] * s[n] for n in range(nu + 1)), 0.0) / K.pi - tot, scale=1.0)]

    Contract("C07", f"light curve, {regime}: {nu} coefficients, order {order}", ins, program, ens, requires=requires, tier=tier,
             **{**KW, "functions": KW["functions"] + [F + "light_curve", F + "greens_basis_transform"]})


for regime in REGIMES:
    for nu, order in [(0, 10), (1, 10), (2, 10), (3, 4), (5, 4), (4, 10), (7, 10)]:
        heavy = regime == "partial overlap" and nu * order >= 20 or nu * order > 30
        lc_contract(regime, nu, order, "thorough" if heavy else "quick")


# -- basis of limb darkening -------------------------------------------------------------------
def basis(nu):
    def ens(I, O, K):
        mu = I["mu"]
        G = [1.0, mu] + [(n + 2) * mu**n - n * mu ** (n - 2) for n in range(2, nu + 1)]
        return [K.eq("same intensity at every mu", sum((O["g"][n] * G[n] for n in range(nu + 1)), 0.0),
                     1.0 - sum((I["u"][k] * (1 - mu) ** (k + 1) for k in range(nu)), 0.0), scale=1.0)]

    Contract("C07", f"basis change of {nu} coefficients", {"u": In(shape=(nu,), lo=-1, hi=1), "mu": In(lo=0, hi=1, edges=[0.0, 1.0])},
             lambda u, mu: {"g": ld.greens_basis_transform(u)}, ens, functions=[F + "greens_basis_transform"], n_samples=40)


if hasattr(ld, "greens_basis_transform"):
    for nu in (1, 2, 3, 4, 5, 6, 8, 12):
        basis(nu)


# -- only |b| and |r| matter -------------------------------------------------------------------
def signs(b, r, u):
    return {"pp": light_curve(u, b, r), "mp": light_curve(u, -b, r), "pm": light_curve(u, b, -r), "mm": light_curve(u, -b, -r)}


Contract("C07", "signs of b and r do not matter", {"b": In(lo=0.0, hi=2.5, nonneg=True, edges=[0.0, 1.0]), "r": In(lo=0.0, hi=2.0, nonneg=True, edges=[0.0, 1.0]),
                                                  "u": In(shape=(3,), lo=-0.3, hi=0.5)},
         signs, lambda I, O, K: [K.eq(k, O[k], O["pp"]) for k in ("mp", "pm", "mm")],
         functions=[F + "light_curve", F + "solution_vector"], n_samples=40, definedness=False)


# -- calculus: the closed forms are the integrals (fundamental theorem in the radius) -------------
def rate(b, r):
    s, ds = jax.jvp(lambda r: ld.solution_vector(2, order=3)(b, r)[jnp.array([0, 2])], (r,), (1.0,))
    return {"s": s, "ds": ds}


def rate_ens(inside):
    def ens(I, O, K):
        b, r = I["b"], I["r"]
        A, k0, k1 = angles_inside(b, r, K) if inside else geometry(b, r, K)
        q = 1 - r * r - b * b
        s = A / (2 * b * r)
        return [
            K.eq("d area/dr = - arc of the occultor's limb on the star", O["ds"][0], -2 * r * k0, scale=1e-3),
            K.eq("d/dr of the quadratic term = - integral of 4 z^2 - 2 over that arc", O["ds"][1],
                 -r * ((4 * q - 2) * 2 * k0 + 16 * b * r * s), scale=1e-2),
        ]

    return ens


if hasattr(ld, "solution_vector"):
    Contract("C07", "radius derivative of the closed forms, partial overlap", {"b": B, "r": R}, rate, rate_ens(False),
             requires=lambda I, K: overlap(I["b"], I["r"], K) + [K.le(1e-12, (I["b"] + I["r"] + 1) * (1 + I["r"] - I["b"]) * (1 + I["b"] - I["r"]) * (I["b"] + I["r"] - 1))],
             **KW)
    Contract("C07", "radius derivative of the closed forms, inside the disc", {"b": In(lo=0.01, hi=1, pos=True), "r": R}, rate, rate_ens(True),
             requires=lambda I, K: [K.lt(I["b"] + I["r"], 1.0)], **KW)


# -- the disc integral itself, over rings of the star ------------------------------------------------
def disc_flux(u, b, r):
    """flux lost by a star of intensity 1 - sum u_n (1 - mu)^n: integral over the rings of the star of
    the arc of the ring inside of the occultor, nodes clustered at the ends"""
    b, r = abs(b), abs(r)
    x, w = roots_legendre(200)
    v, dv = 0.5 * (1 + x), 0.5 * w
    k, dk = v**3 * (10 - 15 * v + 6 * v * v), 30 * v * v * (1 - v) ** 2 * dv

    def rings(lo, hi, arc):
        if hi <= lo:
            return 0.0
        rho = lo + (hi - lo) * k
        inten = 1 - sum(c * (1 - np.sqrt(np.maximum(1 - rho * rho, 0))) ** (n + 1) for n, c in enumerate(u))
        return float(np.sum((hi - lo) * dk * inten * arc(rho) * rho))

    whole = lambda rho: 2 * np.pi  # noqa: E731
    part = lambda rho: 4 * np.arcsin(np.sqrt(np.clip((r - rho + b) * (r + rho - b) / (4 * rho * b), 0, 1)))  # noqa: E731
    return -(rings(0.0, min(1.0, max(0.0, r - b)), whole) + rings(abs(b - r), min(1.0, b + r), part)) / rings(0.0, 1.0, whole)


def disc_integral(ctx):
    rng = np.random.default_rng(7)
    cases = [(0.0, 0.1), (0.3, 0.1), (0.9, 0.1), (0.95, 0.1), (1.0, 0.1), (1.05, 0.1), (1.1, 0.1), (1.2, 0.1), (0.5, 0.5), (0.4, 0.5), (0.2, 0.9), (0.1, 1.0), (1.0, 1.0), (0.3, 1.3), (0.3, 1.29), (1.9, 1.0),
             (0.0, 1.0), (0.0, 2.0), (5.0, 4.5), (50.0, 49.6), (1e-6, 0.3), (-0.5, 0.2), (0.5, -0.2), (0.3, 0.0), (0.999, 1e-3), (0.2, 1e-3)]
    cases += [(float(rng.uniform(0, 1.6)), float(10 ** rng.uniform(-3, 0.4))) for _ in range(60 if ctx.tier == "quick" else 600)]
    bs, rs = (np.array(c) for c in zip(*cases))
    for nu in (0, 1, 2, 3, 5, 8, 12):
        u = rng.uniform(-0.2, 0.3, nu)
        want = np.array([disc_flux(u, b, r) for b, r in cases])
        for order, tol in ((10, 1e-5), (30, 1e-7), (100, 1e-9)):
            got = np.array([float(light_curve(jnp.array(u), b, r, order=order)) for b, r in cases])
            for b, r, x, y in zip(bs, rs, got, want):
                ctx.ok(f"{nu} coefficients, order {order}, b={b}, r={r}", bool(abs(x - y) < tol), {"u": list(u), "b": float(b), "r": float(r), "order": order}, float(x), float(y))


HostContract("C07", "integral over the rings of the star", disc_integral, functions=[F + "light_curve"], bounded="0 to 12 coefficients, 86 positions (thorough 626) including contacts, orders 10, 30, 100, tolerances 1e-5, 1e-7, 1e-9")
