"""C19 occultation solution vector: the visible integral of each Green's basis term."""
import math
from fractions import Fraction as Q

import jax
import numpy as np
from scipy.special import roots_legendre

from jaxoplanet.starry.core import solution as S
from jv.contract import Contract, HostContract, In

from .c07 import REGIMES, geometry, place
from .sphere import exponents, field, lm, monomial

F = "jaxoplanet.starry.core.solution."


# -- ghost: the line integrals of the fields over the visible arcs -----------------------------
def fourier(u, v):
    """cos^u sin^v as {k: coefficient of e^(i k phi)}, exact complex rationals (re, im)"""
    p = {0: (Q(1), Q(0))}

    def mul(p, d):
        out = {}
        for k, (a, b) in p.items():
            for j, (c, e) in d.items():
                x, y = out.get(k + j, (Q(0), Q(0)))
                out[k + j] = (x + a * c - b * e, y + a * e + b * c)
        return out

    for _ in range(u):
        p = mul(p, {1: (Q(1, 2), Q(0)), -1: (Q(1, 2), Q(0))})
    for _ in range(v):
        p = mul(p, {1: (Q(0), Q(-1, 2)), -1: (Q(0), Q(1, 2))})
    return p


def antiderivative(u, v, t, K):
    out = 0.0
    for k, (a, b) in fourier(u, v).items():
        if k == 0:
            out = out + float(a) * t
        elif k > 0:  # 2 Re(c e^(ikt)) integrates to 2 (a sin kt + b cos kt) / k
            if a:
                out = out + float(2 * a / k) * K.sin(k * t)
            if b:
                out = out + float(2 * b / k) * K.cos(k * t)
    return out


def star_arc(n, k1, K):
    """over the star's limb outside the occultor (which sits on +y and hides +-k1 about it)"""
    l, m = lm(n)
    mu, nu = l - m, l + m
    start, end = K.pi / 2 + k1, 5 * K.pi / 2 - k1
    if nu % 2 == 0:  # G = (0, x^((mu+2)/2) y^(nu/2)) on the unit circle
        a, b = (mu + 2) // 2, nu // 2
        return antiderivative(a + 1, b, end, K) - antiderivative(a + 1, b, start, K)
    if n == 2:
        return (end - start) / 3
    return 0.0  # proportional to z^3


def occultor_arc(n, k0, b, r, order, K):
    """over the occultor's limb inside the star, anticlockwise: Gauss-Legendre on 0..k0 of the
    two symmetric points"""
    tot = 0.0
    for xk, wk in zip(*roots_legendre(order)):
        p = k0 * (0.5 * (1 + float(xk)))
        s, c = K.sin(p), K.cos(p)
        z = K.sqrt(1 - (b * b + r * r - 2 * b * r * c))
        for t in (s, -s):
            gx, gy = field(n, r * t, b - r * c, z)
            tot = tot + float(wk) * (gx * (r * c) + gy * (r * t))
    return tot * (0.5 * k0)


def ghost(n, regime, order, I, K):
    g = place(regime, I)
    if regime in ("no overlap", "external contact"):
        return star_arc(n, 0.0 * g["r"], K)
    if regime in ("fully covered", "just covered"):
        return 0.0
    _, k0, k1 = REGIMES[regime][1][0](g["b"], g["r"], K)
    return star_arc(n, k1, K) - occultor_arc(n, k0, g["b"], g["r"], order, K)


def vector(regime, deg, order, tier="quick"):
    ins, _, req = REGIMES[regime]
    N = (deg + 1) ** 2

    def program(**I):
        g = place(regime, I)
        return {"s": S.solution_vector(deg, order=order)(g["b"], g["r"])}

    Contract("C19", f"{regime}: degree {deg}, order {order}", ins, program,
             lambda I, O, K: [K.eq(f"term {lm(n)}", O["s"][n], ghost(n, regime, order, I, K), scale=1.0) for n in range(N)],
             requires=lambda I, K: req(I, K, 1, order), functions=[F + k for k in ("solution_vector", "kappas", "p_integral", "q_integral")], n_samples=20, tier=tier)


for regime in REGIMES:
    hard = regime == "partial overlap"
    for deg, order in ((1, 6), (2, 6), (3, 4), (4, 4), (6, 2)) if hard else ((1, 10), (2, 6), (3, 4), (4, 4), (6, 3), (3, 10)):
        vector(regime, deg, order)
    for deg, order in ((3, 10), (8, 2)) if hard else ((5, 20), (8, 4)):
        vector(regime, deg, order, "thorough")


# -- the phase curve vector ---------------------------------------------------------------------
def moment(i, j, k):
    """of x^i y^j z^k over the unit disc, z = sqrt(1 - x^2 - y^2)"""
    if i % 2 or j % 2:
        return 0.0
    lg = math.lgamma
    # int r^(i+j+1) (1-r^2)^(k/2) dr x int cos^i sin^j
    radial = 0.5 * math.exp(lg((i + j) / 2 + 1) + lg(k / 2 + 1) - lg((i + j + k) / 2 + 2))
    return radial * 2 * math.exp(lg((i + 1) / 2) + lg((j + 1) / 2) - lg((i + j) / 2 + 1))


def phase_vector(ctx):
    for deg in range(31 if ctx.tier == "quick" else 61):
        got = np.asarray(S.rT(deg), dtype=float)
        want = np.array([moment(*exponents(n)) for n in range((deg + 1) ** 2)])
        bad = [n for n in range(len(want)) if got.shape != want.shape or abs(got[n] - want[n]) > 1e-11 * max(1.0, abs(want[n])) or (want[n] == 0) != (got[n] == 0)]
        ctx.ok(f"degree {deg}", not bad, {"degree": deg}, [got[n] for n in bad[:3]], [(lm(n), want[n]) for n in bad[:3]])


HostContract("C19", "phase curve vector", phase_vector, functions=[F + "rT"], bounded="degrees 0 to 30 (thorough 60): every component against the closed form of the moment")


class NK:
    pi, sin, cos, atan2 = math.pi, staticmethod(np.sin), staticmethod(np.cos), staticmethod(np.arctan2)

    @staticmethod
    def sqrt(x):
        return np.sqrt(np.maximum(x, 0.0))


def exact_vector(deg, b, r):
    """the same line integrals by adaptive substitution: nodes clustered at both ends of the arc"""
    if b >= 1 + r:
        k0, k1 = 0.0, 0.0
    elif r >= 1 + b:
        k0, k1 = 0.0, math.pi
    elif b <= 1 - r:
        k0, k1 = math.pi, 0.0
    else:
        _, k0, k1 = geometry(b, r, NK)
    t, w = roots_legendre(300)
    u, du = 0.5 * (1 + t), 0.5 * w
    p = k0 * u * u * (3 - 2 * u)
    dp = k0 * 6 * u * (1 - u) * du
    s, c = np.sin(p), np.cos(p)
    z = NK.sqrt(1 - (b * b + r * r - 2 * b * r * c))
    out = []
    for n in range((deg + 1) ** 2):
        occ = 0.0
        if k0 and r:
            for sg in (s, -s):
                gx, gy = field(n, r * sg, b - r * c, np.minimum(z, 1 - 1e-13))
                occ += float(np.sum(dp * (gx * r * c + gy * r * sg)))
        out.append(star_arc(n, k1, NK) - occ)
    return np.array(out)


def default_order(ctx):
    rng = np.random.default_rng(19)
    deg = 12 if ctx.tier == "quick" else 18
    orders = {20: 1e-6, 50: 1e-8, 100: 1e-9}
    f = {n: jax.jit(lambda b, r, n=n: S.solution_vector(deg, order=n)(b, r)) for n in orders}
    cases = [(0.0, 0.1), (0.0, 1.0), (0.5, 0.5), (0.9, 0.1), (1.1, 0.1), (1.0, 0.1), (0.3, 1.3), (0.3, 1.31), (2.0, 1.0), (0.1, 1.0), (1.0, 1.0), (0.7, 0.3), (5.0, 4.5), (50.0, 49.6), (0.0, 0.0), (0.4, 0.0), (-0.4, 0.2), (1.4, 0.4), (1e-8, 0.3), (1e-5, 1.0)]
    cases += [(float(rng.uniform(0, 1.6)), float(10 ** rng.uniform(-2, 0.5))) for _ in range(40)]
    for b, r in cases:
        want = exact_vector(deg, abs(b), r)
        for n, tol in orders.items():
            err = np.abs(np.asarray(f[n](b, r)) - want)
            ctx.ok(f"b={b}, r={r}, order {n}", bool(np.all(err < (tol if r < 30 else 1e-6))), {"b": b, "r": r, "degree": deg, "order": n}, float(np.nanmax(err)), 0.0)


HostContract("C19", "accuracy of the quadrature", default_order, functions=[F + "solution_vector"], bounded="degree 12 (thorough 18), 60 positions including every contact, orders 20, 50 and 100, tolerances 1e-6, 1e-8 and 1e-9")
