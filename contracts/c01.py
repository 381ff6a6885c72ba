"""C01 Kepler's equation."""
import math

import numpy as np

from jaxoplanet.core.kepler import kepler
from jv import terms as tm
from jv import trace as tr
from jv.contract import Callee, Contract, HostContract, In

from .common import ecc_anomaly
from jv.contract import Num

Num.uf_real["E_half"] = ecc_anomaly

# callee: the solver of E - e sin E = M on [0, pi]; its contract is discharged below
SOLVE = Callee(
    "jaxoplanet.core.kepler:refine", "refine", (0, 0, 0, 0), lambda *a: ((),),
    lambda M, e, ome, E: [tr.oarr((), [tm.uf("E_half", (M[()], e[()]))])],
    real_uf={"E_half": lambda M, e: float(ecc_anomaly(M, e))},
)

PI = math.pi
M_ = In(lo=-40, hi=40, edges=[0.0, PI, -PI, 2 * PI, -2 * PI, 4 * PI, 1e-3, -1e-3, 3.0, 3.2, 0.1])
E_ = In(lo=0.0, hi=0.97, edges=[0.0, 1e-9, 0.5, 0.9, 0.97], nonneg=True)


def prog(M, e):
    s, c = kepler(M, e)
    return {"s": s, "c": c}


def spec_E(I, K):
    M, e = I["M"], I["e"]
    k = K.floor(M / (2 * K.pi))
    Mr = M - 2 * K.pi * k
    high = K.lt(K.pi, Mr)
    return K.where(high, 2 * K.pi - K.uf("E_half", 2 * K.pi - Mr, e), K.uf("E_half", Mr, e))


def ens(I, O, K):
    e, s, c = I["e"], O["s"], O["c"]
    E = spec_E(I, K)
    q = 1 - e * K.cos(E)
    return [
        K.eq("sin^2 f + cos^2 f = 1", s * s + c * c, 1.0),
        K.eq("sin f", s, K.sqrt(1 - e * e) * K.sin(E) / q),
        K.eq("cos f", c, (K.cos(E) - e) / q),
    ]


def facts(I, K):
    # postcondition of the callee used here: for 0 <= m < pi the solution is in [0, pi)
    M, e = I["M"], I["e"]
    Mr = M - 2 * K.pi * K.floor(M / (2 * K.pi))
    return [
        K.lt(0.0, K.cos(K.uf("E_half", Mr, e) / 2)),
        K.lt(0.0, K.cos(K.uf("E_half", 2 * K.pi - Mr, e) / 2)),
    ]


def req(I, K):
    M = I["M"]
    if K.symbolic:
        Mr = M - 2 * K.pi * K.floor(M / (2 * K.pi))
        return [K.lt(I["e"], 1.0), K.not_(K.equal(Mr, K.pi))]
    return [K.lt(I["e"], 1.0)]


Contract(
    "C01", "range reduction, reflection and conversion to the true anomaly",
    {"M": M_, "e": E_}, prog, ens, requires=req, facts=facts, opaque=[SOLVE],
    n_samples=150, tol=1e-9,
    functions=["jaxoplanet.core.kepler.kepler", "jaxoplanet.core.kepler._kepler"],
    assume=["M = pi (mod 2 pi) exactly is excluded from the real-arithmetic obligation (tan of pi/2) and covered by replays only"],
)


# -- the callee's own contract: the solver solves ----------------------------------------
def solver_grid(rng, n):
    """(M, e): regular grid, the hard corner M -> 0, e -> 1, range ends, many turns, random"""
    m1, e1 = np.meshgrid(np.linspace(-2 * PI, 4 * PI, 1201), np.linspace(0, 0.999, 251))
    m2, e2 = np.meshgrid(np.concatenate([10.0 ** np.linspace(-12, 0.4, 250), PI - 10.0 ** np.linspace(-12, 0, 80), [0.0, PI, 2 * PI]]),
                         1 - 10.0 ** np.linspace(-6, 0, 200))
    m3, e3 = rng.uniform(-1000, 1000, n), rng.uniform(0, 1 - 1e-6, n)
    return (np.concatenate([a.ravel() for a in x]) for x in ((m1, m2, -m2, m3), (e1, e2, e2, e3)))


def residual(M, e, s, c):
    """how far the returned pair is from Kepler's equation, in units of its own rounding"""
    f = np.arctan2(s, c)
    E = 2 * np.arctan2(np.sqrt(1 - e) * np.sin(f / 2), np.sqrt(1 + e) * np.cos(f / 2))
    d = E - e * np.sin(E) - M
    d = np.abs(d - 2 * PI * np.round(d / (2 * PI)))
    slope = (1 - e * e) ** 1.5 / (1 + e * np.cos(f)) ** 2
    return np.maximum(d / (1 + np.abs(M)) / (1 + slope), np.abs(s * s + c * c - 1))


def solver(ctx):
    M, e = solver_grid(ctx.rng, 200_000 if ctx.tier == "quick" else 3_000_000)
    M, e = np.asarray(M), np.asarray(e)
    s, c = (np.asarray(x) for x in kepler(M, e))
    r = residual(M, e, s, c)
    bad = ~(r < 2e-13)
    i = int(np.argmax(bad)) if bad.any() else 0
    ctx.ok("E - e sin E = M (mod 2 pi) and unit circle", not bad.any(),
           {"M": float(M[i]), "e": float(e[i])}, (float(s[i]), float(c[i]), float(r[i])), "scaled residual < 2e-13")


HostContract(
    "C01", "starter and refine solve Kepler's equation", solver,
    functions=["jaxoplanet.core.kepler.starter", "jaxoplanet.core.kepler.refine", "jaxoplanet.core.kepler.kepler"],
    bounded="residual of the real solver on ~620,000 (M, e) points (regular grid, log grid into M->0, e->1-1e-6, random |M|<1000)",
)
