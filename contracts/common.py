"""Callee contracts shared by several properties, and numeric meanings of spec functions."""
import math

import numpy as np

from jaxoplanet.units import unit_registry as ureg
from jv import terms as tm
from jv import trace as tr
from jv.contract import Callee, Num


# -- Kepler -----------------------------------------------------------------------
def ecc_anomaly(M, e):
    """Reference solution of E - e sin E = M (bisection safeguarded Newton), elementwise."""

    def one(M, e):
        k = math.floor(M / (2 * math.pi))
        Mr = M - 2 * math.pi * k
        hi = Mr > math.pi
        m = 2 * math.pi - Mr if hi else Mr
        a, b = max(0.0, m - 1e-16), min(math.pi, m + e)
        E = m + 0.85 * e if m + 0.85 * e < math.pi else 0.5 * (a + b)
        for _ in range(200):
            f = E - e * math.sin(E) - m
            if f > 0:
                b = E
            else:
                a = E
            fp = 1 - e * math.cos(E)
            En = E - f / fp if fp > 0 else 0.5 * (a + b)
            if not (a <= En <= b):
                En = 0.5 * (a + b)
            if En == E:
                break
            E = En
        E = 2 * math.pi - E if hi else E
        return E + 2 * math.pi * k

    return np.vectorize(one, otypes=[float])(M, e)


def true_anomaly(M, e):
    E = ecc_anomaly(M, e)
    return 2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2))


Num.uf_real["true_anomaly"] = true_anomaly
Num.uf_real["ecc_anomaly"] = ecc_anomaly


def _kepler_model(M, e):
    F = tm.uf("true_anomaly", (M[()], e[()]))
    return [tr.oarr((), [tm.fn("sin", F)]), tr.oarr((), [tm.fn("cos", F)])]


def _kepler_jvp(primals, tangents, outs):
    """The derivative half of the contract (proved in C02)."""
    M, e = primals
    dM, de = tangents
    s, c = outs
    ome2 = 1 - e * e
    df = dM * (1 + e * c) ** 2 / ome2**1.5 + de * (2 + e * c) * s / ome2
    return (c * df, -s * df)


def true_anomaly_rule(norm, t, args):
    """F(M, 0) = M, F(0, e) = 0 and F(M + 2 pi n, e) = F(M, e) + 2 pi n (whole turns, integer
    variables included): parts of the callee contract (C01)."""
    M, e = args
    if not e:
        return M
    if not M:
        return {}
    two_pi = 2 * tm.PI_Q
    turns = {}
    for m, (c, g) in M.items():
        if all(norm.atoms[a].integer and x > 0 for a, x in m):
            k = round(float(c / two_pi))
            if k and abs(c - k * two_pi) <= tm.mpq(1, 10**11) * abs(c):
                turns[m] = (k * two_pi, abs(float(k * two_pi)))
    if not turns:
        return None
    rest = norm.psub(M, turns)
    return norm.padd(norm._nf(tm.uf("true_anomaly", (norm.to_term(rest), norm.to_term(e)))), turns)


KEPLER = Callee(
    "jaxoplanet.core.kepler:kepler", "kepler", (0, 0), lambda a, b: ((), ()), _kepler_model,
    jvp=_kepler_jvp, real_uf={"true_anomaly": lambda M, e: float(true_anomaly(M, e))},
)
KEPLER_RULES = {"true_anomaly": true_anomaly_rule}


# -- units ------------------------------------------------------------------------------
# defined constants, independent of the registry under test
GM_SUN = 1.3271244e20  # m^3 / s^2 (IAU nominal solar mass parameter)
R_SUN = 6.957e8  # m
DAY = 86400.0  # s
AU = 149597870700.0  # m
G_RSUN = GM_SUN * DAY**2 / R_SUN**3  # gravitational constant in R_sun^3 / M_sun / day^2
R_SUN_AU = R_SUN / AU


def mag(q, unit):
    """magnitude in `unit`; a plain number is only accepted for a dimensionless result"""
    if not hasattr(q, "magnitude") and unit == ureg.dimensionless:
        return q
    return q.to(unit).magnitude
