"""C02 derivatives of the Kepler solver."""
import jax
import jax.numpy as jnp

from jaxoplanet.core.kepler import kepler
from jv import trace as tr
from jv import terms as tm
from jv.contract import Callee, Contract, In

from .dual import DK, D
from .common import KEPLER  # noqa: F401  (registers numeric meanings)

M_ = In(lo=-20.0, hi=20.0, edges=[0.0, 3.141592653589793, -3.141592653589793, 6.283185307179586, 1e-3, -0.5])
E_ = In(lo=0.0, hi=0.97, edges=[0.0, 0.5, 1e-8, 0.9, 0.99], nonneg=True)


def prog(M, e, dM, de):
    p, t = jax.jvp(kepler, (M, e), (dM, de))
    return {"s": p[0], "c": p[1], "ds": t[0], "dc": t[1]}


def ens(I, O, K):
    e, s, c = I["e"], O["s"], O["c"]
    ome2 = 1 - e * e
    df = I["dM"] * (1 + e * c) ** 2 / (ome2 * K.sqrt(ome2)) + I["de"] * (2 + e * c) * s / ome2
    return [
        K.eq("d sin f = cos f df", O["ds"], c * df),
        K.eq("d cos f = -sin f df", O["dc"], -s * df),
    ]


Contract(
    "C02", "forward derivative of the solver follows the implicit function theorem",
    {"M": M_, "e": E_, "dM": In(lo=-2, hi=2, edges=[0, 1]), "de": In(lo=-2, hi=2, edges=[0, 1])},
    prog, ens, requires=lambda I, K: [K.lt(I["e"], 1.0)],
    cut=True,
    functions=["jaxoplanet.core.kepler._kepler (jvp rule)", "jaxoplanet.core.kepler.kepler"],
)


# the closed form used above *is* the implicit derivative of the true anomaly: a lemma on
# the mathematical relation E - e sin E = M, tan(f/2) = sqrt((1+e)/(1-e)) tan(E/2)
def lem(E, e, dE, de):
    def f(E, e):
        q = 1 - e * jnp.cos(E)
        return E - e * jnp.sin(E), jnp.sqrt(1 - e * e) * jnp.sin(E) / q, (jnp.cos(E) - e) / q

    (M, s, c), (dM, ds, dc) = jax.jvp(f, (E, e), (dE, de))
    return {"s": s, "c": c, "dM": dM, "ds": ds, "dc": dc}


def lem_ens(I, O, K):
    e, s, c = I["e"], O["s"], O["c"]
    ome2 = 1 - e * e
    df = O["dM"] * (1 + e * c) ** 2 / (ome2 * K.sqrt(ome2)) + I["de"] * (2 + e * c) * s / ome2
    return [
        K.eq("sin^2+cos^2", s * s + c * c, 1),
        K.eq("lemma ds", O["ds"], c * df),
        K.eq("lemma dc", O["dc"], -s * df),
    ]


Contract(
    "C02", "lemma: implicit derivative of the true anomaly",
    {"E": In(lo=-7, hi=7, edges=[0, 1]), "e": E_, "dE": In(), "de": In()},
    lem, lem_ens, requires=lambda I, K: [K.lt(I["e"], 1.0)],
    functions=["(specification lemma)"],
)


# reverse mode: the vjp is the transpose of the same linear map
def rev(M, e, a, b):
    _, f = jax.vjp(kepler, M, e)
    gM, ge = f((a, b))
    s, c = kepler(M, e)
    return {"gM": gM, "ge": ge, "s": s, "c": c}


def rev_ens(I, O, K):
    e, s, c = I["e"], O["s"], O["c"]
    ome2 = 1 - e * e
    w = I["a"] * c - I["b"] * s
    return [
        K.eq("gradient in M", O["gM"], w * (1 + e * c) ** 2 / (ome2 * K.sqrt(ome2))),
        K.eq("gradient in e", O["ge"], w * (2 + e * c) * s / ome2),
    ]


Contract(
    "C02", "reverse derivative of the solver",
    {"M": M_, "e": E_, "a": In(edges=[0, 1]), "b": In(edges=[0, 1])},
    rev, rev_ens, requires=lambda I, K: [K.lt(I["e"], 1.0)], cut=True,
    functions=["jaxoplanet.core.kepler._kepler (jvp rule, transposed)"],
)


# -- second derivatives: the rule differentiated again ---------------------------------------------
SECOND = {"M": M_, "e": E_, "dM": In(lo=-2, hi=2, edges=[0, 1]), "de": In(lo=-2, hi=2, edges=[0, 1]), "bM": In(lo=-2, hi=2, edges=[0, 1]), "be": In(lo=-2, hi=2, edges=[0, 1])}


def second(M, e, dM, de, bM, be):
    def first(M, e):
        return jax.jvp(kepler, (M, e), (dM, de))[1]

    def grad(M, e, k):
        return jax.vjp(lambda M, e: kepler(M, e)[k], M, e)[1](jnp.ones_like(M))

    s, c = kepler(M, e)
    ff = jax.jvp(first, (M, e), (bM, be))[1]
    out = {"s": s, "c": c, "ff s": ff[0], "ff c": ff[1]}
    for k, n in enumerate("sc"):
        r = jax.vjp(lambda M, e, k=k: first(M, e)[k], M, e)[1](jnp.ones_like(M))
        out["rf " + n] = bM * r[0] + be * r[1]
        t = jax.jvp(lambda M, e, k=k: grad(M, e, k), (M, e), (bM, be))[1]
        out["fr " + n] = dM * t[0] + de * t[1]
    return out


def second_ens(I, O, K):
    k = DK(K)
    e, s, c = I["e"], O["s"], O["c"]

    def df(e, s, c, dM, de, k):
        q = 1 - e * e
        return dM * (1 + e * c) ** 2 / (q * k.sqrt(q)) + de * (2 + e * c) * s / q

    db = df(e, s, c, I["bM"], I["be"], K)
    S, C, Ee = D(s, c * db), D(c, 0.0 - s * db), D(e, I["be"])
    d = df(Ee, S, C, D(I["dM"], 0.0), D(I["de"], 0.0), k)
    ref = {"s": (C * d).d, "c": (-(S * d)).d}
    return [K.eq(f"{how}, {n}", O[f"{m} {n}"], ref[n], scale=1.0) for n in "sc" for m, how in (("ff", "forward over forward"), ("rf", "reverse over forward"), ("fr", "forward over reverse"))]


Contract("C02", "second derivatives differentiate the first", SECOND, second, second_ens, requires=lambda I, K: [K.lt(I["e"], 1.0)], cut=True,
         functions=["jaxoplanet.core.kepler._kepler (jvp rule, differentiated)", "jaxoplanet.core.kepler.kepler"])
