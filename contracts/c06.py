"""C06 reference times, inclination and periodicity."""
import itertools

import jax.numpy as jnp

from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
from jaxoplanet.units import unit_registry as ureg
from jv.contract import Contract, In

from .common import KEPLER, KEPLER_RULES, mag
from .c05 import ANG, F, FNS, LEN, POS, VEL, inputs, incl_ok, vec

KW = dict(opaque=[KEPLER], uf_rules=KEPLER_RULES, functions=FNS + [F + "time_peri", F + "inclination", F + "omega_peri"], n_samples=25)
W = In(lo=-3.1, hi=3.1, edges=[0.0, 1.5707963267948966, -1.5707963267948966, 3.141592653589793])


def mk(I, split=False):
    kw = {}
    for k, v in dict(P="period", a="semimajor", t0="time_transit", tp="time_peri", i="inclination", b="impact_param",
                     e="eccentricity", w="omega_peri", O="asc_node", m="mass").items():
        if k in I:
            kw[v] = I[k]
    if split:
        if "w" in I:
            kw.pop("omega_peri")
            kw.update(sin_omega_peri=jnp.sin(I["w"]), cos_omega_peri=jnp.cos(I["w"]))
        if "O" in I:
            kw.pop("asc_node")
            kw.update(sin_asc_node=jnp.sin(I["O"]), cos_asc_node=jnp.cos(I["O"]))
    return OrbitalBody(Central(mass=I["M"], radius=I["R"]), Body(**kw))


def req(I, K):
    out = incl_ok(I, K)
    if "e" in I:
        out = [K.lt(I["e"], 1.0)] + out
    return out


def ew(I, K):
    return (I["e"], K.sin(I["w"]), K.cos(I["w"])) if "e" in I else (0.0, 1.0, 0.0)


def roots(I, K):
    e, s, c = ew(I, K)
    return [1 + e * s] if "e" in I else []


def M0(I, K):
    """mean anomaly at transit: true anomaly pi/2 - omega"""
    e, s, c = ew(I, K)
    q = K.sqrt(1 - e * e)
    E0 = K.atan2(q * c, e + s)
    return E0 - e * K.sin(E0)


def lemmas(I, K):
    """the solver's contract at the transit: E0 solves Kepler's equation for M0"""
    if "e" not in I:
        return []
    e, s, c = ew(I, K)
    return [("true_anomaly", 0, (M0(I, K), e), K.pi / 2 - I["w"])]


# -- at the transit ------------------------------------------------------------------------
def transit(turns, split, **I):
    b = mk(I, split)
    t = mag(b.time_transit, ureg.day) + turns * mag(b.period, ureg.day)
    return {
        "x": vec(b.relative_position(t), LEN), "impact": mag(b.impact_param, ureg.dimensionless), "a": mag(b.semimajor, LEN),
        "sin": mag(b.sin_inclination, ureg.dimensionless), "cos": mag(b.cos_inclination, ureg.dimensionless),
        "tt": mag(b.time_transit, ureg.day), "tp": mag(b.time_peri, ureg.day), "P": mag(b.period, ureg.day),
        "inc": mag(b.inclination, ureg.radian), "om": mag(b.omega_peri, ureg.radian) if "e" in I else 1.0 * (b.omega_peri is None),
    }


def transit_ens(I, O, K):
    e, sw, cw = ew(I, K)
    x, a = O["x"], O["a"]
    d = a * (1 - e * e) / (1 + e * sw)
    cO, sO = (K.cos(I["O"]), K.sin(I["O"])) if "O" in I else (1.0, 0.0)
    sc = 1e-3
    out = [
        K.eq("on the line of conjunction", cO * x[0] + sO * x[1], 0.0, scale=a * 1e-6),
        K.eq("offset of impact_param central radii", -sO * x[0] + cO * x[1], -O["impact"] * I["R"], scale=a * 1e-4),
        K.eq("projected separation", x[0] * x[0] + x[1] * x[1], O["impact"] * O["impact"] * I["R"] * I["R"], scale=a * a * 1e-4),
        K.eq("in front by r sin i", x[2], d * O["sin"], scale=a * 1e-4),
        K.eq("sin^2 i + cos^2 i = 1", O["sin"] * O["sin"] + O["cos"] * O["cos"], 1.0),
        K.eq("impact parameter and inclination", O["impact"] * I["R"], d * O["cos"], scale=a * 1e-4),
        K.eq("periastron and transit differ by the mean anomaly", O["tt"] - O["tp"],
             (M0(I, K) if "e" in I else K.pi / 2) * O["P"] / (2 * K.pi), scale=O["P"] * 1e-3),
        K.holds("distance is positive", K.lt(0.0, d)),
    ]
    if "b" in I:
        out.append(K.eq("impact parameter kept", O["impact"], I["b"]))
        out.append(K.holds("sin i >= 0", K.le(0.0, O["sin"])))
    elif "i" in I:
        out.append(K.eq("inclination kept, cos", O["cos"], K.cos(I["i"]), scale=1e-3))
        out.append(K.eq("inclination kept, sin", O["sin"], K.sin(I["i"]), scale=1e-3))
    else:
        out.append(K.eq("edge on by default", O["cos"], 0.0))
        out.append(K.eq("edge on by default, sin", O["sin"], 1.0))
    out.append(K.eq("inclination property, sin", K.sin(O["inc"]), O["sin"], scale=1e-3))
    out.append(K.eq("inclination property, cos", K.cos(O["inc"]), O["cos"], scale=1e-3))
    if "e" in I:
        out += [K.eq("argument of periastron kept, sin", K.sin(O["om"]), K.sin(I["w"]), scale=1e-3), K.eq("argument of periastron kept, cos", K.cos(O["om"]), K.cos(I["w"]), scale=1e-3)]
    else:
        out.append(K.eq("no periastron on a circle", O["om"], 1.0))
    if "t0" in I:
        out.append(K.eq("transit time kept", O["tt"], I["t0"]))
    elif "tp" in I:
        out.append(K.eq("periastron time kept", O["tp"], I["tp"]))
    else:
        out.append(K.eq("transit at zero by default", O["tt"], 0.0))
    return out


def ins(ecc, node, incl, ref):
    d = inputs(ecc, node, True, incl, peri=ref == "tp", a=True)
    d.pop("t")
    if ref is None:
        d.pop("t0")
    if ecc:
        d["w"] = W
    return d


CASES = [(ecc, node, incl, ref, turns, split)
         for (ecc, node, incl, ref, turns, split) in itertools.product(
             (False, True), (False, True), ("incl", "impact", "none"), ("t0", "tp", None), (0, -3), (False, True))
         if (ecc or not split) and not (split and incl != "impact")]
for i, (ecc, node, incl, ref, turns, split) in enumerate(CASES):
    nm = f"{'eccentric' if ecc else 'circular'}{', node' if node else ''}, {incl}, reference {ref}, {turns} periods{', sin/cos given' if split else ''}"
    # a covering subset runs on every change, all of them in the thorough tier
    quick = (i % 3 == 0) or (ecc and incl == "impact" and not node and turns == 0)
    Contract("C06", f"transit: {nm}", ins(ecc, node, incl, ref), lambda turns=turns, split=split, **I: transit(turns, split, **I),
             transit_ens, requires=req, lemmas=lemmas, roots=roots, tier="quick" if quick else "thorough", **KW)


# -- at periastron -------------------------------------------------------------------------
def peri(turns, **I):
    b = mk(I)
    t = mag(b.time_peri, ureg.day) + turns * mag(b.period, ureg.day)
    return {"x": vec(b.relative_position(t), LEN), "a": mag(b.semimajor, LEN), "tp": mag(b.time_peri, ureg.day)}


def peri_ens(I, O, K):
    e, sw, cw = ew(I, K)
    x, r = O["x"], O["a"] * (1 - e)
    si, ci = K.sin(I["i"]), K.cos(I["i"])
    cO, sO = (K.cos(I["O"]), K.sin(I["O"])) if "O" in I else (1.0, 0.0)
    u, v = -r * cw, -r * sw * ci
    out = [
        K.eq("separation a(1-e)", x[0] * x[0] + x[1] * x[1] + x[2] * x[2], r * r),
        K.eq("direction x", x[0], cO * u - sO * v, scale=O["a"] * 1e-3),
        K.eq("direction y", x[1], sO * u + cO * v, scale=O["a"] * 1e-3),
        K.eq("direction z", x[2], r * sw * si, scale=O["a"] * 1e-3),
    ]
    if "tp" in I:
        out.append(K.eq("periastron time kept", O["tp"], I["tp"]))
    return out


for ref in ("t0", "tp"):
    for node in (False, True):
        for turns in (0, 2):
            Contract("C06", f"periastron: reference {ref}{', node' if node else ''}, {turns} periods", ins(True, node, "incl", ref),
                     lambda turns=turns, **I: peri(turns, **I), peri_ens, requires=req, **KW)


# -- periodicity ---------------------------------------------------------------------------
def rep(**I):
    b = mk(I)
    t, P = I["t"], mag(b.period, ureg.day)
    return {"x": vec(b.relative_position(t), LEN), "xP": vec(b.relative_position(t + P), LEN),
            "v": vec(b.velocity(t), VEL), "vP": vec(b.velocity(t + P), VEL), "a": mag(b.semimajor, LEN)}


for ecc in (False, True):
    for incl in ("incl", "impact", "none"):
        d = inputs(ecc, True, True, incl, a=True)
        Contract("C06", f"motion repeats: {'eccentric' if ecc else 'circular'}, {incl}", d, rep,
                 lambda I, O, K: [K.eq("position repeats", O["xP"], O["x"], scale=O["a"] * 1e-2),
                                  K.eq("velocity repeats", O["vP"], O["v"], tol=1e-6, scale=1.0)],
                 requires=req, **KW)
