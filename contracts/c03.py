"""C03 masses, radii, densities, periods and semi-major axes."""
import math

from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
from jaxoplanet.units import unit_registry as ureg
from jv.contract import Contract, In

from .common import G_RSUN, mag

POS = lambda lo=0.05, hi=20.0: In(lo=lo, hi=hi, pos=True, log=True, edges=[1.0])  # noqa: E731
FN = ["jaxoplanet.orbits.keplerian.Central.__init__"]


def cen(c):
    return {"M": mag(c.mass, ureg.M_sun), "R": mag(c.radius, ureg.R_sun),
            "D": mag(c.density, ureg.M_sun / ureg.R_sun**3)}


def sphere(I, O, K, **stored):
    out = [K.eq("mass = 4/3 pi R^3 density", O["M"], 4 * K.pi / 3 * O["R"] ** 3 * O["D"])]
    for k, v in stored.items():
        out.append(K.eq(f"{k} stored unchanged", O[k], v))
    return out


PAIRS = {
    "mass, radius": (("mass", "radius"), lambda I: dict(M=I["a"], R=I["b"])),
    "mass, density": (("mass", "density"), lambda I: dict(M=I["a"], D=I["b"])),
    "radius, density": (("radius", "density"), lambda I: dict(R=I["a"], D=I["b"])),
}
for nm, (keys, st) in PAIRS.items():
    Contract(
        "C03", f"Central from {nm}", {"a": POS(), "b": POS()},
        lambda a, b, keys=keys: cen(Central(**dict(zip(keys, (a, b))))),
        lambda I, O, K, st=st: sphere(I, O, K, **st(I)), functions=FN, n_samples=20,
    )

Contract(
    "C03", "Central from density alone has one solar radius", {"a": POS()},
    lambda a: cen(Central(density=a)), lambda I, O, K: sphere(I, O, K, R=1.0, D=I["a"]), functions=FN, n_samples=20,
)
Contract(
    "C03", "Central defaults to the Sun", {"a": POS()},
    lambda a: {k: v + 0.0 * a for k, v in cen(Central()).items()},
    lambda I, O, K: sphere(I, O, K, R=1.0, M=1.0), functions=FN, n_samples=5,
)


# -- Kepler's third law -------------------------------------------------------------------
def orb(b):
    return {"P": mag(b.period, ureg.day), "a": mag(b.semimajor, ureg.R_sun)}


def third(M, m):
    def f(I, O, K):
        tot = M(I) + m(I)
        return [K.eq("G (M+m) P^2 = 4 pi^2 a^3", G_RSUN * tot * O["P"] ** 2, 4 * K.pi**2 * O["a"] ** 3),
                K.eq("total mass", O["tot"], tot)] + [K.eq(f"{k} stored unchanged", O[k], I[k]) for k in ("P", "a") if k in I]

    return f


CENTRALS = {
    "mass and radius": (dict(M=POS(), R=POS()), lambda I: Central(mass=I["M"], radius=I["R"]), lambda I: I["M"]),
    "radius and density": (dict(D=POS(), R=POS()), lambda I: Central(density=I["D"], radius=I["R"]),
                           lambda I: 4 * math.pi / 3 * I["R"] ** 3 * I["D"]),
    "default": ({}, lambda I: Central(), lambda I: 1.0),
}
ECC = {"circular": {}, "eccentric": dict(e=In(lo=0, hi=0.9, nonneg=True), w=In(lo=-3, hi=3))}
for cn, (cin, mk, M) in CENTRALS.items():
    for key, unit in (("P", "period"), ("a", "semimajor")):
        for with_m in (False, True):
            for en, ein in ECC.items():
                if en == "eccentric" and cn != "mass and radius":
                    continue
                ins = {**cin, key: POS(0.2, 500.0), **ein}
                if with_m:
                    ins["m"] = In(lo=1e-6, hi=2.0, nonneg=True, log=True, edges=[0.0])

                def prog(mk=mk, unit=unit, key=key, with_m=with_m, **I):
                    kw = {unit: I[key]}
                    if with_m:
                        kw["mass"] = I["m"]
                    if "e" in I:
                        kw.update(eccentricity=I["e"], omega_peri=I["w"])
                    b = OrbitalBody(mk(I), Body(**kw))
                    return {**orb(b), "tot": mag(b.total_mass, ureg.M_sun)}

                Contract(
                    "C03", f"third law: central {cn}, {unit}{', mass' if with_m else ''}, {en}", ins, prog,
                    third(M, (lambda I: I["m"]) if with_m else (lambda I: 0.0)), n_samples=10,
                    requires=(lambda I, K: [K.lt(I["e"], 1.0)]) if ein else None,
                    functions=["jaxoplanet.orbits.keplerian.OrbitalBody.__init__"],
                )


# -- inverting the law --------------------------------------------------------------------
def inv(P, a, R=None, m=None):
    kw = {}
    if R is not None:
        kw["radius"] = R
    if m is not None:
        kw["body_mass"] = m
    c = Central.from_orbital_properties(period=P, semimajor=a, **kw)
    bkw = {} if m is None else {"mass": m}
    by_p, by_a = OrbitalBody(c, Body(period=P, **bkw)), OrbitalBody(c, Body(semimajor=a, **bkw))
    return {**cen(c), "P2": mag(by_a.period, ureg.day), "a2": mag(by_p.semimajor, ureg.R_sun)}


def inv_ens(I, O, K):
    m = I.get("m", 0.0)
    return [
        K.eq("G (M+m) P^2 = 4 pi^2 a^3", G_RSUN * (O["M"] + m) * I["P"] ** 2, 4 * K.pi**2 * I["a"] ** 3),
        K.eq("radius", O["R"], I.get("R", 1.0)),
        K.eq("density", O["M"], 4 * K.pi / 3 * O["R"] ** 3 * O["D"]),
        K.eq("same semimajor from the period", O["a2"], I["a"]),
        K.eq("same period from the semimajor", O["P2"], I["P"]),
    ]


for withR in (False, True):
    for withm in (False, True):
        ins = {"P": POS(1.0, 100.0), "a": POS(10.0, 200.0)}
        if withR:
            ins["R"] = POS()
        if withm:
            ins["m"] = In(lo=0.0, hi=0.002, nonneg=True, edges=[0.0])
        Contract(
            "C03", f"from_orbital_properties inverts the law{', radius' if withR else ''}{', body mass' if withm else ''}",
            ins, inv, inv_ens, n_samples=20,
            requires=(lambda I, K: [K.lt(G_RSUN * I["m"] * I["P"] ** 2, 4 * K.pi**2 * I["a"] ** 3)]) if withm else None,
            functions=["jaxoplanet.orbits.keplerian.Central.from_orbital_properties"],
        )
