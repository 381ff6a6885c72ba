"""C05 positions, velocities and accelerations of one two-body motion."""
import itertools

import jax
import jax.numpy as jnp

from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
from jaxoplanet.units import unit_registry as ureg
from jv.contract import Contract, In

from .common import G_RSUN, KEPLER, KEPLER_RULES, R_SUN_AU, mag

POS = lambda lo, hi: In(lo=lo, hi=hi, pos=True, log=True, edges=[1.0])  # noqa: E731
ANG = lambda lo=-3.1, hi=3.1: In(lo=lo, hi=hi, edges=[0.0, 0.5, -1.5])  # noqa: E731
F = "jaxoplanet.orbits.keplerian.OrbitalBody."
FNS = [F + k for k in ("__init__", "position", "central_position", "relative_position", "velocity", "central_velocity",
                       "relative_velocity", "radial_velocity", "_get_true_anomaly", "_rotate_vector", "_get_position_and_velocity")]
VEL, LEN = ureg.R_sun / ureg.day, ureg.R_sun


def inputs(ecc=False, asc=False, mass=True, incl="incl", peri=False, a=False):
    ins = {"t": In(lo=-30, hi=30, edges=[0.0]), "M": POS(0.1, 10), "R": POS(0.1, 3)}
    if a:
        ins["a"] = In(lo=5.0, hi=300.0, log=True, pos=True)
    else:
        ins["P"] = POS(0.5, 300)
    ins["tp" if peri else "t0"] = In(lo=-3, hi=3, edges=[0.0])
    if incl == "incl":
        ins["i"] = In(lo=0.0, hi=3.14, edges=[1.5707, 0.3])
    elif incl == "impact":
        ins["b"] = In(lo=0.0, hi=0.9, nonneg=True, edges=[0.0])
    if ecc:
        ins["e"] = In(lo=0.0, hi=0.9, nonneg=True, edges=[0.0, 0.5])
        ins["w"] = ANG()
    if asc:
        ins["O"] = ANG()
    if mass:
        ins["m"] = POS(1e-4, 2)
    return ins


def mk(I, **extra):
    kw = {}
    for k, v in dict(P="period", a="semimajor", t0="time_transit", tp="time_peri", i="inclination", b="impact_param", e="eccentricity",
                     w="omega_peri", O="asc_node", m="mass", plx="parallax", K="radial_velocity_semiamplitude").items():
        if k in I:
            kw[v] = I[k]
    kw.update(extra)
    return OrbitalBody(Central(mass=I["M"], radius=I["R"]), Body(**kw))


def vec(q, unit):
    return jnp.stack([jnp.asarray(mag(x, unit)) for x in q])


def deriv(f, t):
    return jax.jvp(f, (t,), (1.0,))[1]


def req(*extra):
    def f(I, K):
        out = []
        if "e" in I:
            out.append(K.lt(I["e"], 1.0))
        return out + [x for g in extra for x in g(I, K)]

    return f


def incl_ok(I, K):
    """the impact parameter corresponds to a real inclination: |cos i| < 1"""
    if "b" not in I:
        return []
    e, sw = (I["e"], K.sin(I["w"])) if "e" in I else (0.0, 0.0)
    cosi = I["b"] * I["R"] * (1 + e * sw) / ((1 - e * e) * I["a"])
    return [K.lt(cosi * cosi, 1.0)]


# -- kinematics: velocities are derivatives, barycentre, relative = body - central ------------
def kin(**I):
    b = mk(I)
    t = I["t"]
    O = {
        "x": vec(b.position(t), LEN), "xc": vec(b.central_position(t), LEN), "xr": vec(b.relative_position(t), LEN),
        "v": vec(b.velocity(t), VEL), "vc": vec(b.central_velocity(t), VEL), "vr": vec(b.relative_velocity(t), VEL),
        "rv": mag(b.radial_velocity(t), VEL),
        "dx": deriv(lambda t: vec(b.position(t), LEN), t),
        "dxc": deriv(lambda t: vec(b.central_position(t), LEN), t),
        "dxr": deriv(lambda t: vec(b.relative_position(t), LEN), t),
    }
    return O


def kin_ens(I, O, K):
    m, M = I["m"], I["M"]
    z = 0.0 * O["x"]
    return [
        K.eq("velocity = d position/dt", O["v"], O["dx"]),
        K.eq("central velocity = d central position/dt", O["vc"], O["dxc"]),
        K.eq("relative velocity = d relative position/dt", O["vr"], O["dxr"]),
        K.eq("relative = body - central", O["xr"], O["x"] - O["xc"]),
        K.eq("relative velocity = body - central", O["vr"], O["v"] - O["vc"]),
        K.eq("fixed barycentre", m * O["x"], -M * O["xc"], scale=1e-3),
        K.eq("barycentre velocity", m * O["v"], -M * O["vc"], scale=1e-3),
        K.eq("radial velocity = -v_z of the central", O["rv"], -O["vc"][2]),
    ]


# -- shape and dynamics ------------------------------------------------------------------------
def dyn(**I):
    b = mk(I)
    t = I["t"]
    O = {
        "xr": vec(b.relative_position(t), LEN),
        "ar": deriv(lambda t: vec(b.relative_velocity(t), VEL), t),
        "a": mag(b.semimajor, ureg.R_sun),
    }
    return O


def dyn_ens(I, O, K):
    x = O["xr"]
    r = K.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
    mu = G_RSUN * (I["M"] + I.get("m", 0.0))
    return [K.eq("acceleration = -G(M+m) r/|r|^3", O["ar"] * r**3, -mu * x, tol=1e-6, scale=1e-3)]


KW = dict(opaque=[KEPLER], uf_rules=KEPLER_RULES, functions=FNS, n_samples=15, cut=True)
for ecc, asc, incl in itertools.product((False, True), (False, True), ("incl", "impact", "none")):
    nm = f"{'eccentric' if ecc else 'circular'}, {incl}{', node' if asc else ''}"
    Contract("C05", f"kinematics: {nm}", inputs(ecc, asc, True, incl, a=incl == "impact"), kin, kin_ens, requires=req(incl_ok), **KW)
    Contract("C05", f"dynamics: {nm}", inputs(ecc, asc, True, incl, a=True), dyn, dyn_ens, requires=req(incl_ok), atol=1e-7, **KW)
Contract("C05", "dynamics: eccentric, massless body, time of periastron", inputs(True, True, False, "incl", peri=True, a=True),
         dyn, dyn_ens, requires=req(), atol=1e-7, **KW)


# -- parallax: angles instead of lengths, everywhere the same conversion -------------------------
AV = ureg.arcsec / ureg.day


def plx(stored, **I):
    p = I.pop("plx")
    t = I["t"]
    plain = mk(I)
    if stored:
        b = mk(I, parallax=p)
        pos = {k: getattr(b, k)(t) for k in ("position", "central_position", "relative_position")}
        rho, th = b.relative_angles(t)
        vel = {k: vec(getattr(b, k)(t), AV) for k in ("velocity", "central_velocity", "relative_velocity")}
    else:
        pos = {k: getattr(plain, k)(t, parallax=p) for k in ("position", "central_position", "relative_position")}
        rho, th = plain.relative_angles(t, parallax=p * ureg.arcsec)
        vel = {}
    O = {k: vec(v, ureg.arcsec) for k, v in pos.items()}
    O.update(vel)
    O.update({"0" + k: vec(getattr(plain, k)(t), LEN) for k in pos})
    O.update({"0" + k: vec(getattr(plain, k)(t), VEL) for k in vel})
    O["rho"], O["theta"] = mag(rho, ureg.arcsec), mag(th, ureg.radian)
    return O


def plx_ens(I, O, K):
    out = [K.eq(f"{k} in angle = parallax * {k} in au", O[k], R_SUN_AU * I["plx"] * O["0" + k])
           for k in O if "0" + k in O]
    X = O["relative_position"]
    out.append(K.eq("separation", O["rho"] * O["rho"], X[0] * X[0] + X[1] * X[1]))
    out.append(K.holds("separation is non-negative", K.le(0.0, O["rho"])))
    out.append(K.eq("position angle, sin", O["rho"] * K.sin(O["theta"]), X[1], scale=1e-3))
    out.append(K.eq("position angle, cos", O["rho"] * K.cos(O["theta"]), X[0], scale=1e-3))
    return out


for stored in (False, True):
    for ecc in (False, True):
        Contract("C05", f"parallax {'stored' if stored else 'passed'}, {'eccentric' if ecc else 'circular'}",
                 {**inputs(ecc, True, True, "incl"), "plx": POS(0.1, 100.0)}, lambda stored=stored, **I: plx(stored, **I), plx_ens,
                 requires=req(), functions=FNS + [F + "relative_angles"], **{k: v for k, v in KW.items() if k != "functions"})


# -- radial velocity semi-amplitude ---------------------------------------------------------------
def amp(how, **I):
    Kv = I.pop("K")
    t = I["t"]
    b0 = mk(I)
    b = mk(I, radial_velocity_semiamplitude=Kv) if how == "stored" else b0
    kw = {} if how == "stored" else {"semiamplitude": Kv * VEL if how == "quantity" else Kv}
    u = ureg.dimensionless if how == "number" else VEL
    x = {k: jnp.stack([jnp.asarray(mag(q, u)) for q in getattr(b, k)(t, **kw)]) for k in ("velocity", "central_velocity", "relative_velocity")}
    x["rv"] = mag(b.radial_velocity(t, **kw), u)
    x["rv0"] = mag(b0.radial_velocity(t), VEL)
    x["n"] = 2 * jnp.pi * mag(b0.semimajor, ureg.R_sun) / mag(b0.period, ureg.day)
    return x


def amp_ens(I, O, K):
    m, M = I["m"], I["M"]
    e = I["e"] if "e" in I else 0.0
    Kphys = O["n"] * m * K.sin(I["i"]) / (M + m) / K.sqrt(1 - e * e)
    return [
        K.eq("K replaces the physical amplitude", O["rv"] * Kphys, I["K"] * O["rv0"], scale=1e-3),
        K.eq("radial velocity = -v_z of the central", O["rv"], -O["central_velocity"][2]),
        K.eq("body velocity = -(M/m) central velocity", m * O["velocity"], -M * O["central_velocity"], scale=1e-3),
        K.eq("relative = body - central", O["relative_velocity"], O["velocity"] - O["central_velocity"], scale=1e-3),
    ]


for how in ("stored", "quantity", "number"):
    for ecc in (False, True):
        Contract("C05", f"semi-amplitude {how}, {'eccentric' if ecc else 'circular'}",
                 {**inputs(ecc, False, True, "incl"), "K": POS(0.1, 100.0)}, lambda how=how, **I: amp(how, **I), amp_ens,
                 requires=req(), **KW)


# -- the system applies the same functions to every body --------------------------------------------
def system(same, t, M, R, P1, P2, m1, m2, i1, i2):
    cen = Central(mass=M, radius=R)
    kw = [dict(period=P1, mass=m1, inclination=i1), dict(period=P2, mass=m2, inclination=i2)]
    if not same:
        kw[1].update(asc_node=0.3)
    s = System(cen, bodies=[Body(**k) for k in kw])
    bs = [OrbitalBody(cen, Body(**k)) for k in kw]
    O = {}
    for k, u in dict(position=LEN, central_position=LEN, relative_position=LEN, velocity=VEL, central_velocity=VEL,
                     relative_velocity=VEL).items():
        O[k] = vec(getattr(s, k)(t), u)
        O["0" + k] = jnp.stack([vec(getattr(b, k)(t), u) for b in bs], axis=1)
    O["radial_velocity"] = mag(s.radial_velocity(t), VEL)
    O["0radial_velocity"] = jnp.stack([jnp.asarray(mag(b.radial_velocity(t), VEL)) for b in bs])
    return O


for same in (True, False):
    Contract("C05", f"system of two bodies, {'shared' if same else 'different'} structure",
             {"t": In(lo=-30, hi=30), "M": POS(0.1, 10), "R": POS(0.1, 3), "P1": POS(0.5, 300), "P2": POS(0.5, 300), "m1": POS(0.01, 2),
              "m2": POS(0.01, 2), "i1": In(lo=0, hi=3), "i2": In(lo=0, hi=3)},
             lambda same=same, **I: system(same, **I),
             lambda I, O, K: [K.eq(k, O[k], O["0" + k]) for k in O if k[0] != "0"], **KW)
