"""C08 light curves combine orbit geometry and limb darkening."""
import jax.numpy as jnp
import numpy as np

import jaxoplanet.core.limb_dark as core
from jaxoplanet.light_curves.emission import light_curve as emission
from jaxoplanet.light_curves.limb_dark import light_curve as transit
from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
from jaxoplanet.starry.orbit import SurfaceSystem
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm
from jaxoplanet.units import unit_registry as ureg
from jv import terms as tm
from jv import trace as tr
from jv.contract import Callee, Contract, HostContract, In, Num

from .common import KEPLER, KEPLER_RULES, mag

_flux = core.light_curve
_cache = {}


def flux_num(b, r, order, *u):
    """numeric meaning of the callee's value: the flux of core.limb_dark.light_curve"""
    key = (float(b), float(r), int(order)) + tuple(float(x) for x in u)
    if key not in _cache:
        _cache[key] = float(_flux(jnp.asarray(key[3:], dtype=float), key[0], key[1], order=key[2]))
    return _cache[key]


Num.uf_real["ld_flux"] = np.vectorize(flux_num, otypes=[float])


class LimbDark(Callee):
    """core.limb_dark.light_curve(u, b, r, order): its value is a function of exactly these
    (C07 says which one)"""

    def __init__(self):
        super().__init__(
            "jaxoplanet.core.limb_dark:light_curve", "ld_flux", (1, 0, 0, 0), lambda *a: ((),),
            lambda u, b, r, o: [tr.oarr((), [tm.uf("ld_flux", (b[()], r[()], o[()]) + tuple(u))])],
            real_uf={"ld_flux": flux_num},
        )

    def stub(self):
        def call(u, b, r, *, order=10):
            return tr.opaque_call(self.name, jnp.asarray(u, dtype=float), b, r, float(order))[0]

        return call


LD = LimbDark()
P = lambda lo, hi: In(lo=lo, hi=hi, pos=True, log=True)  # noqa: E731
FN = ["jaxoplanet.light_curves.limb_dark.light_curve", "jaxoplanet.light_curves.utils.vectorize"]
FE = ["jaxoplanet.light_curves.emission.light_curve", "jaxoplanet.light_curves.utils.vectorize"]


def flux(K, x, y, z, Rocc, Rstar, order, u):
    """what one body does to a source of radius Rstar: x, y, z relative to it, in front only"""
    return K.where(K.lt(0.0, z), K.uf("ld_flux", K.sqrt(x * x + y * y) / Rstar, Rocc / Rstar, float(order), *u), 0.0)


def at(a, idx):
    return a[idx] if idx else a


# -- any orbit at all: the position at time t is an arbitrary function of t ---------------------
class AnyOrbit:
    """positions are affine in t with symbolic coefficients: at each time they are arbitrary"""

    def __init__(self, I, shape):
        self.shape, self.I = shape, I
        self.radius, self.central_radius = I["R"] * ureg.R_sun, I["Rs"] * ureg.R_sun

    def relative_position(self, t):
        tt = t.to(ureg.day).magnitude
        return tuple((self.I[k] + self.I["v" + k] * tt) * ureg.R_sun for k in "xyz")


def any_orbit(shape, tshape, nu, how, order):
    S = lambda lo, hi, **k: In(shape=shape, lo=lo, hi=hi, **k)  # noqa: E731
    ins = {"t": In(shape=tshape, lo=-1, hi=1, edges=[0.0]), "R": S(0.05, 0.8, pos=True), "Rs": S(0.5, 2.0, pos=True)}
    for k in "xyz":
        ins[k], ins["v" + k] = S(-1, 1, edges=[0.0]), S(-1, 1, edges=[0.0])
    if nu:
        ins["u"] = In(shape=(nu,), lo=0, hi=0.3)

    def program(**I):
        u = I.get("u")
        us = {"none": (), "vector": (u,), "scalars": tuple(u[i] for i in range(nu)) if nu else (),
              "mixed": (u[0], u[1:]) if nu else ()}[how]
        kw = {} if order is None else {"order": order}
        return {"f": transit(AnyOrbit(I, shape), *us, **kw)(I["t"])}

    def ens(I, O, K):
        o = 10 if order is None else order
        u = [I["u"][i] for i in range(nu)]
        out = []
        for ti in np.ndindex(*tshape):
            t = at(I["t"], ti)
            for bi in np.ndindex(*shape):
                x, y, z = (at(I[k], bi) + at(I["v" + k], bi) * t for k in "xyz")
                out.append(K.eq(f"flux at time {list(ti)} for body {list(bi)}", at(O["f"], ti + bi),
                                flux(K, x, y, z, at(I["R"], bi), at(I["Rs"], bi), o, u)))
        return out

    Contract("C08", f"any orbit: bodies {shape}, times {tshape}, {nu} coefficients as {how}, order {order}", ins, program, ens,
             opaque=[LD], functions=FN, n_samples=12, definedness=False)


for shape, tshape, nu, how, order in [((), (), 0, "none", None), ((), (), 2, "vector", 7), ((), (), 3, "mixed", None), ((2,), (), 2, "scalars", None),
                                      ((3,), (2,), 2, "vector", 20), ((), (2, 2), 1, "scalars", None), ((1,), (3,), 4, "mixed", None),
                                      ((2,), (2, 1), 0, "none", 5)]:
    any_orbit(shape, tshape, nu, how, order)


# -- the orbits of this package --------------------------------------------------------------
def position(q):
    return [mag(x, ureg.R_sun) for x in q]


def kep(kind):
    two = kind != "one body"
    ins = {"t": In(lo=-3, hi=3), "M": P(0.3, 3), "Rs": P(0.5, 2), "u": In(shape=(2,), lo=0, hi=0.3)}
    for i in (1, 2) if two else (1,):
        ins.update({f"P{i}": P(1, 20), f"R{i}": P(0.05, 0.5), f"i{i}": In(lo=1.5, hi=1.6)})

    def program(**I):
        cen = Central(mass=I["M"], radius=I["Rs"])
        bodies = [dict(period=I[f"P{i}"], radius=I[f"R{i}"], inclination=I[f"i{i}"]) for i in ((1, 2) if two else (1,))]
        if kind == "different structure":
            bodies[1].update(mass=0.01, asc_node=0.3)
        bs = [OrbitalBody(cen, Body(**b)) for b in bodies]
        orb = bs[0] if not two else System(cen, bodies=[Body(**b) for b in bodies])
        O = {"f": jnp.atleast_1d(transit(orb, I["u"])(I["t"]))}
        O["X"] = jnp.stack([jnp.stack([jnp.asarray(x) for x in position(b.relative_position(I["t"]))]) for b in bs])
        return O

    def ens(I, O, K):
        u = [I["u"][0], I["u"][1]]
        return [K.eq(f"flux for body {i}", O["f"][i], flux(K, *[O["X"][i, j] for j in range(3)], I[f"R{i + 1}"], I["Rs"], 10, u))
                for i in range(2 if two else 1)]

    Contract("C08", f"Keplerian orbit, {kind}", ins, program, ens, opaque=[LD, KEPLER], uf_rules=KEPLER_RULES, functions=FN, n_samples=10,
             definedness=False)


for kind in ("one body", "shared structure", "different structure"):
    kep(kind)


def transit_orbit(shape):
    S = lambda lo, hi: In(shape=shape, lo=lo, hi=hi, pos=True)  # noqa: E731
    ins = {"t": In(lo=-3, hi=3), "P": S(1, 5), "D": S(0.1, 0.9), "t0": S(0, 1), "b": S(0.0, 0.8), "k": S(0.05, 0.2), "u": In(shape=(2,), lo=0, hi=0.3)}

    def program(t, P, D, t0, b, k, u):
        o = TransitOrbit(period=P, duration=D, time_transit=t0, impact_param=b, radius_ratio=k)
        return {"f": transit(o, u)(t), "X": jnp.stack([mag(x, ureg.dimensionless) for x in o.relative_position(t)])}

    def ens(I, O, K):
        return [K.eq(f"flux for planet {list(i)}", at(O["f"], i), flux(K, *[O["X"][(j,) + i] for j in range(3)], at(I["k"], i), 1.0, 10, [I["u"][0], I["u"][1]]))
                for i in np.ndindex(*shape)]

    Contract("C08", f"transit orbit, planets {shape}", ins, program, ens, opaque=[LD], functions=FN, n_samples=10, definedness=False)


transit_orbit(())
transit_orbit((2,))


# -- emission ----------------------------------------------------------------------------------
def emit(n, tshape, order, same=True):
    ins = {"t": In(shape=tshape, lo=-3, hi=3), "M": P(0.3, 3), "Rs": P(0.5, 2), "us": In(shape=(2,), lo=0, hi=0.3)}
    for i in range(n):
        ins.update({f"P{i}": P(1, 20), f"R{i}": P(0.05, 0.5), f"i{i}": In(lo=1.5, hi=1.6), f"a{i}": In(lo=0.0, hi=2.0), f"ub{i}": In(shape=(1 + i,), lo=0, hi=0.3)})

    def program(**I):
        cen = Central(mass=I["M"], radius=I["Rs"])
        kws = [dict(period=I[f"P{i}"], radius=I[f"R{i}"], inclination=I[f"i{i}"]) for i in range(n)]
        if not same:
            kws[-1].update(mass=0.01)
        surf = [Surface(amplitude=I[f"a{i}"], normalize=False, u=tuple(I[f"ub{i}"][j] for j in range(1 + i))) for i in range(n)]
        s = SurfaceSystem(cen, Surface(u=(I["us"][0], I["us"][1])), bodies=[(Body(**k), x) for k, x in zip(kws, surf)])
        bs = [OrbitalBody(cen, Body(**k)) for k in kws]
        kw = {} if order is None else {"order": order}
        O = {"f": emission(s, **kw)(I["t"])}
        pos = lambda b, t: jnp.stack([jnp.asarray(x) for x in position(b.relative_position(t))])  # noqa: E731
        O["X"] = jnp.stack([jnp.stack([pos(b, I["t"][ti] if ti else I["t"]) for b in bs]) for ti in np.ndindex(*tshape)])
        return O

    def ens(I, O, K):
        o = 10 if order is None else order
        out = []
        for k, ti in enumerate(np.ndindex(*tshape)):
            f = at(O["f"], ti)
            X = [[O["X"][k, i, j] for j in range(3)] for i in range(n)]
            out.append(K.eq(f"central {list(ti)}", f[0], 1.0 + sum(flux(K, *X[i], I[f"R{i}"], I["Rs"], o, [I["us"][0], I["us"][1]]) for i in range(n))))
            for i in range(n):
                x, y, z = X[i]
                out.append(K.eq(f"body {i} {list(ti)}", f[1 + i], I[f"a{i}"] * (1.0 + flux(K, -x, -y, -z, I["Rs"], I[f"R{i}"], o, [I[f"ub{i}"][j] for j in range(1 + i)]))))
        return out

    Contract("C08", f"emission: {n} bodies{'' if same else ', different structure'}, times {tshape}, order {order}", ins, program, ens,
             opaque=[LD, KEPLER], uf_rules=KEPLER_RULES, functions=FE, n_samples=8, definedness=False)


emit(1, (), None)
emit(2, (2,), 7)
emit(2, (), None, same=False)
emit(3, (), 12)


# -- many bodies, many coefficients --------------------------------------------------------------------
def many(ctx):
    rng = np.random.default_rng(8)
    dip = lambda x, y, z, r, u, order: float(_flux(jnp.asarray(u), float(np.hypot(x, y)), float(r), order=order)) if z > 0 else 0.0  # noqa: E731
    for n, nu, tshape, order in ((6, 3, (3,), 10), (9, 7, (2, 2), 25), (15, 1, (), 11), (4, 12, (5,), 30)):
        P = rng.uniform(2, 9, n)
        rad, mass = rng.uniform(0.02, 0.5, n), rng.uniform(0, 0.1, n)
        ub = rng.uniform(0, 0.3, (n, 2))
        u = rng.uniform(-0.1, 0.2, nu)
        amp = rng.uniform(0, 2, n)
        b = rng.uniform(-1, 1, n)
        cen = Central(mass=1.1, radius=1.3)
        # half of the bodies near conjunction in front of the star, half near conjunction behind it
        t = rng.uniform(-0.05, 0.05, tshape)
        bodies = [Body(period=P[i], radius=rad[i], mass=mass[i], impact_param=b[i], time_transit=0.0 if i % 2 else P[i] / 2) for i in range(n)]
        s = System(cen, bodies=bodies)
        ss = SurfaceSystem(cen, Surface(u=tuple(u)), bodies=[(k, Surface(amplitude=amp[i], normalize=False, u=tuple(ub[i]))) for i, k in enumerate(bodies)])
        f, e = np.asarray(transit(s, *u, order=order)(t)), np.asarray(emission(ss, order=order)(t))
        wf, we = np.zeros(tshape + (n,)), np.ones(tshape + (n + 1,))
        for ti in np.ndindex(*tshape):
            for i, k in enumerate(s.bodies):
                x, y, z = (float(q.to(ureg.R_sun).magnitude) for q in k.relative_position(float(t[ti]) * ureg.day))
                wf[ti + (i,)] = dip(x / 1.3, y / 1.3, z, rad[i] / 1.3, u, order)
                we[ti + (0,)] += wf[ti + (i,)]
                we[ti + (1 + i,)] = amp[i] * (1.0 + dip(-x / rad[i], -y / rad[i], -z, 1.3 / rad[i], ub[i], order))
        case = {"bodies": n, "coefficients": nu, "times": list(tshape), "order": order}
        ctx.ok(f"light curve of {n} bodies, {nu} coefficients, order {order}", f.shape == wf.shape and np.allclose(f, wf, rtol=0, atol=1e-9), case, f.tolist(), wf.tolist())
        ctx.ok(f"emission of {n} bodies, {nu} coefficients, order {order}", e.shape == we.shape and np.allclose(e, we, rtol=0, atol=1e-9), case, e.tolist(), we.tolist())


HostContract("C08", "many bodies", many, functions=FN + FE[:1], bounded="systems of 4 to 15 bodies, up to 12 coefficients, orders to 30")
