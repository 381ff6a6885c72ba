"""C11 TransitOrbit."""
import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.units import unit_registry as ureg
from jv.contract import Contract, HostContract, In

from .common import mag

F = "jaxoplanet.orbits.transit.TransitOrbit."
FN = [F + k for k in ("__init__", "relative_position", "radius", "central_radius", "shape")]
ND = ureg.dimensionless


def inputs(shape, given, time=True, defaults=False):
    S = lambda lo, hi, **k: In(shape=shape, lo=lo, hi=hi, **k)  # noqa: E731
    ins = {"P": S(0.5, 6, pos=True, edges=[1.0])}
    ins["D" if given == "duration" else "v"] = S(0.05, 0.6, pos=True) if given == "duration" else S(2.0, 40.0, pos=True)
    if not defaults:
        ins.update(t0=S(-3, 3, edges=[0.0]), b=S(0.0, 1.4, nonneg=True, edges=[0.0, 1.0, 1.1]), k=S(0.0, 0.3, nonneg=True, edges=[0.0, 0.1]))
    if time:
        ins["t"] = In(lo=-12, hi=12, edges=[0.0])
    return ins


def orbit(I):
    kw = dict(period=I["P"])
    for k, n in dict(D="duration", v="speed", t0="time_transit", b="impact_param", k="radius_ratio").items():
        if k in I:
            kw[n] = I[k]
    return TransitOrbit(**kw)


def el(a, i):
    return a[i] if i else a


def get(I, k, i):
    return el(I[k], i) if k in I else 0.0


def chord(I, i, K):
    x2 = (1.0 + get(I, "k", i)) ** 2 - get(I, "b", i) ** 2
    return K.where(K.lt(0.0, x2), 2 * K.sqrt(K.where(K.lt(0.0, x2), x2, 1.0)), 0.0)


def phase(t, P, t0, K):
    """time since the nearest transit, in [-P/2, P/2)"""
    return t - t0 - P * K.floor((t - t0 + 0.5 * P) / P)


# -- completion, stored fields and motion --------------------------------------------------------
def motion(shape, given, defaults=False):
    def program(**I):
        t = I.pop("t")
        o = orbit(I)
        U = dict(period=ureg.day, duration=ureg.day, speed=1 / ureg.day, time_transit=ureg.day, impact_param=ND, radius_ratio=ND, radius=ND, central_radius=ND)
        O = {k: jnp.broadcast_to(mag(getattr(o, k), u), shape) for k, u in U.items()}
        O["x"], O["y"], O["z"] = (mag(q, ND) for q in o.relative_position(t))
        O["dx"] = jax.jvp(lambda t: mag(o.relative_position(t)[0], ND), (t,), (1.0,))[1]
        assert o.shape == shape
        return O

    def ens(I, O, K):
        out = []
        for i in np.ndindex(*shape):
            nm = f" {list(i)}" if i else ""
            G = {k: get(I, k, i) for k in ("P", "t0", "b", "k")}
            D, v = el(O["duration"], i), el(O["speed"], i)
            out += [K.eq("period" + nm, el(O["period"], i), G["P"]), K.eq("epoch" + nm, el(O["time_transit"], i), G["t0"]),
                    K.eq("impact parameter" + nm, el(O["impact_param"], i), G["b"]), K.eq("radius ratio" + nm, el(O["radius_ratio"], i), G["k"]),
                    K.eq("radius" + nm, el(O["radius"], i), G["k"]), K.eq("central radius" + nm, el(O["central_radius"], i), 1.0)]
            if given == "duration":
                out += [K.eq("duration kept" + nm, D, el(I["D"], i)), K.eq("speed crosses the chord in the duration" + nm, v * el(I["D"], i), chord(I, i, K))]
            else:
                out += [K.eq("speed kept" + nm, v, el(I["v"], i)), K.eq("duration is chord / speed" + nm, D * el(I["v"], i), chord(I, i, K))]
            dt = phase(I["t"], G["P"], G["t0"], K)
            vv = v if given == "speed" else chord(I, i, K) / el(I["D"], i)
            DD = D if given == "duration" else chord(I, i, K) / el(I["v"], i)
            out += [K.eq("x is uniform motion through the nearest transit" + nm, el(O["x"], i), vv * dt), K.eq("constant y" + nm, el(O["y"], i), G["b"]),
                    K.eq("in front exactly within half a duration" + nm, el(O["z"], i), K.where(K.lt(K.abs(dt), 0.5 * DD), 1.0, -1.0)),
                    K.eq("velocity" + nm, el(O["dx"], i), vv)]
        return out

    def requires(I, K):
        # away from the instants where the copy of the transit changes or the orbit has a jump
        out = []
        for i in np.ndindex(*shape):
            x2 = (1.0 + get(I, "k", i)) ** 2 - get(I, "b", i) ** 2
            out.append(K.not_(K.equal(x2, 0.0)))
        return out

    Contract("C11", f"completion and motion: {given}, planets {shape}{', defaults' if defaults else ''}", inputs(shape, given, defaults=defaults), program, ens,
             requires=None if defaults else requires, functions=FN, n_samples=40)


for given in ("duration", "speed"):
    for shape in ((), (1,), (2,)):
        motion(shape, given)
    motion((), given, defaults=True)


# -- the limb is touched exactly half a duration from every transit --------------------------------
def contact(given):
    ins = inputs((), given, time=False)
    ins["n"] = In(lo=-6, hi=6)
    ins["s"] = In(lo=-1, hi=1, edges=[1.0, -1.0])

    def program(n, s, **I):
        o = orbit(I)
        D = mag(o.duration, ureg.day)
        c = mag(o.time_transit, ureg.day) + jnp.floor(n) * mag(o.period, ureg.day)
        X = lambda t: jnp.stack([jnp.asarray(mag(q, ND)) for q in o.relative_position(t)])  # noqa: E731
        return {"mid": X(c), "in": X(c - 0.5 * D)[:2], "out": X(c + 0.5 * D)[:2], "any": X(c + 0.5 * s * D)[:2], "shift": X(c + I["P"] + 0.5 * s * D)[:2], "D": D}

    def ens(I, O, K):
        L2 = (1.0 + I["k"]) ** 2
        r2 = lambda X: X[0] * X[0] + X[1] * X[1]  # noqa: E731
        return [K.eq("mid-transit: x", O["mid"][0], 0.0), K.eq("mid-transit: y", O["mid"][1], I["b"]), K.eq("in front at mid-transit", O["mid"][2], 1.0),
                K.eq("first contact", r2(O["in"]), L2), K.eq("last contact", r2(O["out"]), L2),
                K.holds("ingress first", K.lt(O["in"][0], 0.0)), K.holds("egress last", K.lt(0.0, O["out"][0])),
                K.holds("overlapping during the transit", K.or_(K.le(1.0, K.abs(I["s"])), K.lt(r2(O["any"]), L2 + (0.0 if K.symbolic else 1e-9)))),
                K.eq("same one period later: x", O["shift"][0], O["any"][0], scale=1.0), K.eq("same one period later: y", O["shift"][1], O["any"][1])]

    def requires(I, K):
        x2 = (1.0 + I["k"]) ** 2 - I["b"] ** 2
        D = I["D"] if given == "duration" else 2 * K.sqrt(x2) / I["v"]
        return [K.lt(1e-3, x2), K.lt(D, I["P"]), K.le(-1.0, I["s"]), K.le(I["s"], 1.0)]

    Contract("C11", f"contacts at half a duration: {given}", ins, program, ens, requires=requires, functions=FN, n_samples=60)


for given in ("duration", "speed"):
    contact(given)


def grazing_miss(given):
    """b > 1 + k: no transit: zero duration / no motion"""
    Contract("C11", f"no overlap at any time: {given}", {**inputs((), given)}, lambda **I: {"D": mag(orbit(I).duration, ureg.day), "z": mag(orbit({k: v for k, v in I.items() if k != 't'}).relative_position(I["t"])[2], ND)},
             lambda I, O, K: [K.eq("z", O["z"], -1.0), K.eq("duration", O["D"], 0.0)] if given == "speed" else [K.eq("duration kept", O["D"], I["D"])],
             requires=lambda I, K: [K.lt(1.0 + I["k"], I["b"])], functions=FN, n_samples=20)


grazing_miss("speed")


def rejects(ctx):
    for kw in (dict(period=1.0), dict(period=1.0, impact_param=0.1, radius_ratio=0.1)):
        try:
            TransitOrbit(**kw)
            ok = False
        except ValueError:
            ok = True
        ctx.ok("neither duration nor speed", ok, {"given": sorted(kw)}, "accepted", "ValueError")


HostContract("C11", "duration or speed is required", rejects, functions=FN[:1])
