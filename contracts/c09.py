"""C09 exposure-time integration."""
import jax.numpy as jnp
import jpu.numpy as jnpu
import numpy as np

from jaxoplanet.light_curves.transforms import integrate
from jaxoplanet.units import unit_registry as ureg
from jv.contract import Contract, GhostFn, HostContract, In

FN = ["jaxoplanet.light_curves.transforms.integrate", "jaxoplanet.light_curves.transforms.apply_exposure_time_integration",
      "jaxoplanet.light_curves.utils.vectorize"]
f1 = GhostFn("lc1", 1, lambda t: jnp.sin(1.3 * t) + 0.2 * jnp.exp(-(t**2)))
f3 = GhostFn("lc3", 3, lambda t, a, b: jnp.sin(1.3 * t + a) + b * jnp.exp(-(t**2)))


def rule(order, n):
    """nodes (in exposures, from the middle) and weights of the documented rule with at least
    n samples (an odd number; at least one interval for trapezoid and Simpson)"""
    n += 1 - n % 2
    if order:
        n = max(n, 3)
    if order == 0:
        return [((k + 0.5) / n - 0.5, 1.0 / n) for k in range(n)]
    h = 1.0 / (n - 1)
    if order == 1:
        w = [0.5 * h if k in (0, n - 1) else h for k in range(n)]
    else:
        w = [h / 3 if k in (0, n - 1) else (4 * h / 3 if k % 2 else 2 * h / 3) for k in range(n)]
    return [(k * h - 0.5, w[k]) for k in range(n)]


def day(t):
    return t.to(ureg.day).magnitude if hasattr(t, "magnitude") else t


def contract(order, n, tshape, units):
    kw = {}
    if order is not None:
        kw["order"] = order
    if n is not None:
        kw["num_samples"] = n

    def program(t, E):
        q = {"numbers": E, "quantities": E * ureg.day, "hours": E * 24.0 * ureg.hour}[units]
        tt = {"numbers": t, "quantities": t * ureg.day, "hours": t * 24.0 * ureg.hour}[units]
        return {"f": integrate(lambda time: f1(day(time)), q, **kw)(tt)}

    def ens(I, O, K):
        return [K.eq(f"average over the exposure {list(ti)}", O["f"][ti] if ti else O["f"],
                     sum(w * K.uf("lc1", (I["t"][ti] if ti else I["t"]) + x * I["E"]) for x, w in rule(order or 0, 7 if n is None else n)))
                for ti in np.ndindex(*tshape)]

    Contract("C09", f"order {order}, {n} samples, times {tshape}, {units}",
             {"t": In(shape=tshape, lo=-3, hi=3, edges=[0.0]), "E": In(lo=0.0, hi=2.0, edges=[0.0])}, program, ens, opaque=[f1], functions=FN, n_samples=10)


for order in (None, 0, 1, 2):
    contract(order, None, (), "numbers")
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 20):
        if order is not None:
            contract(order, n, (), "quantities")
contract(2, 5, (3,), "numbers")
contract(1, 3, (2, 2), "quantities")
contract(0, 4, (2,), "hours")
contract(2, 51, (), "quantities")


# -- extra arguments and units of the flux --------------------------------------------------------
def args_prog(t, E, a, b):
    g = lambda time, a, scale=1.0, b=0.0: scale * f3(day(time), a, b)  # noqa: E731
    h = lambda time, a, b: f3(day(time), a, b) * ureg.m  # noqa: E731
    return {
        "pos": integrate(lambda time, a, b: f3(day(time), a, b), E * ureg.day, order=2, num_samples=3)(t, a, b),
        "kw": integrate(lambda time, a, b=0.0: f3(day(time), a, b), E, order=2, num_samples=3)(t, a, b=b),
        "kwvec": integrate(lambda time, p: f3(day(time), p[0], p[1]), E, order=1, num_samples=3)(t, p=jnp.stack([a, b, a])),
        "array": integrate(lambda time: f3(day(time), a, b) * jnp.arange(1.0, 7.0).reshape(2, 3), E, order=2, num_samples=3)(jnp.stack([t, t])),
        "dep": integrate(lambda time, p: f3(day(time), p[0], p[1]), E, order=1, num_samples=3)(t, jnp.stack([a, b])),
        "quantity": integrate(h, E, order=0, num_samples=3)(t, a, b).to(ureg.km).magnitude,
    }


def args_ens(I, O, K):
    s = lambda order: sum(w * K.uf("lc3", I["t"] + x * I["E"], I["a"], I["b"]) for x, w in rule(order, 3))  # noqa: E731
    return [K.eq("positional arguments", O["pos"], s(2)), K.eq("keyword argument", O["kw"], s(2)), K.eq("keyword array", O["kwvec"], s(1)),
            K.eq("flux array", O["array"], s(2) * np.arange(1.0, 7.0).reshape(1, 2, 3) * np.ones((2, 1, 1))), K.eq("structured argument", O["dep"], s(1)), K.eq("flux with units", O["quantity"], s(0) / 1000.0)]


Contract("C09", "extra arguments are passed through and units kept",
         {"t": In(lo=-3, hi=3), "E": In(lo=0.0, hi=2.0), "a": In(), "b": In()}, args_prog, args_ens, opaque=[f3], functions=FN, n_samples=10)


# -- consequences stated by the property: exactness on polynomials --------------------------------
def poly(order, n, deg):
    def program(t, E, c):
        return {"f": integrate(lambda time: sum(c[k] * day(time) ** k for k in range(deg + 1)), E * ureg.day, order=order, num_samples=n)(t)}

    def ens(I, O, K):
        t, E, c = I["t"], I["E"], I["c"]
        # (1/E) int_{t-E/2}^{t+E/2} of each monomial
        m = [1.0, t, t * t + E * E / 12, t * t * t + t * E * E / 4]
        return [K.eq("exact average", O["f"], sum(c[k] * m[k] for k in range(deg + 1)), scale=1.0)]

    Contract("C09", f"polynomials of degree {deg}: order {order}, {n} samples", {"t": In(lo=-3, hi=3), "E": In(lo=0.0, hi=2.0, edges=[0.0]), "c": In(shape=(deg + 1,))},
             program, ens, functions=FN, n_samples=15)


for order in (0, 1, 2):
    for n in (0, 1, 2, 3, 7, 8):
        poly(order, n, 3 if order == 2 else 1)


# -- no exposure time; invalid requests ------------------------------------------------------------
def trivial(ctx):
    g = lambda time: time  # noqa: E731
    ctx.ok("no exposure time returns the function itself", integrate(g, None) is g and integrate(g) is g, {"exposure_time": None})
    for bad in (3, -1, 7):
        try:
            integrate(g, 0.1, order=bad)
            ok = False
        except ValueError:
            ok = True
        ctx.ok(f"order {bad} is rejected", ok, {"order": bad}, "accepted", "ValueError")
    for E in (np.array([0.1, 0.2]), np.array([[0.1]]) * ureg.day):
        try:
            integrate(g, E)
            ok = False
        except ValueError:
            ok = True
        ctx.ok(f"exposure time of shape {np.shape(E)} is rejected", ok, {"exposure_time": str(E)}, "accepted", "ValueError")


HostContract("C09", "no exposure time and invalid requests", trivial, functions=FN[:1])


# -- fine samplings --------------------------------------------------------------------------------
def fine(ctx):
    g = lambda time: jnp.sin(1.3 * day(time)) + 0.2 * jnp.exp(-(day(time) ** 2))  # noqa: E731
    real = lambda x: np.sin(1.3 * x) + 0.2 * np.exp(-(x**2))  # noqa: E731
    for order in (0, 1, 2):
        for n in (10, 13, 21, 25, 31, 32, 41, 50, 64, 77, 99, 100, 101, 128, 150, 201, 256, 333, 500, 501, 1000, 2001):
            r = rule(order, n)
            for E, t in ((0.1, 0.3), (0.02, np.array([-0.4, 0.0, 55.1])), (1.5, 0.0), (40.0, 3.0)):
                got = np.asarray(integrate(g, E * ureg.day, order=order, num_samples=n)(t))
                want = sum(w * real(t + x * E) for x, w in r)
                ctx.ok(f"order {order}, {n} samples, exposure {E}", got.shape == np.shape(want) and np.allclose(got, want, rtol=0, atol=1e-10), {"order": order, "num_samples": n, "exposure": E, "t": np.ravel(t).tolist()}, np.ravel(got).tolist(), np.ravel(want).tolist())


HostContract("C09", "fine samplings", fine, functions=FN, bounded="22 numbers of samples from 10 to 2001, exposures of 0.02 to 40 days")
