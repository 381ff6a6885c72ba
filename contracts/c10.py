"""C10 interpolated light curves."""
import jax.numpy as jnp
import numpy as np

from jaxoplanet.light_curves.transforms import interpolate
from jaxoplanet.units import unit_registry as ureg
from jv import terms as tm
from jv import trace as tr
from jv.contract import Callee, Contract, GhostFn, HostContract, In

FN = ["jaxoplanet.light_curves.transforms.interpolate", "jaxoplanet.light_curves.utils.vectorize"]
f1 = GhostFn("lc1", 1, lambda t: jnp.sin(1.3 * t) + 0.2 * jnp.exp(-(t**2)))
fper = GhostFn("lcP", 2, lambda t, P: jnp.sin(2 * jnp.pi * t / P) + 0.3 * jnp.cos(4 * jnp.pi * t / P))  # of period P
f3 = GhostFn("lc3", 3, lambda t, a, b: jnp.sin(1.3 * t + a) + b * jnp.exp(-(t**2)))


def day(t):
    return t.to(ureg.day).magnitude if hasattr(t, "magnitude") else t


def locate(phi, off, P, fp, K):
    """piecewise linear through (off[k], fp[k]); from the last node back to the first one at P"""
    val = fp[-1] + (fp[0] - fp[-1]) * (phi - off[-1]) / (P - off[-1])
    for k in reversed(range(len(off) - 1)):
        lerp = fp[k] + (fp[k + 1] - fp[k]) * (phi - off[k]) / (off[k + 1] - off[k])
        val = K.where(K.le(phi, off[k + 1]), lerp, val)
    return val


class Interp(Callee):
    """numpy.interp with increasing nodes.  With a period: linear between neighbours of the
    periodic extension (nodes within one period); without: the end values outside."""

    external = True

    def __init__(self):
        super().__init__("jax.numpy:interp", "np_interp", (0, 1, 1, 0, 0, 0, 0), lambda *a: ((),), self.meaning,
                         real_uf={"interp_undefined": lambda *a: float("nan")})

    @staticmethod
    def meaning(x, xp, fp, left, right, period, has):
        from jv.contract import Sym as K

        x, left, right, P = (tm.lift(a[()]) for a in (x, left, right, period))
        xp, fp = [tm.lift(v) for v in xp], [tm.lift(v) for v in fp]
        n = len(xp)
        pre = [tm.lt(xp[k], xp[k + 1]) for k in range(n - 1)]
        if tm.lift(has[()]) == tm.ONE:
            off = [v - xp[0] for v in xp]
            phi = x - xp[0]
            phi = phi - P * K.floor(phi / P)
            pre += [tm.le(off[-1], P), tm.lt(tm.ZERO, P)]
            val = locate(phi, off, P, fp, K)
        else:
            val = fp[-1]
            for k in reversed(range(n - 1)):
                val = K.where(K.le(x, xp[k + 1]), fp[k] + (fp[k + 1] - fp[k]) * (x - xp[k]) / (xp[k + 1] - xp[k]), val)
            val = K.where(K.lt(x, xp[0]), left, K.where(K.lt(xp[-1], x), right, val))
        return [tr.oarr((), [tm.ite(tm.and_(*pre), val, tm.uf("interp_undefined", (x,)))])]

    def stub(self):
        def call(x, xp, fp, left=None, right=None, period=None):
            lft, rgt = (fp[0] if left is None else left), (fp[-1] if right is None else right)
            return tr.opaque_call(self.name, x, xp, fp, lft, rgt, 1.0 if period is None else period, float(period is not None))[0]

        return call


INTERP = Interp()


def spec(name, I, val, t, N, K, value):
    """goals for one query time; value(tau) is the original light curve"""
    P, t0 = I["P"], I["t0"]
    D = I.get("D", P)
    h = D / (N - 1)
    start = t0 - 0.5 * D
    phi = t - start
    phi = phi - P * K.floor(phi / P)
    fp = [value(start + k * h) for k in range(N)]
    inside = K.le(phi, D)
    lin = fp[N - 1]
    for k in reversed(range(N - 1)):
        lin = K.where(K.le(phi, (k + 1) * h), fp[k] + (fp[k + 1] - fp[k]) * (phi - k * h) / h, lin)
    out = [K.eq(f"linear interpolant within the window{name}", K.where(inside, val, lin), lin)]
    if "D" in I:
        lo, hi = K.min(fp[0], fp[-1]), K.max(fp[0], fp[-1])
        tol = 0.0 if K.symbolic else 1e-9
        out += [K.holds(f"between the end values outside{name}", K.or_(inside, K.and_(K.le(lo - tol, val), K.le(val, hi + tol))))]
    return out


def contract(N, dur, tshape, units):
    ins = {"t": In(shape=tshape, lo=-9, hi=9, edges=[0.0]), "P": In(lo=0.5, hi=4, pos=True), "t0": In(lo=-3, hi=3, edges=[0.0])}
    if dur:
        ins["D"] = In(lo=0.05, hi=3, pos=True)

    def program(t, P, t0, D=None):
        q = {"numbers": lambda x: x, "quantities": lambda x: x * ureg.day, "hours": lambda x: x * 24.0 * ureg.hour}[units]
        kw = {} if D is None else {"duration": q(D)}
        g = interpolate(lambda time: fper(day(time), P) if D is None else f1(day(time)), period=q(P), time_transit=q(t0), num_samples=N, **kw)
        return {"f": g(q(t))}

    def ens(I, O, K):
        out = []
        for ti in np.ndindex(*tshape):
            out += spec(f" {list(ti)}" if ti else "", I, O["f"][ti] if ti else O["f"], I["t"][ti] if ti else I["t"], N, K, lambda x: K.uf("lc1", x) if dur else K.uf("lcP", x, I["P"]))
        return out

    Contract("C10", f"{N} nodes, {'duration' if dur else 'full period'}, times {tshape}, {units}", ins, program, ens,
             requires=(lambda I, K: [K.lt(I["D"], I["P"])]) if dur else None, opaque=[f1, fper, INTERP], functions=FN, n_samples=40,
             facts=None if dur else lambda I, K: [K.equal(K.uf("lcP", I["t0"] - 0.5 * I["P"], I["P"]), K.uf("lcP", I["t0"] + 0.5 * I["P"], I["P"]))],
             assume=["jax.numpy.interp with increasing nodes is the linear interpolant of the (periodic) nodes, within its own rounding"])


for N in (2, 3, 4, 6):
    contract(N, True, (), "numbers")
    contract(N, False, (), "quantities")
contract(9, True, (), "quantities")
contract(3, True, (2,), "quantities")
contract(3, False, (2, 1), "numbers")
contract(4, True, (), "hours")


# -- extra arguments, units of the flux, no change at the nodes and after whole periods ---------------
ARGS = {
    "args": (3, lambda I, kw: interpolate(lambda time, a, b: f3(day(time), a, b), args=(I["a"], I["b"]), **kw)(I["t"])),
    "kwargs": (3, lambda I, kw: interpolate(lambda time, a, b=0.0: f3(day(time), a, b), args=(I["a"],), kwargs={"b": I["b"]}, **kw)(I["t"])),
    "units": (2, lambda I, kw: interpolate(lambda time, a, b: f3(day(time), a, b) * ureg.m, args=(I["a"], I["b"]), **kw)(I["t"]).to(ureg.km).magnitude * 1000.0),
}
for key, (nodes, run) in ARGS.items():
    Contract("C10", f"extra arguments and units: {key}", {"t": In(lo=-9, hi=9), "P": In(lo=0.5, hi=4, pos=True), "t0": In(lo=-3, hi=3), "D": In(lo=0.05, hi=3, pos=True), "a": In(), "b": In()},
             lambda nodes=nodes, run=run, **I: {"f": run(I, dict(period=I["P"], time_transit=I["t0"] * ureg.day, duration=I["D"], num_samples=nodes))},
             lambda I, O, K, nodes=nodes: spec("", I, O["f"], I["t"], nodes, K, lambda x: K.uf("lc3", x, I["a"], I["b"])), requires=lambda I, K: [K.lt(I["D"], I["P"])], opaque=[f3, INTERP], functions=FN, n_samples=40)


# -- fine grids --------------------------------------------------------------------------------------
def fine(ctx):
    rng = np.random.default_rng(10)
    for n in (2, 5, 10, 50, 64, 100, 101, 500, 1000, 3001):
        for P, t0, D in ((3.2, 0.4, 0.7), (1.0, 0.0, None), (0.9, -120.3, 0.1), (400.0, 1000.5, 3.0), (5.0, 0.5, 4.999)):
            f = (lambda time, P=P: jnp.sin(2 * jnp.pi * day(time) / P) + 0.3 * jnp.cos(4 * jnp.pi * day(time) / P)) if D is None else (lambda time: jnp.sin(1.3 * day(time)))
            g = interpolate(f, period=P * ureg.day, time_transit=t0 * ureg.day, num_samples=n, **({} if D is None else {"duration": D * ureg.day}))
            w = P if D is None else D
            grid = t0 + w * np.linspace(-0.5, 0.5, n)
            flux = np.asarray(f(grid))
            t = np.concatenate([rng.uniform(t0 - w / 2, t0 + w / 2, 20), grid[:: max(1, n // 20)][1:-1], t0 + rng.uniform(-3 * P, 3 * P, 40)])
            t = t + P * rng.integers(-5, 6, t.shape)
            phase = np.mod(t - t0 + 0.5 * P, P) - 0.5 * P + t0  # the same phase around the transit
            got = np.asarray(g(t * ureg.day))
            inside = np.abs(phase - t0) <= w / 2 * (1 - 1e-9)
            want = np.interp(phase, grid, flux)
            lo, hi = sorted((flux[0], flux[-1]))
            slope = 10.0 * 1e-9 * max(1.0, w)
            ctx.ok(f"{n} nodes, period {P}, duration {D}: the interpolant", np.allclose(got[inside], want[inside], rtol=0, atol=1e-7 + slope), {"num_samples": n, "period": P, "time_transit": t0, "duration": D},
                   float(np.max(np.abs(got - want)[inside])), 0.0)
            ctx.ok(f"{n} nodes, period {P}, duration {D}: outside of the window", bool(np.all((got >= lo - 1e-6) & (got <= hi + 1e-6) | (np.abs(phase - t0) < w / 2 * (1 + 1e-9)))),
                   {"num_samples": n, "period": P, "time_transit": t0, "duration": D}, got[~inside].tolist(), [float(lo), float(hi)])


HostContract("C10", "fine grids", fine, functions=FN, bounded="10 numbers of nodes from 2 to 3001, five windows, about 80 times each within eight periods")
