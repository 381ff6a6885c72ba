"""C12 transit timing variations."""
import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.orbits.ttv import TTVOrbit, compute_expected_transit_times
from jaxoplanet.units import unit_registry as ureg
from jv import terms as tm
from jv import trace as tr
from jv.contract import Callee, Contract, HostContract, In

from .common import mag

F = "jaxoplanet.orbits.ttv."
FN = [F + k for k in ("TTVOrbit.__init__", "TTVOrbit.relative_position", "TTVOrbit._warp_times", "TTVOrbit._get_model_dt",
                      "_compute_linear_ephemeris_single", "_compute_bin_edges_values_single", "_process_planet_dt_single")]
ND = ureg.dimensionless


class Solve(Callee):
    """numpy.linalg.solve of a 2 x 2 system: Cramer's rule"""

    external = True

    def __init__(self):
        super().__init__("jax.numpy.linalg:solve", "solve2", (2, 1), lambda A, b: (b,), self.meaning)

    @staticmethod
    def meaning(A, b):
        A = [[tm.lift(A[i, j]) for j in range(2)] for i in range(2)]
        b = [tm.lift(b[i]) for i in range(2)]
        det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        return [tr.oarr((2,), [(b[0] * A[1][1] - b[1] * A[0][1]) / det, (A[0][0] * b[1] - A[1][0] * b[0]) / det])]


SOLVE = Solve()


def fit(tt, ind, K):
    """least-squares line through (ind, tt): the normal equations"""
    n = float(len(ind))
    sx, sxx = float(sum(ind)), float(sum(i * i for i in ind))
    sy = sum(tt)
    sxy = sum(float(i) * y for i, y in zip(ind, tt))
    det = n * sxx - sx * sx
    return (sxx * sy - sx * sxy) / det, (n * sxy - sx * sy) / det


def mean_free(v):
    m = sum(v) / float(len(v))
    return [x - m for x in v]


def increasing(tt, K):
    return [K.lt(a, b) for a, b in zip(tt, tt[1:])]


def phase(t, P, t0, K):
    return t - t0 - P * K.floor((t - t0 + 0.5 * P) / P)


class Case:
    """planets: list of transit-index lists; mode 'times' or 'ttvs'; inds given or inferred"""

    def __init__(self, planets, mode, given_inds, units=False, scalar=False):
        self.planets, self.mode, self.given, self.units, self.scalar = planets, mode, given_inds, units, scalar

    @property
    def name(self):
        return f"{self.mode}, transits {'/'.join(str(p) for p in self.planets)}{', labelled' if self.given else ''}{', other units' if self.units else ''}{', scalar epoch and period' if self.scalar else ''}"

    def inputs(self):
        n = len(self.planets)
        ins = {"D": In(shape=(n,), lo=0.05, hi=0.8, pos=True)}
        for k, ind in enumerate(self.planets):
            if self.mode == "ttvs":
                ins[f"y{k}"] = In(shape=(len(ind),), lo=-0.4, hi=0.4, edges=[0.0])
            else:
                ins[f"y{k}"] = In(shape=(len(ind),), lo=-2.0, hi=30.0)
        if self.mode == "ttvs":
            ins["P"] = In(shape=() if self.scalar else (n,), lo=2.0, hi=5.0, pos=True)
            ins["t0"] = In(shape=() if self.scalar else (n,), lo=-3, hi=3, edges=[0.0])
        return ins

    def sample(self, rng, extra=()):
        I = {k: s.draw(rng, 0.1) for k, s in {**self.inputs(), **dict(extra)}.items()}
        for k, ind in enumerate(self.planets):
            if self.mode == "times":
                I[f"y{k}"] = rng.uniform(-3, 3) + rng.uniform(2, 5) * np.array(ind) + rng.uniform(-0.4, 0.4, len(ind))
        return I

    def orbit(self, I):
        n = len(self.planets)
        sq = (lambda a: a[0]) if n == 1 else (lambda a: a)
        kw = dict(duration=sq(I["D"]))  # b = k = 0: the chord is 2
        h = (lambda x: x * 24.0 * ureg.hour) if self.units else (lambda x: x)
        m = (lambda x: x * 1440.0 * ureg.minute) if self.units else (lambda x: x)
        ys = tuple(m(I[f"y{k}"]) for k in range(n))
        if self.mode == "times":
            kw["transit_times"] = ys
        else:
            s0 = (lambda a: a) if self.scalar else sq
            kw.update(ttvs=ys, period=h(s0(I["P"])), time_transit=m(s0(I["t0"])))
        if self.given:
            kw["transit_inds"] = tuple(np.asarray(p) for p in self.planets)
        return TTVOrbit(**kw)

    def ephemeris(self, I, k, K):
        """(t0, P, transit times, ttvs) of planet k"""
        ind = self.planets[k] if self.given else list(range(len(self.planets[k])))
        y = [I[f"y{k}"][j] for j in range(len(ind))]
        if self.mode == "times":
            t0, P = fit(y, ind, K)
            return t0, P, y, [a - (t0 + P * float(i)) for a, i in zip(y, ind)]
        t0, P = (I["t0"], I["P"]) if self.scalar else (I["t0"][k], I["P"][k])
        d = mean_free(y)
        return t0, P, [t0 + P * float(i) + x for i, x in zip(ind, d)], d

    def ok(self, I, K):
        out = []
        for k in range(len(self.planets)):
            t0, P, tt, d = self.ephemeris(I, k, K)
            out += increasing(tt, K) + [K.lt(0.0, P)]
        return out


CASES = [Case([[0, 1, 2]], "times", False), Case([[0, 1, 2]], "ttvs", False), Case([[0, 2, 3, 7]], "times", True), Case([[1, 4]], "ttvs", True),
         Case([[0, 1], [0, 1, 2]], "times", False), Case([[0, 1, 2], [0, 1]], "ttvs", False), Case([[0, 1], [0, 1]], "ttvs", False, scalar=True),
         Case([[0, 3], [2, 3, 5]], "ttvs", True), Case([[0, 1, 2]], "times", False, units=True), Case([[0, 1]], "ttvs", False, units=True)]


# -- ephemeris: the least-squares line, times and variations -----------------------------------------
def ephem(c):
    n = len(c.planets)

    def program(**I):
        o = c.orbit(I)
        O = {"t0": jnp.asarray(o.linear_t0), "P": jnp.asarray(o.linear_period), "period": jnp.broadcast_to(mag(o.period, ureg.day), (n,)),
             "epoch": jnp.broadcast_to(mag(o.time_transit, ureg.day), (n,))}
        for k in range(n):
            O[f"tt{k}"], O[f"d{k}"] = o.transit_times[k], o.ttvs[k]
        return O

    def ens(I, O, K):
        out = []
        for k in range(n):
            t0, P, tt, d = c.ephemeris(I, k, K)
            out += [K.eq(f"reference time {k}", O["t0"][k], t0, scale=1.0), K.eq(f"linear period {k}", O["P"][k], P), K.eq(f"orbit period {k}", O["period"][k], P),
                    K.eq(f"orbit epoch {k}", O["epoch"][k], t0, scale=1.0)]
            for j in range(len(tt)):
                out += [K.eq(f"transit time {k},{j}", O[f"tt{k}"][j], tt[j], scale=1.0), K.eq(f"variation {k},{j}", O[f"d{k}"][j], d[j], scale=1.0)]
        return out

    Contract("C12", f"ephemeris: {c.name}", c.inputs(), program, ens, requires=c.ok, sampler=c.sample, opaque=[SOLVE], functions=FN, n_samples=20, tol=1e-6)


# -- the motion: every transit at its time, linear in between ------------------------------------------
def motion(c):
    n = len(c.planets)

    def program(t, **I):
        o = c.orbit(I)
        x, y, z = (mag(q, ND) for q in o.relative_position(t))
        tt = [mag(o.relative_position(jnp.asarray(tau))[0], ND) for k in range(n) for tau in o.transit_times[k]]
        return {"x": jnp.reshape(x, (n,)), "y": jnp.reshape(y, (n,)), "z": jnp.reshape(z, (n,)), "at": jnp.stack([jnp.reshape(a, (n,)) for a in tt])}

    def ens(I, O, K):
        out, q = [], 0
        for k in range(n):
            t0, P, tt, d = c.ephemeris(I, k, K)
            near = tt[-1]
            for j in reversed(range(len(tt) - 1)):
                near = K.where(K.lt(I["t"], 0.5 * (tt[j] + tt[j + 1])), tt[j], near)
            dt = phase(I["t"] - near, P, 0.0, K)
            D = I["D"][k]
            out += [K.eq(f"uniform motion about the nearest transit {k}", O["x"][k] * D, 2.0 * dt, scale=1.0), K.eq(f"y {k}", O["y"][k], 0.0),
                    K.eq(f"in front within half a duration {k}", O["z"][k], K.where(K.lt(K.abs(dt), 0.5 * D), 1.0, -1.0))]
            for j in range(len(tt)):
                out.append(K.eq(f"central at transit {k},{j}", O["at"][q, k], 0.0, scale=1e2))
                q += 1
        return out

    def requires(I, K):
        out = c.ok(I, K)
        for k in range(n):
            t0, P, tt, d = c.ephemeris(I, k, K)
            out += [K.not_(K.equal(I["t"], 0.5 * (a + b))) for a, b in zip(tt, tt[1:])]
        return out

    tin = {"t": In(lo=-8, hi=30)}
    Contract("C12", f"motion: {c.name}", {**tin, **c.inputs()}, program, ens, requires=requires,
             sampler=lambda rng: c.sample(rng, tin.items()), opaque=[SOLVE], functions=FN, n_samples=20, tol=1e-6, xcheck=False)


for c in CASES:
    ephem(c)
    if not c.units:
        motion(c)


# -- a shape period apart from the ephemeris: the transits stay where they are --------------------------
def shape_period(inds, how):
    c = Case([inds], "times", True)
    ins = {"t": In(lo=-8, hi=30), **c.inputs(), "q": In(lo=-0.05, hi=0.05, edges=[0.0]) if how == "offset" else In(lo=2.0, hi=5.0, pos=True)}

    def program(t, D, y0, q):
        o = TTVOrbit(transit_times=(y0,), transit_inds=(np.asarray(inds),), duration=D[0], **({"delta_log_period": q} if how == "offset" else {"period": q}))
        x, y, z = (jnp.reshape(mag(a, ND), ()) for a in o.relative_position(t))
        return {"period": jnp.reshape(mag(o.period, ureg.day), ()), "linear": o.linear_period[0], "x": x, "y": y, "at": jnp.stack([jnp.reshape(mag(o.relative_position(y0[j])[0], ND), ()) for j in range(len(inds))])}

    def ens(I, O, K):
        t0, P, tt, d = c.ephemeris(I, 0, K)
        Q = K.exp(K.log(P) + I["q"]) if how == "offset" else I["q"]
        near = tt[-1]
        for j in reversed(range(len(tt) - 1)):
            near = K.where(K.lt(I["t"], 0.5 * (tt[j] + tt[j + 1])), tt[j], near)
        return [K.eq("period of the shape", O["period"], Q), K.eq("linear period", O["linear"], P), K.eq("uniform motion about the nearest transit", O["x"] * I["D"][0], 2.0 * phase(I["t"] - near, Q, 0.0, K), scale=1.0),
                K.eq("y", O["y"], 0.0)] + [K.eq(f"central at transit {j}", O["at"][j], 0.0, scale=1e2) for j in range(len(tt))]

    Contract("C12", f"period of the shape: {how}, transits {inds}", ins, program, ens,
             requires=lambda I, K: c.ok(I, K) + [K.not_(K.equal(I["t"], 0.5 * (I["y0"][j] + I["y0"][j + 1]))) for j in range(len(inds) - 1)],
             sampler=lambda rng: c.sample(rng, {k: ins[k] for k in ("t", "q")}.items()), opaque=[SOLVE], functions=FN, n_samples=20, tol=1e-6, xcheck=False)


for how in ("offset", "period"):
    shape_period([0, 1, 2], how)
    shape_period([1, 4], how)


# -- no variation: the orbit is the linear one; times and variations are interchangeable ---------------
def same(planets, shape):
    n = len(planets)
    ins = {"t": In(shape=shape, lo=-6, hi=20, edges=[0.0]), "P": In(shape=(n,), lo=2.0, hi=5.0, pos=True), "t0": In(shape=(n,), lo=-3, hi=3, edges=[0.0]),
           "D": In(shape=(n,), lo=0.05, hi=0.8, pos=True), "b": In(shape=(n,), lo=0.0, hi=0.5, nonneg=True), "k": In(shape=(n,), lo=0.05, hi=0.2, nonneg=True), "c": In(lo=-0.3, hi=0.3)}

    def program(t, P, t0, D, b, k, c):
        sq = (lambda a: a[0]) if n == 1 else (lambda a: a)
        kw = dict(period=sq(P), time_transit=sq(t0), duration=sq(D), impact_param=sq(b), radius_ratio=sq(k))
        o = TTVOrbit(ttvs=tuple(c * jnp.ones(m) for m in planets), **kw)
        r = TransitOrbit(**kw)
        X = lambda o: jnp.stack([jnp.broadcast_to(mag(q, ND), shape if n == 1 else (n,)) for q in o.relative_position(t)])  # noqa: E731
        return {"a": X(o)[:2], "b": X(r)[:2], "az": X(o)[2], "bz": X(r)[2], "ra": mag(o.radius, ND), "rb": mag(r.radius, ND),
                "ca": mag(o.central_radius, ND), "va": mag(o.speed, 1 / ureg.day), "vb": mag(r.speed, 1 / ureg.day)}

    def ens(I, O, K):
        return [K.eq("position", O["a"], O["b"], scale=1.0), K.eq("in front", O["az"], O["bz"]), K.eq("radius", O["ra"], O["rb"]), K.eq("central radius", O["ca"], 1.0 + 0.0 * O["ca"]),
                K.eq("speed", O["va"], O["vb"])]

    def requires(I, K):
        return [K.lt(I["b"][i], 1.0) for i in range(n)]

    Contract("C12", f"equal variations change nothing: {planets} transits, times {shape}", ins, program, ens, requires=requires, functions=FN, n_samples=20, xcheck=False)


same([2], ())
same([3], ())
same([2, 2], ())


def interchange(inds):
    m = len(inds)
    ins = {"tt": In(shape=(m,), lo=0, hi=20), "D": In(lo=0.05, hi=0.8, pos=True)}

    def program(tt, D):
        a = TTVOrbit(transit_times=(tt,), transit_inds=(np.asarray(inds),), duration=D)
        b = TTVOrbit(ttvs=a.ttvs, period=a.linear_period[0], time_transit=a.linear_t0[0], transit_inds=(np.asarray(inds),), duration=D)
        return {"a": a.transit_times[0], "b": b.transit_times[0], "da": a.ttvs[0], "db": b.ttvs[0], "Pa": mag(a.period, ureg.day)[0], "Pb": mag(b.period, ureg.day),
                "ta": mag(a.time_transit, ureg.day)[0], "tb": mag(b.time_transit, ureg.day)}

    Contract("C12", f"times and variations are interchangeable: transits {inds}", ins, program,
             lambda I, O, K: [K.eq("transit times", O["b"], O["a"], scale=1.0), K.eq("variations", O["db"], O["da"], scale=1.0), K.eq("period", O["Pb"], O["Pa"]), K.eq("epoch", O["tb"], O["ta"], scale=1.0)],
             sampler=lambda rng: {"tt": rng.uniform(-3, 3) + rng.uniform(2, 5) * np.array(inds) + rng.uniform(-0.4, 0.4, m), "D": rng.uniform(0.1, 0.8)},
             opaque=[SOLVE], functions=FN, n_samples=20, tol=1e-6)


interchange([0, 1, 2])
interchange([1, 2, 5, 6])


def rejects(ctx):
    y = (np.array([0.0, 1.0]),)
    for kw in (dict(duration=0.1), dict(duration=0.1, ttvs=y, transit_times=y, period=1.0), dict(duration=0.1, ttvs=y), dict(transit_times=y)):
        try:
            TTVOrbit(**kw)
            ok = False
        except ValueError:
            ok = True
        ctx.ok(f"rejected: {sorted(kw)}", ok, {"given": sorted(kw)}, "accepted", "ValueError")


HostContract("C12", "contradictory or missing arguments are rejected", rejects, functions=FN[:1])


def expected(ctx):
    r = ctx.rng
    for q in range(60 if ctx.tier == "quick" else 600):
        n = int(r.integers(1, 4))
        P, t0 = r.uniform(0.5, 7, n), r.uniform(-30, 30, n)
        lo = r.uniform(-40, 10)
        hi = lo + r.uniform(0, 40)
        got = compute_expected_transit_times(lo, hi, P if n > 1 else P[0], t0 if n > 1 else t0[0])
        ok = len(got) == n
        for g, p, z in zip(got, P, t0):
            want = [z + p * k for k in range(-300, 300) if lo <= z + p * k <= hi]
            ok = ok and len(want) == len(g) and np.allclose(g, want, rtol=0, atol=1e-9)
        ctx.ok("every linear transit in the window, in order", ok, {"P": P.tolist(), "t0": t0.tolist(), "window": [lo, hi]}, [np.asarray(g).tolist() for g in got], "t0 + k P in the window")


HostContract("C12", "expected transit times", expected, functions=[F + "compute_expected_transit_times"], bounded="60 (600) random ephemerides and windows")


# -- many transits ----------------------------------------------------------------------------------------
def many(ctx):
    rng = np.random.default_rng(12)
    for lengths in ((12,), (40,), (101,), (2, 30), (9, 17, 33), (25, 25, 25, 25), (300, 3)):
        n = len(lengths)
        inds, times, P, T0, dt = [], [], [], [], []
        for m in lengths:
            ind = np.sort(rng.choice(np.arange(1, 2 * m + 1), size=m, replace=False)) if m > 3 else np.arange(m)
            p, t0 = rng.uniform(2, 40), rng.uniform(-3, 3)
            d = rng.uniform(-0.02, 0.02, m) * p
            inds.append(ind), times.append(t0 + p * ind + d)
            A = np.stack([np.ones(m), ind], axis=1)
            (q0, q), *_ = np.linalg.lstsq(A, times[-1], rcond=None)
            P.append(q), T0.append(q0), dt.append(times[-1] - q0 - q * ind)
        D = rng.uniform(0.1, 0.3, n)
        kw = dict(duration=D if n > 1 else D[0], transit_inds=tuple(inds))
        a = TTVOrbit(transit_times=tuple(jnp.asarray(t) for t in times), **kw)
        b = TTVOrbit(ttvs=tuple(jnp.asarray(d) for d in dt), period=np.array(P) if n > 1 else P[0], time_transit=np.array(T0) if n > 1 else T0[0], **kw)
        lin = TransitOrbit(period=np.array(P), time_transit=np.array(T0), duration=D)
        for name, o in (("times", a), ("variations", b)):
            tag = {"lengths": list(lengths), "given": name}
            ctx.ok(f"period and epoch, {lengths}, {name}", np.allclose(mag(o.period, ureg.day), P, rtol=1e-9, atol=0) and np.allclose(mag(o.time_transit, ureg.day), T0, rtol=0, atol=1e-7), tag, str(o.period), P)
            warp = jax.jit(lambda t, o=o: jnp.stack([mag(c, ND) for c in o.relative_position(t)]))
            ref = jax.jit(lambda t: jnp.stack([mag(c, ND) for c in lin.relative_position(t)]))
            for k in range(n):
                ks = np.unique(np.linspace(0, lengths[k] - 1, 12).astype(int))
                for j in ks:
                    for off in (0.0, 0.3, -0.3, 0.05):
                        # within a transit's interval time runs as along the line
                        near = np.abs(off) * P[k] < 0.45 * P[k] and (off == 0 or np.all(np.abs(np.delete(times[k], j) - (times[k][j] + off * P[k])) > np.abs(off) * P[k] * 1.01 + 1e-6))
                        if not near:
                            continue
                        got = np.asarray(warp(times[k][j] + off * P[k])).reshape(3, -1)[:, k]
                        want = np.asarray(ref(T0[k] + P[k] * inds[k][j] + off * P[k])).reshape(3, -1)[:, k]
                        ctx.ok(f"transit {j} of planet {k}, {lengths}, {name}, {off}", np.allclose(got[:2], want[:2], rtol=0, atol=1e-5 * max(1.0, np.abs(want).max())), {**tag, "planet": k, "transit": int(j), "offset": off}, got.tolist(), want.tolist())


HostContract("C12", "many transits", many, functions=FN, bounded="seven systems of up to four planets and 300 transits")
