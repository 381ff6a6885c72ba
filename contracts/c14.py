"""C14 mapping over bodies."""
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.object_stack import ObjectStack
from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
from jaxoplanet.starry.orbit import SurfaceBody, SurfaceSystem
from jaxoplanet.starry.surface import Surface
from jaxoplanet.units import unit_registry as ureg
from jv.contract import Contract, GhostFn, HostContract, In

F = "jaxoplanet.object_stack."
FN = [F + "ObjectStack.__init__", F + "ObjectStack.vmap", F + "index_helper", F + "flatten_func_for_object_vmap"]
g = GhostFn("g_obj", 3, lambda a, b, x: jnp.sin(a + 2 * b) * jnp.cos(x) + a * x)
h = GhostFn("h_obj", 2, lambda a, x: jnp.exp(0.1 * a) - x * a)


class Obj(eqx.Module):
    a: jax.Array
    b: jax.Array
    c: jax.Array | None


def objects(same, n, a, b):
    """n objects; `same`: one structure, otherwise one of them carries an extra leaf"""
    return [Obj(a[i], b[i], None if same or i != n // 2 else a[i]) for i in range(n)]


N = 3
BASE = {"a": In(shape=(N,)), "b": In(shape=(N,))}
DIMS = {0: (), 1: (N,), 2: (N, 2), 3: (N, 2, 2)}


def moved(rank, axis):
    """shape of a rank-`rank` argument with the mapped dimension at `axis`"""
    s = [2] * (rank - 1)
    s.insert(axis % rank, N)
    return tuple(s)


def take(x, axis, i):
    return x if axis is None else x[(slice(None),) * (axis % x.ndim) + (i,)]


def compare(O):
    return [(k, O[k], O["0" + k]) for k in O if not k.startswith("0")]


def case(name, ins, program, **kw):
    for same in (True, False):
        Contract("C14", f"{name}, {'shared' if same else 'different'} structure", {**BASE, **ins}, lambda same=same, **I: program(same, **I),
                 lambda I, O, K: [K.eq(*t) for t in compare(O)], opaque=[g, h], functions=FN, n_samples=6, **kw)


# -- every axis of every argument of rank <= 3, alone and inside a sequence or a nested structure -----
def one_arg(rank):
    def program(same, a, b, **X):
        st = ObjectStack(*objects(same, N, a, b))
        objs = st.objects
        f = lambda o, x: g(o.a, o.b, x)  # noqa: E731
        O = {}
        for key, x in X.items():
            axis = None if key == "none" else int(key[1:].replace("m", "-"))
            for how, spec in dict(plain=axis, seq=(axis,), list=[axis]).items():
                O[f"{how} {key}"] = st.vmap(f, in_axes=spec)(x)
                O[f"0{how} {key}"] = jnp.stack([f(o, take(x, axis, i)) for i, o in enumerate(objs)])
        return O

    ins = {"none": In(shape=(2,) * rank)}
    for ax in range(-rank, rank):
        ins[f"x{str(ax).replace('-', 'm')}"] = In(shape=moved(rank, ax))
    case(f"one argument of rank {rank}, every axis", ins, program)


for rank in (0, 1, 2, 3):
    one_arg(rank)


def several(same, a, b, x, y, z):
    st = ObjectStack(*objects(same, N, a, b))
    objs = st.objects
    f2 = lambda o, x, y: g(o.a, o.b, x) + h(o.b, y)  # noqa: E731
    fd = lambda o, d, y: g(o.a, d["x"], d["p"][0]) * h(d["p"][1], y)  # noqa: E731
    O = {}
    for i, (ax, ay) in enumerate([(0, 1), (-1, -1), (None, 1), (1, None), (None, None), (0, -2)]):
        X = x if ax in (0, None) else x.T
        Y = y if ay in (1, -1) else (y.T if ay == -2 else y)
        if ax is None:
            X = x[0]
        if ay is None:
            Y = y[:, 0]
        O[f"two arguments {ax} {ay}"] = st.vmap(f2, in_axes=(ax, ay))(X, Y)
        O[f"0two arguments {ax} {ay}"] = jnp.stack([f2(o, take(X, ax, k), take(Y, ay, k)) for k, o in enumerate(objs)])
    ax = ({"x": None, "p": (0, 1)}, None)
    arg = {"x": z, "p": (x, y)}
    O["nested"] = st.vmap(fd, in_axes=ax)(arg, z)
    O["0nested"] = jnp.stack([fd(o, {"x": z, "p": (x[k], y[:, k])}, z) for k, o in enumerate(objs)])
    O["broadcast over a structure"] = st.vmap(fd, in_axes=(0, None))({"x": b, "p": (x, y.T)}, z)
    O["0broadcast over a structure"] = jnp.stack([fd(o, {"x": b[k], "p": (x[k], y[:, k])}, z) for k, o in enumerate(objs)])
    O["no argument"] = st.vmap(lambda o: h(o.a, o.b))()
    O["default axes"] = st.vmap(f2)(x, y.T)
    O["0default axes"] = jnp.stack([f2(o, x[k], y[:, k]) for k, o in enumerate(objs)])
    O["default input axes"] = st.vmap(lambda o, x: x * h(o.a, o.b), out_axes=1)(x)
    O["0default input axes"] = jnp.stack([x[k] * h(o.a, o.b) for k, o in enumerate(objs)], axis=1)
    O["0no argument"] = jnp.stack([h(o.a, o.b) for o in objs])
    return O


case("several arguments", {"x": In(shape=(N, 2)), "y": In(shape=(2, N)), "z": In()}, several)


# -- every output axis; structured outputs ------------------------------------------------------------
def outputs(same, a, b, x):
    st = ObjectStack(*objects(same, N, a, b))
    objs = st.objects
    f = {r: (lambda o, x, r=r: g(o.a, o.b, x if r == 2 else (x[0] if r == 1 else x[0, 0]))) for r in (0, 1, 2)}
    O = {}
    for r in (0, 1, 2):
        for ax in range(-(r + 1), r + 1):
            O[f"rank {r}, axis {ax}"] = st.vmap(f[r], in_axes=None, out_axes=ax)(x)
            O[f"0rank {r}, axis {ax}"] = jnp.stack([f[r](o, x) for o in objs], axis=ax)
    fs = lambda o, x: {"p": (f[1](o, x), f[2](o, x)), "q": f[0](o, x)}  # noqa: E731
    for nm, ax in dict(zero=0, nested={"p": (1, -1), "q": 0}, mixed={"p": 1, "q": -1}, last=-1).items():
        R = st.vmap(fs, in_axes=None, out_axes=ax)(x)
        full = {"zero": (0, 0, 0), "nested": (1, -1, 0), "mixed": (1, 1, -1), "last": (-1, -1, -1)}[nm]
        for k, val, r, axk in (("p0", R["p"][0], 1, full[0]), ("p1", R["p"][1], 2, full[1]), ("q", R["q"], 0, full[2])):
            O[f"{nm} {k}"] = val
            O[f"0{nm} {k}"] = jnp.stack([f[r](o, x) for o in objs], axis=axk)
    O["unmapped output"] = st.vmap(lambda o, x: (x, h(o.a, o.b)), in_axes=None, out_axes=(None, 0))(x)[0]
    O["0unmapped output"] = x
    return O


case("every output axis", {"x": In(shape=(2, 2))}, outputs)


# -- quantities -------------------------------------------------------------------------------------------
def quantities(same, a, b, x):
    st = ObjectStack(*objects(same, N, a, b))
    objs = st.objects
    f = lambda o, q: (g(o.a, o.b, q.to(ureg.day).magnitude) * ureg.m, q * 2.0)  # noqa: E731
    O = {}
    for ax, X in ((0, x), (-1, x.T), (None, x[0])):
        R = st.vmap(f, in_axes=ax)(X * 24.0 * ureg.hour)
        O[f"length {ax}"], O[f"time {ax}"] = R[0].to(ureg.m).magnitude, R[1].to(ureg.day).magnitude
        O[f"0length {ax}"] = jnp.stack([g(o.a, o.b, take(X, ax, k)) for k, o in enumerate(objs)])
        O[f"0time {ax}"] = jnp.stack([2.0 * take(X, ax, k) for k, o in enumerate(objs)])
    return O


case("quantities", {"x": In(shape=(N, 2))}, quantities)


def one_object(same, a, b, x):
    st = ObjectStack(*objects(same, 1, a, b))
    f = lambda o, x: g(o.a, o.b, x)  # noqa: E731
    return {"map": st.vmap(f, in_axes=0)(x[:1]), "0map": f(st.objects[0], x[0])[None], "whole": st.vmap(f, in_axes=None)(x), "0whole": f(st.objects[0], x)[None]}


case("a single object", {"x": In(shape=(N,))}, one_object)


# -- systems map over their bodies ------------------------------------------------------------------------
def system(same, a, b, x):
    bodies = [Body(period=2.0 + a[i], mass=0.1, radius=1.5 + b[i], **({} if same or i != 1 else {"inclination": 1.5})) for i in range(N)]
    s = System(Central(), bodies=bodies)
    obs = [OrbitalBody(Central(), k) for k in bodies]
    f = lambda o, x: g(o.period.to(ureg.day).magnitude, o.radius.to(ureg.R_sun).magnitude, x)  # noqa: E731
    ss = SurfaceSystem(Central(), None, bodies=[(k, Surface(amplitude=b[i], normalize=False, u=() if same or i else (0.1,))) for i, k in enumerate(bodies)])
    fs = lambda u, x: h(u.amplitude, x)  # noqa: E731
    O = {}
    for ax, X in ((0, x), (1, x.T), (None, x[0])):
        O[f"bodies {ax}"] = s.body_vmap(f, in_axes=ax)(X)
        O[f"surface system {ax}"] = ss.body_vmap(f, in_axes=ax)(X)
        O[f"0bodies {ax}"] = O[f"0surface system {ax}"] = jnp.stack([f(o, take(X, ax, k)) for k, o in enumerate(obs)])
        O[f"surfaces {ax}"] = ss.surface_vmap(fs, in_axes=ax)(X)
        O[f"0surfaces {ax}"] = jnp.stack([h(b[k], take(X, ax, k)) for k in range(N)])
    O["out axes"] = s.body_vmap(f, in_axes=0, out_axes=-1)(x)
    O["surface out axes"] = ss.surface_vmap(fs, in_axes=0, out_axes=1)(x)
    O["0out axes"] = jnp.stack([f(o, x[k]) for k, o in enumerate(obs)], axis=-1)
    O["0surface out axes"] = jnp.stack([h(b[k], x[k]) for k in range(N)], axis=1)
    O["default axes"], O["surface system default axes"] = s.body_vmap(f)(x), ss.body_vmap(f)(x)
    O["0default axes"] = O["0surface system default axes"] = jnp.stack([f(o, x[k]) for k, o in enumerate(obs)])
    O["surfaces default axes"] = ss.surface_vmap(fs)(x)
    O["0surfaces default axes"] = jnp.stack([h(b[k], x[k]) for k in range(N)])
    O["radius"] = s.radius.to(ureg.R_sun).magnitude
    O["0radius"] = 1.5 + b
    return O


case("systems", {"x": In(shape=(N, 2))}, system)


# -- mismatched sizes, adding bodies -------------------------------------------------------------------------
def mismatch(ctx):
    for same in (True, False):
        st = ObjectStack(*objects(same, N, jnp.arange(3.0), jnp.arange(3.0)))
        for shape, ax in (((N + 1,), 0), ((2,), 0), ((N, 2), 1), ((N, 2), -1), ((1,), 0)):
            try:
                st.vmap(lambda o, x: o.a + x, in_axes=ax)(jnp.ones(shape))
                ok = False
            except (ValueError, IndexError):
                ok = True
            ctx.ok(f"a mapped argument of the wrong size is an error (shape {shape}, axis {ax}, same structure {same})", ok, {"shape": list(shape), "axis": ax}, "accepted", "error")


HostContract("C14", "wrong sizes are rejected", mismatch, functions=FN)


def equal(a, b):
    return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(
        x is y or bool(jnp.all(jnp.asarray(x) == jnp.asarray(y))) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def adding(ctx):
    kws = [dict(period=1.0, radius=0.1), dict(semimajor=9.0, mass=0.1), dict(period=3.0, eccentricity=0.1, omega_peri=0.3)]
    cen, cen2 = Central(mass=1.2, radius=0.9), Central(mass=0.5, radius=0.7)
    for n in range(4):
        for cls in (System, SurfaceSystem):
            bodies = [Body(**kws[i % 3]) for i in range(n)]
            surf = [Surface(amplitude=0.1 * i, normalize=False) for i in range(n)]
            s = System(cen, bodies=bodies) if cls is System else SurfaceSystem(cen, Surface(u=(0.1,)), bodies=list(zip(bodies, surf)))
            old, olds = s.bodies, getattr(s, "body_surfaces", None)
            for how in ("keywords", "body", "central"):
                if cls is SurfaceSystem and how == "central":
                    continue
                new = dict(period=7.0, mass=0.3)
                sf = Surface(amplitude=9.0, normalize=False)
                extra = {"surface": sf} if cls is SurfaceSystem else {}
                if how == "keywords":
                    t, want = s.add_body(**new, **extra), OrbitalBody(cen, Body(**new))
                elif how == "body":
                    t, want = s.add_body(Body(**new), **extra), OrbitalBody(cen, Body(**new))
                else:
                    t, want = s.add_body(Body(**new), central=cen2), OrbitalBody(cen2, Body(**new))
                tag = f"{cls.__name__}, {n} bodies, {how}"
                ctx.ok("appended: " + tag, type(t) is cls and len(t.bodies) == n + 1 and equal(t.bodies[-1], want), {"case": tag}, t.bodies, want)
                ctx.ok("others kept: " + tag, len(t.bodies) > n and all(equal(a, b) for a, b in zip(t.bodies[:n], old)) and equal(t.central, cen), {"case": tag})
                ctx.ok("original unchanged: " + tag, s.bodies is old and len(s.bodies) == n, {"case": tag})
                if cls is SurfaceSystem:
                    ctx.ok("surfaces: " + tag, len(t.body_surfaces) == n + 1 and equal(t.body_surfaces[-1], sf) and all(equal(a, b) for a, b in zip(t.body_surfaces[:n], olds))
                           and equal(t.central_surface, s.central_surface), {"case": tag})
    sf, sf2 = Surface(amplitude=5.0, normalize=False), Surface(amplitude=6.0, normalize=False)
    sb = SurfaceBody(period=2.0, surface=sf)
    for nm, t, want in (("constructor", SurfaceSystem(cen, bodies=[(sb, None)]), sf), ("constructor, explicit", SurfaceSystem(cen, bodies=[(sb, sf2)]), sf2),
                        ("add_body", SurfaceSystem(cen).add_body(sb), sf), ("add_body, explicit", SurfaceSystem(cen).add_body(sb, sf2), sf2),
                        ("orbital body", SurfaceSystem(cen, bodies=[(OrbitalBody(cen2, Body(period=1.0)), sf2)]), sf2)):
        ctx.ok("surface of a body: " + nm, len(t.body_surfaces) == 1 and t.body_surfaces[0] is not None and equal(t.body_surfaces[0], want), {"case": nm})
    # a system whose bodies are already bound to another central keeps them
    s = SurfaceSystem(cen, bodies=[(OrbitalBody(cen2, Body(period=1.0)), sf2)])
    ctx.ok("bound bodies keep their central", equal(s.bodies[0].central, cen2) and equal(s.add_body(period=2.0).bodies[0].central, cen2), {"case": "bound"})


HostContract("C14", "adding bodies", adding,
             functions=["jaxoplanet.orbits.keplerian.System.__init__", "jaxoplanet.orbits.keplerian.System.add_body", "jaxoplanet.starry.orbit.SurfaceSystem.__init__",
                        "jaxoplanet.starry.orbit.SurfaceSystem.add_body"],
             bounded="systems of 0 to 3 bodies, every way of adding one")


# -- many objects -------------------------------------------------------------------------------------------
def many(ctx):
    rng = np.random.default_rng(14)
    f = lambda o, x, y: {"s": jnp.sin(o.a) * x + o.b * jnp.sum(y), "v": o.a * y - x}  # noqa: E731
    for n in (1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33):
        for same in (True, False):
            a, b = rng.normal(size=n), rng.normal(size=n)
            st = ObjectStack(*[Obj(jnp.asarray(a[i]), jnp.asarray(b[i]), None if same or i % 3 else jnp.asarray(1.0)) for i in range(n)])
            for ax, ay, out in ((0, 0, 0), (None, 1, 0), (0, -1, {"s": 0, "v": 1}), (None, None, -1), (0, None, 0)):
                x = rng.normal(size=n if ax == 0 else ())
                y = rng.normal(size={0: (n, 2), 1: (2, n), -1: (2, n), None: (2,)}[ay])
                got = st.vmap(f, in_axes=(ax, ay), out_axes=out)(jnp.asarray(x), jnp.asarray(y))
                want = [f(o, x if ax is None else x[i], jnp.asarray(y if ay is None else np.take(y, i, axis=ay))) for i, o in enumerate(st.objects)]
                axes = out if isinstance(out, dict) else {"s": out, "v": out}
                ok = all(np.allclose(got[k], np.stack([w[k] for w in want], axis=axes[k]), rtol=0, atol=1e-12) for k in "sv")
                ctx.ok(f"{n} objects, {'shared' if same else 'different'} structure, axes {ax}, {ay}, {out}", ok, {"objects": n, "same": same, "in_axes": [ax, ay], "out_axes": str(out)}, str(got)[:300], str(want)[:300])


HostContract("C14", "many objects", many, functions=FN, bounded="stacks of 1 to 33 objects")
