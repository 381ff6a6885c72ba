"""C18 rotating the coefficients of a map rotates the function."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.starry.core import rotation as R
from jv.contract import Contract, HostContract, In

from .dual import DK, D
from .rotations import EULER, MATRICES, S2FFT, SKY, ZYZ, _from_rotvec, about, rodrigues
from .sphere import map_value

F = "jaxoplanet.starry.core.rotation."
XY = {"x": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0]), "y": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0])}
SIDES = {"near side": 1.0, "far side": -1.0}
ANGLE = In(lo=-4, hi=7, edges=[0.0, np.pi / 2, np.pi, -np.pi, 2 * np.pi])


def vec(n):
    return In(shape=(n,), lo=-1, hi=1, edges=[0.0])


def side_points(I, K):
    r2 = I["x"] ** 2 + I["y"] ** 2
    return {k: (I["x"], I["y"], s * K.sqrt(1 - r2)) for k, s in SIDES.items()}


def on_disc(I, K):
    return [K.le(I["x"] ** 2 + I["y"] ** 2, 1.0)]


def same_function(O, v, I, K, move, noise=0.0):
    """the rotated map at every point is the map at the moved point"""
    return [K.eq(k, map_value(O, *p), map_value(v, *move(p)), scale=1.0, noise=noise) for k, p in side_points(I, K).items()]


def about_z(deg, sign, tier="quick"):
    def ens(I, O, K):
        c, s = K.cos(I["theta"]), sign * K.sin(I["theta"])
        return same_function(O["v"], I["v"], I, K, lambda p: rodrigues((0.0, 0.0, 1.0), c, s, p))

    Contract("C18", f"about {'+' if sign > 0 else '-'}z, degree {deg}", {"v": vec((deg + 1) ** 2), "theta": ANGLE, **XY},
             lambda v, theta, **_: {"v": R.dot_rotation_matrix(deg, None, None, sign, theta)(v)}, ens, requires=on_disc, functions=[F + "dot_rotation_matrix", F + "dot_rz"], n_samples=20, tier=tier)


for deg in range(7):
    about_z(deg, 1.0)
for deg in (1, 4):
    about_z(deg, -1.0)


AXIS = {k: In(lo=-1, hi=1, edges=[0.0]) for k in ("ux", "uy", "uz")}


def proper(I, K):
    return [K.lt(0.0, I["ux"] ** 2 + I["uy"] ** 2 + I["uz"] ** 2)]


def by_rodrigues(I, K):
    n = K.sqrt(I["ux"] ** 2 + I["uy"] ** 2 + I["uz"] ** 2)
    u = tuple(I[k] / n for k in ("ux", "uy", "uz"))
    return lambda p: rodrigues(u, K.cos(I["theta"]), K.sin(I["theta"]), p)


def general(deg, tier="quick"):
    """the matrices realise the zyz rotation of the angles of the axis and theta"""
    def ens(I, O, K):
        a, b, c = (K.uf(f, *[I[k] for k in ("ux", "uy", "uz", "theta")]) for f in ZYZ)

        def move(p):
            return about("z", K.cos(c), K.sin(c), about("y", K.cos(b), K.sin(b), about("z", K.cos(a), K.sin(a), p)))

        return same_function(O["v"], I["v"], I, K, move)

    Contract("C18", f"about any axis, degree {deg}", {"v": vec((deg + 1) ** 2), "theta": ANGLE, **AXIS, **XY},
             lambda v, theta, ux, uy, uz, **_: {"v": R.dot_rotation_matrix(deg, ux, uy, uz, theta)(v)}, ens, requires=lambda I, K: on_disc(I, K) + proper(I, K), functions=[F + "dot_rotation_matrix", S2FFT + ".compute_rotation_matrices"], opaque=[EULER], n_samples=20, tier=tier)


def angles_of(I, O, K):
    (a, b, c) = (O[k] for k in "abc")
    zyz = lambda p: about("z", K.cos(c), K.sin(c), about("y", K.cos(b), K.sin(b), about("z", K.cos(a), K.sin(a), p)))  # noqa: E731
    return matrix_goals(K, zyz, by_rodrigues(I, K))


def basis_images(f):
    return [f(e) for e in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))]


def matrix_goals(K, move, ref):
    A, B = basis_images(move), basis_images(ref)
    return [K.eq(f"entry {i}{j}", A[j][i], B[j][i], scale=1.0) for i in range(3) for j in range(3)]


def euler_angles(ux, uy, uz, theta):
    import importlib

    return dict(zip("abc", importlib.import_module(S2FFT).axis_angle_to_euler(ux, uy, uz, theta)))


if EULER.resolve() is not None:
    Contract("C18", "Euler angles of a rotation", {"theta": ANGLE, **AXIS}, euler_angles, angles_of, requires=proper, functions=[S2FFT + ".axis_angle_to_euler"], n_samples=40)
Contract("C18", "about any axis, without lemmas, degree 1", {"v": vec(4), "theta": ANGLE, **AXIS, **XY}, lambda v, theta, ux, uy, uz, **_: {"v": R.dot_rotation_matrix(1, ux, uy, uz, theta)(v)},
         lambda I, O, K: same_function(O["v"], I["v"], I, K, by_rodrigues(I, K)), requires=lambda I, K: on_disc(I, K) + proper(I, K), functions=[F + "dot_rotation_matrix", S2FFT + ".axis_angle_to_euler"], n_samples=20)


general(0)
general(1)
general(2)
general(3)
general(4)
general(5)
general(6)
general(8, "thorough")


# -- the library's part of the argument (used for intensities, C22) ------------------------------
def quat_move(q, p):
    """p rotated by the unit quaternion q = (x, y, z, w)"""
    u, w = q[:3], q[3]
    t = [2 * (u[1] * p[2] - u[2] * p[1]), 2 * (u[2] * p[0] - u[0] * p[2]), 2 * (u[0] * p[1] - u[1] * p[0])]
    return (p[0] + w * t[0] + u[1] * t[2] - u[2] * t[1], p[1] + w * t[1] + u[2] * t[0] - u[0] * t[2], p[2] + w * t[2] + u[0] * t[1] - u[1] * t[0])


def rotvec(I, O, K):
    n = K.sqrt(I["a"] ** 2 + I["b"] ** 2 + I["c"] ** 2)
    q = [O["q"][i] for i in range(4)]
    return matrix_goals(K, lambda p: quat_move(q, p), lambda p: rodrigues(tuple(I[k] / n for k in "abc"), K.cos(n), K.sin(n), p))


Contract("C18", "library: quaternion of a rotation vector", {k: In(lo=-3, hi=3) for k in "abc"}, lambda a, b, c: {"q": _from_rotvec(jnp.stack([a, b, c]), False)}, rotvec,
         requires=lambda I, K: [K.lt(1e-6, I["a"] ** 2 + I["b"] ** 2 + I["c"] ** 2)], n_samples=20)


# -- projections ------------------------------------------------------------------------------
def chain(K, I, given, p, inverse=False):
    """the elementary rotations between the sky and the map, as the documentation defines them:
    phase on the sky, obliquity, inclination, phase about the pole, and the tilt of the pole"""
    def turn(axis, name, sign):
        t = I[name] if name in given else 0.0
        return (axis, K.cos(t), sign * K.sin(t)) if name in given else None

    steps = [turn("z", "theta_z", -1.0), turn("z", "obl", -1.0), turn("x", "inc", 1.0), turn("z", "theta", -1.0), ("x", 0.0, -1.0)]
    if inverse:
        steps = [(a, c, -s) for a, c, s in [t for t in steps if t][::-1]]
    for t in steps:
        if t:
            p = about(*t, p)
    return p


PROJ = ("inc", "obl", "theta", "theta_z")


def project(deg, given, which, tier="quick"):
    f = getattr(R, which)

    def program(v, **I):
        return {"v": f(deg, *[I[k] if k in given else None for k in PROJ], v)}

    def ens(I, O, K):
        return same_function(O["v"], I["v"], I, K, lambda p: chain(K, I, given, p, which == "right_project"), 1e-13)

    Contract("C18", f"{which}: {', '.join(given) or 'nothing'} given, degree {deg}", {"v": vec((deg + 1) ** 2), **{k: ANGLE for k in given}, **XY}, program, ens, requires=on_disc,
             functions=[F + which, F + "dot_rotation_matrix"], opaque=[MATRICES, SKY], n_samples=20, tier=tier)


for which in ("left_project", "right_project"):
    for given in itertools.chain.from_iterable(itertools.combinations(PROJ, k) for k in range(5)):
        project(1, given, which)
    project(2, PROJ, which)
    project(3, PROJ, which, "quick" if which == "left_project" else "thorough")


# -- derivatives ------------------------------------------------------------------------------
def derivatives(which, given, deg, tier="quick"):
    """differentiating the projected map with respect to an angle differentiates the composition"""
    f = getattr(R, which)

    def program(v, **I):
        g = lambda a: f(deg, *[a.get(k) for k in PROJ], v)  # noqa: E731
        a = {k: I[k] for k in given}
        return {k: jax.jvp(g, (a,), ({j: jnp.asarray(float(j == k)) for j in given},))[1] for k in given}

    def ens(I, O, K):
        out = []
        for k in given:
            J = {j: D(I[j], 1.0 if j == k else 0.0) for j in given}
            for side, p in side_points(I, K).items():
                q = chain(DK(K), J, given, tuple(D(t, 0.0) for t in p), which == "right_project")
                out.append(K.eq(f"{k}, {side}", map_value(O[k], *p), D.of(map_value([D(I["v"][n], 0.0) for n in range((deg + 1) ** 2)], *q)).d, scale=1.0, noise=1e-13))
        return out

    def req(I, K):  # no float is exactly an odd multiple of pi
        return on_disc(I, K) + ([K.not_(K.equal(K.cos(I["inc"] / 2), 0.0))] if "inc" in given else [])

    Contract("C18", f"derivatives of {which}: {', '.join(given)} given, degree {deg}", {"v": vec((deg + 1) ** 2), **{k: ANGLE for k in given}, **XY}, program, ens, requires=req, functions=[F + which, F + "dot_rotation_matrix", S2FFT + ".axis_angle_to_euler"], n_samples=20, tier=tier)


for which in ("left_project", "right_project"):
    for given in (("inc",), ("obl",), ("inc", "obl"), PROJ):
        derivatives(which, given, 1)
    derivatives(which, ("inc", "obl"), 2)


def sky(I, O, K):
    u = tuple(O[k] for k in "xyz")
    return matrix_goals(K, lambda p: rodrigues(u, K.cos(O["angle"]), K.sin(O["angle"]), p),
                        lambda p: about("x", K.cos(I["inc"]), K.sin(I["inc"]), about("z", K.cos(I["obl"]), -K.sin(I["obl"]), p)))


def untilted(I, K):
    return K.equal(K.cos(I["inc"] / 2) ** 2 * K.cos(I["obl"] / 2) ** 2, 1.0)


for name, req in (("", lambda I, K: [K.not_(untilted(I, K))]), (", no tilt", lambda I, K: [untilted(I, K)])):
    Contract("C18", "axis and angle of the projection" + name, {"inc": ANGLE, "obl": ANGLE} if not name else {k: In(lo=0, hi=0, edges=[0.0, 4 * np.pi]) for k in ("inc", "obl")},
             lambda inc, obl: dict(zip(("x", "y", "z", "angle"), R.sky_projection_axis_angle(inc, obl))), sky, requires=req, functions=[F + "sky_projection_axis_angle"])


def full_angles(I):
    """the four angles, by half the inclination and the half sum and difference of the others"""
    return {"inc": 2 * I["h"], "obl": I["p"] + I["m"] - I["theta_z"], "theta": I["p"] - I["m"], "theta_z": I["theta_z"]}


def full(I, O, K):
    u = tuple(O[k] for k in "xyz")
    return matrix_goals(K, lambda p: rodrigues(u, K.cos(O["angle"]), K.sin(O["angle"]), p), lambda p: chain(K, full_angles(I), PROJ, p, inverse=True))


def half_cosine(I, K):
    return K.sin(I["h"]) * K.cos(I["m"]) + K.cos(I["h"]) * K.cos(I["p"])


def turned_somewhat(I, K):
    return [K.lt(1e-14, 1 - half_cosine(I, K) / np.sqrt(2.0)), K.lt(1e-14, 1 + half_cosine(I, K) / np.sqrt(2.0))]


Contract("C18", "axis and angle of the whole projection", {k: ANGLE for k in ("h", "p", "m", "theta_z")}, lambda **I: dict(zip(("x", "y", "z", "angle"), R.full_rotation_axis_angle(*[full_angles(I)[k] for k in PROJ]))), full,
         requires=turned_somewhat, steps=lambda I, K: [K.le(half_cosine(I, K) ** 2, 2.0)], functions=[F + "full_rotation_axis_angle"])

# -- corollaries ------------------------------------------------------------------------------
def turned(deg, I, theta):
    return R.dot_rotation_matrix(deg, I["ux"], I["uy"], I["uz"], theta)


for deg in (1, 2):
    Contract("C18", f"no turn, degree {deg}", {"v": vec((deg + 1) ** 2), **AXIS}, lambda v, deg=deg, **I: {"v": turned(deg, I, 0.0)(v), "t": turned(deg, I, None)(v)},
             lambda I, O, K: [K.eq("zero angle", O["v"], I["v"], scale=1.0), K.eq("no angle", O["t"], I["v"])], requires=proper, functions=[F + "dot_rotation_matrix"], n_samples=20)
    Contract("C18", f"successive turns about one axis add, degree {deg}", {"v": vec((deg + 1) ** 2), "a": ANGLE, "b": ANGLE, **AXIS},
             lambda v, a, b, deg=deg, **I: {"two": turned(deg, I, b)(turned(deg, I, a)(v)), "one": turned(deg, I, a + b)(v), "back": turned(deg, I, -a)(turned(deg, I, a)(v)), "opposite": turned(deg, {k: -t for k, t in I.items()}, -a)(v), "a": turned(deg, I, a)(v)},
             lambda I, O, K: [K.eq("sum", O["two"], O["one"], scale=1.0, noise=1e-13), K.eq("inverse", O["back"], I["v"], scale=1.0, noise=1e-13), K.eq("opposite axis", O["opposite"], O["a"], scale=1.0, noise=1e-13)],
             requires=proper, functions=[F + "dot_rotation_matrix"], opaque=[MATRICES], n_samples=20)
    Contract("C18", f"the norm of a degree is preserved, degree {deg}", {"v": vec((deg + 1) ** 2), "theta": ANGLE, **AXIS}, lambda v, theta, deg=deg, **I: {"v": turned(deg, I, theta)(v)},
             lambda I, O, K, deg=deg: [K.eq(f"degree {l}", sum(O["v"][n] ** 2 for n in range(l * l, (l + 1) ** 2)), sum(I["v"][n] ** 2 for n in range(l * l, (l + 1) ** 2)), scale=1.0, noise=1e-13) for l in range(deg + 1)],
             requires=proper, functions=[F + "dot_rotation_matrix"], opaque=[MATRICES], n_samples=20)


# -- every part together, at sampled values ---------------------------------------------------
def brute(v, pts):
    return np.asarray(map_value(v, *pts), dtype=float)


AXES = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0.6, 0.8, 0.0), (0.0, 0.6, -0.8), (1e-9, 0, 1), (1e-5, 1e-5, -1), (0, 0, 3), (2, -1, 5)]
TURNS = [0.0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, 2 * np.pi, 1e-9, 1e-5, 0.3, -2.5, 4.0, 7.0, 3.1415]


def sampled(ctx):
    rng = np.random.default_rng(18)
    top = (1, 2, 5, 10) if ctx.tier == "quick" else (1, 2, 3, 5, 10, 15, 20)
    for deg in top:
        N = (deg + 1) ** 2
        apply = jax.jit(lambda v, x, y, z, t, deg=deg: R.dot_rotation_matrix(deg, x, y, z, t)(v))
        for k, (u, t) in enumerate(itertools.product(AXES + [tuple(rng.normal(size=3)) for _ in range(6)], TURNS)):
            if deg > 5 and k % 5:
                continue
            v, pts = rng.normal(size=N), rng.normal(size=(3, 7))
            pts /= np.linalg.norm(pts, axis=0)
            out = np.asarray(apply(v, *map(float, u), t))
            n = np.asarray(u) / np.linalg.norm(u)
            want = brute(v, rodrigues(n, np.cos(t), np.sin(t), pts))
            ok = np.abs(brute(out, pts) - want).max() < 2e-6 * N and all(abs(np.linalg.norm(out[l * l : (l + 1) ** 2]) - np.linalg.norm(v[l * l : (l + 1) ** 2])) < 1e-6 for l in range(deg + 1))
            ctx.ok(f"degree {deg}, axis {u}, angle {t}", ok, {"degree": deg, "axis": list(map(float, u)), "theta": t, "v": v.tolist()}, brute(out, pts).tolist(), want.tolist())
        proj = [jax.jit(lambda v, *a, f=f, deg=deg: f(deg, *a, v)) for f in (R.left_project, R.right_project, R.fast_direct_left_project)]
        D = [0.0, np.pi / 2, -np.pi / 2, np.pi, 1e-9, 0.004, 1.1, -2.0]
        grid = [tuple(rng.choice(D, size=4)) for _ in range(60)] + [tuple(rng.uniform(-4, 7, size=4)) for _ in range(20)] + [(np.pi / 2 - 0.003, 0.004, 0.005, 0.0), (np.pi / 2, 0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 0.0), (np.pi / 2, 0.0, 0.001, 0.0), (np.pi / 2, 2 * np.pi, 0.0, 0.0)]
        for k, a in enumerate(grid if deg <= 2 else grid[::4]):
            a = tuple(map(float, a))
            v, w, pts = rng.normal(size=N), rng.normal(size=N), rng.normal(size=(3, 7))
            pts /= np.linalg.norm(pts, axis=0)
            want = brute(v, chain(np, dict(zip(PROJ, a)), PROJ, pts))
            l, r, d = (np.asarray(f(x, *a)) for f, x in zip(proj, (v, w, v)))
            bad = [n for n, ok in (("left", np.abs(brute(l, pts) - want).max() < 4e-6 * N), ("adjoint", abs(l @ w - v @ r) < 4e-6 * N), ("direct", np.abs(brute(d, pts) - want).max() < 4e-6 * N)) if not ok]
            ctx.ok(f"projection, degree {deg}, {a}", not bad, {"degree": deg, "angles": list(a), "v": v.tolist()}, bad, "equal to the composition of elementary rotations")


def recursion(ctx):
    """the recursion on Euler angles gives the matrices of the rotated functions"""
    rng = np.random.default_rng(180)
    for deg in (1, 2, 5, 10):
        run = jax.jit(lambda x, y, z, t, deg=deg: R.compute_rotation_matrices(deg, x, y, z, t))
        for k, (u, t) in enumerate(itertools.product(AXES + [tuple(rng.normal(size=3)) for _ in range(6)], TURNS)):
            if deg > 5 and k % 3 or 0 < abs(t) < 1e-6 or 0 < abs(u[0]) < 1e-6:  # its angles are those of a double precision tangent
                continue
            v, pts = rng.normal(size=(deg + 1) ** 2), rng.normal(size=(3, 7))
            pts /= np.linalg.norm(pts, axis=0)
            m = run(*map(float, u), t)
            out = np.concatenate([v[l * l : (l + 1) ** 2] @ np.asarray(m[l]) for l in range(deg + 1)])
            n = np.asarray(u) / np.linalg.norm(u)
            want = brute(v, rodrigues(n, np.cos(t), np.sin(t), pts))
            ctx.ok(f"degree {deg}, axis {u}, angle {t}", len(m) == deg + 1 and np.abs(brute(out, pts) - want).max() < 2e-6 * len(v), {"degree": deg, "axis": list(map(float, u)), "theta": t}, brute(out, pts).tolist(), want.tolist())


HostContract("C18", "recursion of the rotation matrices", recursion, functions=[F + k for k in ("compute_rotation_matrices", "rotar", "dlmn")], bounded="degrees 1, 2, 5, 10, coordinate, degenerate and random axes and angles")
HostContract("C18", "rotations and projections at sampled angles", sampled, functions=[F + k for k in ("dot_rotation_matrix", "left_project", "right_project", "fast_direct_left_project", "full_rotation_axis_angle")] + ["jaxoplanet.starry.core.s2fft_rotation.compute_rotation_matrices"],
             bounded="degrees 1, 2, 5, 10 (thorough to 20), coordinate, degenerate and random axes and angles; the matrices and the library's angles in float64")
