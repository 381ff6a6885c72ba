"""Contracts of the rotation library (jax.scipy.spatial.transform.Rotation) and of the rotation
matrices, used by their callers."""
import functools
import importlib
import math

import jax
import jax.numpy as jnp
import numpy as np
from jax._src.scipy.spatial import transform as lib

from jaxoplanet.starry.core import rotation as R
from jv import terms as tm
from jv import trace as tr
from jv.contract import Callee, Num

from .sphere import harmonic, lm

_from_rotvec = lib._from_rotvec


def concrete(*args):
    return not any(isinstance(a, jax.core.Tracer) for a in args)


class Library(Callee):
    """An assumed contract on the library: only used on symbolic arguments."""

    external = True

    def stub(self):
        real, symbolic = self.resolve(), super().stub()
        return lambda *a: real(*a) if concrete(*a) else symbolic(*a)


def const(xs):
    xs = [x for x in xs]
    return np.array([float(x.data) for x in xs]) if all(tm.isc(x) for x in xs) else None


def numeric(f):
    """f of one vector, elementwise over broadcast components"""
    def g(i):
        def h(*a):
            a = np.broadcast_arrays(*[np.asarray(x, dtype=float) for x in a])
            out = np.empty(a[0].shape)
            for k in np.ndindex(out.shape):
                out[k] = np.asarray(f(jnp.array([x[k] for x in a])))[i]
            return out if out.shape else float(out)
        return h
    return g


QUAT = tuple(f"rotvec_quat_{n}" for n in "xyzw")
real_quat = numeric(lambda v: _from_rotvec(v, False))
for i, n in enumerate(QUAT):
    Num.uf_real[n] = real_quat(i)


def quat_product(a, b):
    """rotate by b, then by a"""
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return (aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw, aw * bw - ax * bx - ay * by - az * bz)


def _quat_model(v, degrees):
    if float(degrees[()].data):
        raise tr.ExtractError("degrees")
    c = const(v)
    angles = full_rotation(v)
    if angles is not None:  # some quaternion of the rotation contracted by Full
        inc, obl, theta, theta_z = angles
        q = (tm.ZERO, tm.ZERO, tm.ZERO, tm.ONE)
        for k, t in ((0, tm.const(math.pi / 2)), (2, theta), (0, -inc), (2, obl), (2, theta_z)):
            h = t / 2
            e = [tm.ZERO] * 3 + [tm.fn("cos", h)]
            e[k] = tm.fn("sin", h)
            q = quat_product(tuple(e), q)
        return [tr.oarr((4,), list(q))]
    if c is not None:
        return [tr.oarr((4,), [tm.const(float(x)) for x in np.asarray(_from_rotvec(jnp.asarray(c), False))])]
    return [tr.oarr((4,), [tm.uf(n, tuple(v)) for n in QUAT])]


FROM_ROTVEC = Library("jax._src.scipy.spatial.transform:_from_rotvec", "from_rotvec", (1, 0), lambda *s: ((4,),), _quat_model,
                      real_uf={n: (lambda *a, n=n: float(Num.uf_real[n](*a))) for n in QUAT})


# -- the angles of a rotation (contract proved in C18) ------------------------------------------
ZYZ = tuple(f"zyz_{n}" for n in ("first", "second", "third"))


def real_zyz(i):
    def f(*a):
        a = np.broadcast_arrays(*[np.asarray(t, dtype=float) for t in a])
        out = np.empty(a[0].shape)
        for k in np.ndindex(out.shape):
            out[k] = np.asarray(importlib.import_module(S2FFT).axis_angle_to_euler(*[jnp.asarray(t[k]) for t in a])[i])
        return out if out.shape else float(out)
    return f


S2FFT = "jaxoplanet.starry.core.s2fft_rotation"
for i, n in enumerate(ZYZ):
    Num.uf_real[n] = real_zyz(i)
EULER = Callee(S2FFT + ":axis_angle_to_euler", "axis_angle_to_euler", (0,) * 4, lambda *s: ((), (), ()), lambda *a: [tr.oarr((), [tm.uf(n, tuple(t[()] for t in a))]) for n in ZYZ],
               real_uf={n: (lambda *a, n=n: float(Num.uf_real[n](*a))) for n in ZYZ})


# -- rotations as ghost functions -------------------------------------------------------------
def rodrigues(u, c, s, p):
    """p rotated about the unit vector u"""
    d = u[0] * p[0] + u[1] * p[1] + u[2] * p[2]
    cr = (u[1] * p[2] - u[2] * p[1], u[2] * p[0] - u[0] * p[2], u[0] * p[1] - u[1] * p[0])
    return tuple(c * a + s * b + (1 - c) * d * e for a, b, e in zip(p, cr, u))


def about(axis, c, s, p):
    """p rotated about a coordinate axis"""
    i, j = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[axis]
    q = list(p)
    q[i], q[j] = c * p[i] - s * p[j], s * p[i] + c * p[j]
    return tuple(q)


# -- the contract of the rotation matrices (proved in C18) -------------------------------------
@functools.cache
def design(l):
    """2l+1 points of the sphere and the inverse of the harmonics there"""
    rng = np.random.default_rng(100 + l)
    best = None
    for _ in range(50):
        p = rng.normal(size=(2 * l + 1, 3))
        p /= np.linalg.norm(p, axis=1)[:, None]
        B = np.array([[harmonic(l, m, *q) for q in p] for m in range(-l, l + 1)], dtype=float)
        if best is None or np.linalg.cond(B) < best[0]:
            best = np.linalg.cond(B), p, np.linalg.inv(B)
    return best[1], best[2]


def rotation_blocks(deg, u, c, s):
    return blocks(deg, lambda p: rodrigues(u, c, s, p))


def blocks(deg, move):
    """blocks R_l with Y_l(R p) = R_l Y_l(p), by evaluating at the points of a design"""
    out = []
    for l in range(deg + 1):
        p, inv = design(l)
        moved = [move(tuple(float(x) for x in q)) for q in p]
        rows = []
        for m in range(-l, l + 1):
            y = [harmonic(l, m, *q) for q in moved]
            rows.append([sum((tr.up(y[k]) * float(inv[k, j]) for k in range(2 * l + 1)), tm.ZERO) for j in range(2 * l + 1)])
        out.append(rows)
    return out


SKY_NAMES = tuple(f"sky_axis_{n}" for n in "xyz") + ("sky_angle",)


def real_sky(i):
    def f(inc, obl):
        inc, obl = np.broadcast_arrays(np.asarray(inc, dtype=float), np.asarray(obl, dtype=float))
        out = np.empty(inc.shape)
        for k in np.ndindex(out.shape):
            out[k] = np.asarray(R.sky_projection_axis_angle(jnp.asarray(inc[k]), jnp.asarray(obl[k]))[i])
        return out if out.shape else float(out)
    return f


for i, n in enumerate(SKY_NAMES):
    Num.uf_real[n] = real_sky(i)


class Sky(Callee):
    """sky_projection_axis_angle(inc, obl), both given: the axis and angle of the rotation by inc
    about x after the one by -obl about z."""

    def __init__(self):
        self.path, self.name, self.jvp, self.real_uf = "jaxoplanet.starry.core.rotation:sky_projection_axis_angle", "sky_axis_angle", None, {n: (lambda *a, n=n: float(Num.uf_real[n](*a))) for n in SKY_NAMES}

    def stub(self):
        real = self.resolve()

        def call(inc, obl):
            if inc is None or obl is None or concrete(inc, obl):
                return real(inc, obl)
            if self.name not in tr.Opaque.registry:
                tr.Opaque(self.name, None, (0, 0), lambda *s: ((), (), (), ()), lambda i, o: [tr.oarr((), [tm.uf(n, (i[()], o[()]))]) for n in SKY_NAMES])
            return tuple(tr.opaque_call(self.name, inc, obl))

        return call


def signed_uf(t):
    """(sign, name, arguments) of plus or minus an uninterpreted function"""
    for s, u in ((1, t), (-1, -t)):
        if u.op == "uf":
            return s, u.data[0], u.args
    return None


def sky_rotation(axis, angle):
    """the rotation contracted by Sky, or its inverse, when axis and angle are its results"""
    found = [signed_uf(t) for t in (*axis, angle)]
    if any(f is None or f[1] != n or f[2] != found[0][2] for f, n in zip(found, SKY_NAMES)) or len({f[0] for f in found[:3]}) != 1:
        return None
    inc, obl = found[0][2]
    ci, si, co, so = tm.fn("cos", inc), tm.fn("sin", inc), tm.fn("cos", obl), tm.fn("sin", obl)
    if found[0][0] * found[3][0] > 0:
        return lambda p: about("x", ci, si, about("z", co, -so, p))
    return lambda p: about("z", co, so, about("x", ci, -si, p))


SKY = Sky()


class Matrices(Callee):
    """compute_rotation_matrices(deg, x, y, z, theta): rotating the coefficients with the
    matrices composes the map with the rotation by theta about (x, y, z)."""

    def __init__(self):
        self.path, self.name, self.jvp, self.real_uf = "jaxoplanet.starry.core.s2fft_rotation:compute_rotation_matrices", "rotation_matrices", None, {}

    def stub(self):
        real = self.resolve()

        def call(deg, x, y, z, theta, homogeneous=False):
            if homogeneous or concrete(x, y, z, theta):
                return real(deg, x, y, z, theta, homogeneous)
            name = f"rotation_matrices_{deg}"
            if name not in tr.Opaque.registry:
                def model(x, y, z, theta):
                    a = [t[()] for t in (x, y, z)]
                    move = sky_rotation(a, theta[()])
                    if move is not None:
                        return [tr.oarr((len(r), len(r)), [t for row in r for t in row]) for r in blocks(deg, move)]
                    n = tm.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])
                    R = rotation_blocks(deg, [t / n for t in a], tm.fn("cos", theta[()]), tm.fn("sin", theta[()]))
                    return [tr.oarr((len(r), len(r)), [t for row in r for t in row]) for r in R]

                tr.Opaque(name, None, (0, 0, 0, 0), lambda *s: tuple((2 * l + 1, 2 * l + 1) for l in range(deg + 1)), model)
            return list(tr.opaque_call(name, x, y, z, theta))

        return call


MATRICES = Matrices()


FULL_NAMES = tuple(f"full_axis_{n}" for n in "xyz") + ("full_angle",)


def real_full(i):
    def f(*a):
        a = np.broadcast_arrays(*[np.asarray(t, dtype=float) for t in a])
        out = np.empty(a[0].shape)
        for k in np.ndindex(out.shape):
            out[k] = np.asarray(R.full_rotation_axis_angle(*[jnp.asarray(t[k]) for t in a])[i])
        return out if out.shape else float(out)
    return f


for i, n in enumerate(FULL_NAMES):
    Num.uf_real[n] = real_full(i)


class Full(Callee):
    """full_rotation_axis_angle: the axis and angle of the inverse of the whole projection."""

    def __init__(self):
        self.path, self.name, self.jvp, self.real_uf = "jaxoplanet.starry.core.rotation:full_rotation_axis_angle", "full_axis_angle", None, {n: (lambda *a, n=n: float(Num.uf_real[n](*a))) for n in FULL_NAMES}

    def stub(self):
        real = self.resolve()

        def call(*angles):
            if any(a is None for a in angles) or concrete(*angles):
                return real(*angles)
            if self.name not in tr.Opaque.registry:
                tr.Opaque(self.name, None, (0,) * 4, lambda *s: ((), (), (), ()), lambda *a: [tr.oarr((), [tm.uf(n, tuple(t[()] for t in a))]) for n in FULL_NAMES])
            return tuple(tr.opaque_call(self.name, *angles))

        return call


def full_rotation(v):
    """the four angles when v is the axis times the angle of Full"""
    found = None
    for t, n in zip(v, FULL_NAMES):
        if t.op != "mul":
            return None
        names = {a.data[0]: a.args for a in t.args if a.op == "uf"}
        if set(names) != {n, "full_angle"} or len(set(names.values())) != 1 or found not in (None, names[n]):
            return None
        found = names[n]
    return found


FULL = Full()
