"""C17 basis changes represent the same function on the disc."""
import math

import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.starry.core import basis as B
from jv import ints
from jv.contract import Contract, HostContract, In

from .sphere import exponents, greens, harmonic, lm, map_value, monomial

F = "jaxoplanet.starry.core.basis."
XY = {"x": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0]), "y": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0])}
XYZ = {k: In(lo=-1, hi=1, edges=[0.0, 1.0]) for k in "xyz"}
SIDES = {"near side": 1.0, "far side": -1.0}


def vec(n):
    return In(shape=(n,), lo=-1, hi=1, edges=[0.0])


def mat(m):
    return jnp.asarray(np.asarray(m.todense(), dtype=float).reshape(m.shape))


def side_points(I, K):
    r2 = I["x"] ** 2 + I["y"] ** 2
    return {k: (I["x"], I["y"], s * K.sqrt(1 - r2)) for k, s in SIDES.items()}


def on_disc(I, K):
    return [K.le(I["x"] ** 2 + I["y"] ** 2, 1.0)]


def at_sides(f, x, y):
    """f(x, y, z) on both sides of the sphere"""
    z = jnp.sqrt(1 - x**2 - y**2)
    return {k: f(x, y, s * z) for k, s in SIDES.items()}


# -- polynomial basis -----------------------------------------------------------------------
def pbasis(deg, tier="quick"):
    N = (deg + 1) ** 2
    Contract("C17", f"polynomial basis of degree {deg}", XYZ, lambda x, y, z: {"p": B.poly_basis(deg)(x, y, z)},
             lambda I, O, K: [K.eq(f"term {n}", O["p"][n], monomial(n, I["x"], I["y"], I["z"])) for n in range(N)], functions=[F + "poly_basis"], n_samples=20, tier=tier)


for deg in (0, 1, 2, 3, 4, 5, 6, 8, 10):
    pbasis(deg)
for deg in (7, 9, 15, 20):
    pbasis(deg, "thorough")


# -- spherical harmonics to polynomials -------------------------------------------------------
def a1(deg, tier="quick"):
    N = (deg + 1) ** 2

    def ens(I, O, K):
        return [K.eq(f"Y_{lm(n)}, {k}", O[k][n], harmonic(*lm(n), *p), scale=1.0) for k, p in side_points(I, K).items() for n in range(N)]

    Contract("C17", f"spherical harmonics as polynomials, degree {deg}", XY, lambda x, y: at_sides(lambda *p: B.poly_basis(deg)(*p) @ mat(B.A1(deg)), x, y), ens,
             requires=on_disc, functions=[F + f for f in ("A1", "_A_impl", "p_Y", "Ylm", "Alm", "Blmjk", "Cpqk", "ptilde")], n_samples=20, tier=tier)


for deg in range(7):
    a1(deg)
for deg in (7, 8, 10, 12):
    a1(deg, "thorough")


def sphere_integral(i, j, k):
    """int x^i y^j z^k over the unit sphere"""
    if i % 2 or j % 2 or k % 2:
        return 0.0
    g = math.gamma
    return 2 * g((i + 1) / 2) * g((j + 1) / 2) * g((k + 1) / 2) / g((i + j + k + 3) / 2)


def orthonormal(ctx):
    for deg in range(13 if ctx.tier == "quick" else 17):
        N = (deg + 1) ** 2
        A = np.asarray(B.A1(deg).todense(), dtype=float).reshape(N, N)
        e = [exponents(n) for n in range(N)]
        G = np.array([[sphere_integral(*(a + b for a, b in zip(p, q))) for q in e] for p in e])
        g = A.T @ G @ A
        err = float(np.abs(g - (4 / np.pi) * np.eye(N)).max())
        ctx.ok(f"degree {deg}", err < 1e-8 * 4 ** max(deg - 8, 0), {"degree": deg}, err, 0.0)


HostContract("C17", "orthogonality on the sphere", orthonormal, functions=[F + "A1"], bounded="degrees 0 to 12 (thorough 16), float64 Gram matrix")


# -- terms of any index ----------------------------------------------------------------------------
MODULES = ["jaxoplanet.starry.core.basis"]


def derivative(terms, axis):
    """of a sum of c x^i y^j z^k on the disc, where z dz/dx = -x"""
    out = []
    for (i, j, k), c in terms:
        e = [i, j, k]
        d = list(e)
        d[axis] = d[axis] - 1
        out.append((tuple(d), c * e[axis]))
        d = list(e)
        d[axis], d[2] = d[axis] + 1, d[2] - 2
        out.append((tuple(d), 0 - c * k))
    return out


def sphere_terms(terms):
    """z^3 = z (1 - x^2 - y^2)"""
    out = []
    for (i, j, k), c in terms:
        out += [((i, j, k), c)] if k in (0, 1) else [((i, j, 1), c), ((i + 2, j, 1), 0 - c), ((i, j + 2, 1), 0 - c)]
    return out


def green_terms(l, m, case):
    """the curl of Green's vector field as Luger et al. (2019), eq. 20, define it"""
    mu, nu = l - m, l + m
    if case == "even":
        return derivative([((mu // 2 + 1, nu // 2, 0), 1)], 0)[:1]
    if case == "centre":
        return [((0, 0, 1), 1)]
    field, axis = {"mu 1, l even": (((l - 2, 0, 3), 1), 1), "mu 1, l odd": (((l - 3, 1, 3), 1), 1), "other": ((((mu - 3) // 2, (nu - 1) // 2, 3), 1), 0)}[case]
    return sphere_terms([((i, j, k), c if axis == 0 else 0 - c) for (i, j, k), c in derivative([field], axis)])


def any_index(ctx):
    try:
        ints.forall(ctx, "monomial", ["l", "m"], lambda l, m: [l >= 0, m <= l, m >= 0 - l], lambda l, m: B.ptilde(l * l + l + m),
                    lambda I, O: [("no negative exponent", (O[0] >= 0) & (O[1] >= 0)), ("z at most once", (O[2] == 0) | (O[2] == 1)), ("total degree", O[0] + O[1] + O[2] == I["l"]),
                                  ("exponents of x and y", O[1] - O[0] == I["m"])], MODULES)
        for case, requires in {"even": lambda l, m: [(l + m) % 2 == 0], "centre": lambda l, m: [l == 1, m == 0], "mu 1, l even": lambda l, m: [m == l - 1, l % 2 == 0, l >= 2],
                               "mu 1, l odd": lambda l, m: [m == l - 1, l % 2 == 1, l >= 3], "other": lambda l, m: [(l + m) % 2 == 1, m <= l - 3]}.items():
            def goals(I, O, case=case):
                terms = list(O.items())
                return [(f"exponents of term {n}", (k[0] >= 0) & (k[1] >= 0) & ((k[2] == 0) | (k[2] == 1)) & (k[0] + k[1] + k[2] <= I["l"])) for n, (k, _) in enumerate(terms)] \
                    + [("some term", len(terms) > 0)] + ints.same_terms(terms, green_terms(I["l"], I["m"], case))

            ints.forall(ctx, f"Green's term, {case}", ["l", "m"], lambda l, m, r=requires: [l >= 0, m <= l, m >= 0 - l, *r(l, m)], lambda l, m: B.gtilde(l * l + l + m), goals, MODULES)
    except ints.OutOfReach as ex:
        ctx.r.obligations = ctx.r.discharged = len(ctx.r.failed)
        ctx.r.demoted = f"out of reach ({ex}): indices below 2500"
        bad = [n for n in range(2500) if tuple(B.ptilde(n)) != tuple(exponents(n))]
        ctx.ok("monomials", not bad, {"n": bad[:1]}, bad[:3], [])


HostContract("C17", "monomials and Green's terms, every index", any_index, functions=[F + "ptilde", F + "gtilde"])


# -- Green's basis ------------------------------------------------------------------------------
def a2(deg, tier="quick"):
    N = (deg + 1) ** 2

    def program(x, y):
        z = jnp.sqrt(1 - x**2 - y**2)
        return {"g": B.poly_basis(deg)(x, y, z) @ mat(B.A2_inv(deg))}

    Contract("C17", f"Green's basis as polynomials, degree {deg}", XY, program,
             lambda I, O, K: [K.eq(f"curl of G_{n}", O["g"][n], greens(n, I["x"], I["y"], K), scale=1.0) for n in range(N)],
             requires=lambda I, K: [K.lt(I["x"] ** 2 + I["y"] ** 2, 1.0), K.lt(0.0, I["x"] ** 2 + I["y"] ** 2)], functions=[F + f for f in ("A2_inv", "_A_impl", "p_G", "gtilde", "ptilde")], n_samples=20, tier=tier)


for deg in range(7):
    a2(deg)
for deg in (7, 8, 10, 14):
    a2(deg, "thorough")


def full(deg, tier="quick"):
    N = (deg + 1) ** 2

    def program(v, x, y):
        with jax.ensure_compile_time_eval():
            change = B.basis(deg)
        z = jnp.sqrt(1 - x**2 - y**2)
        return {"value": B.poly_basis(deg)(x, y, z) @ (mat(B.A2_inv(deg)) @ (change @ v))}

    Contract("C17", f"map in the Green's basis, degree {deg}", {"v": vec(N), **XY}, program,
             lambda I, O, K: [K.eq("same value at every point", O["value"], map_value(I["v"], I["x"], I["y"], K.sqrt(1 - I["x"] ** 2 - I["y"] ** 2)), scale=1.0)],
             requires=on_disc, functions=[F + f for f in ("basis", "A1", "A2_inv")], n_samples=20, tier=tier, ntol=1e-9)


for deg in range(6):
    full(deg)
for deg in (6, 7, 8):
    full(deg, "thorough")


def inverse(ctx):
    for deg in range(16 if ctx.tier == "quick" else 21):
        N = (deg + 1) ** 2
        A, Ai, Bm = (np.asarray(m.todense(), dtype=float).reshape(N, N) for m in (B.A1(deg), B.A2_inv(deg), B.basis(deg)))
        err = float(np.abs(Ai @ Bm - A).max() / np.abs(A).max())
        ctx.ok(f"degree {deg}", err < 1e-9, {"degree": deg}, err, 0.0)
        if deg:
            small = np.asarray(B.A1(deg - 1).todense(), dtype=float).reshape(deg**2, deg**2)
            ctx.ok(f"degrees {deg - 1} and {deg} agree", np.allclose(A[: deg**2, : deg**2], small, rtol=1e-12), {"degree": deg}, None, None)
            small = np.asarray(B.A2_inv(deg - 1).todense(), dtype=float).reshape(deg**2, deg**2)
            ctx.ok(f"Green's basis of degrees {deg - 1} and {deg} agree", np.array_equal(Ai[: deg**2, : deg**2], small), {"degree": deg}, None, None)


HostContract("C17", "Green's basis change inverts the definition", inverse, functions=[F + "basis", F + "A1", F + "A2_inv"], bounded="degrees 0 to 15 (thorough 20), float64 matrices")


# -- limb darkening ---------------------------------------------------------------------------
def limb(deg, tier="quick"):
    def program(x, y, **I):
        u = jnp.concatenate([jnp.ones(1), I["u"]]) if deg else jnp.ones(1)
        return at_sides(lambda *p: B.poly_basis(deg)(*p) @ (u @ jnp.asarray(B.U(deg))), x, y)

    def ens(I, O, K):
        return [K.eq(k, O[k], 1.0 - sum((I["u"][n] * (1 - p[2]) ** (n + 1) for n in range(deg)), 0.0), scale=1.0) for k, p in side_points(I, K).items()]

    Contract("C17", f"limb-darkening law as a polynomial, {deg} coefficients", {**({"u": vec(deg)} if deg else {}), **XY}, program, ens, requires=on_disc,
             functions=[F + f for f in ("U", "u_p", "utilde", "ptilde")], n_samples=20, tier=tier)


for deg in range(8):
    limb(deg)
for deg in (8, 10, 15):
    limb(deg, "thorough")
