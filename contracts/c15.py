"""C15 polynomial algebra on the sphere."""
import jax.numpy as jnp
import numpy as np

from jaxoplanet.starry.core.polynomials import Pijk, polynomial_product_matrix
from jv import ints
from jv.contract import Contract, HostContract, In

from .sphere import exponents, value

F = "jaxoplanet.starry.core.polynomials."
XY = {"x": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0]), "y": In(lo=-0.7, hi=0.7, edges=[0.0, 1.0])}
SIDES = {"near side": 1.0, "far side": -1.0}


def sphere(I, K):
    return [K.le(I["x"] ** 2 + I["y"] ** 2, 1.0)]


def point(I, K, side):
    return I["x"], I["y"], SIDES[side] * K.sqrt(1 - I["x"] ** 2 - I["y"] ** 2)


def vec(n):
    return In(shape=(n,), lo=-1, hi=1, edges=[0.0])


def pointwise(name, ins, program, ref, functions, tier="quick"):
    """program(**coefficients) -> dense vectors; ref(values, coefficients) -> what they are worth at a point"""

    def ens(I, O, K):
        return [K.eq(f"{k}, {side}", value(O[k], *point(I, K, side)), ref(I, K, lambda v, side=side: value(v, *point(I, K, side)), point(I, K, side))[k], scale=1.0) for side in SIDES for k in O]

    Contract("C15", name, {**ins, **XY}, lambda x, y, **I: program(**I), ens, requires=sphere, functions=functions, n_samples=20, tier=tier)


# -- ordering -------------------------------------------------------------------------------
def ordering(ctx):
    N = 250000 if ctx.tier == "thorough" else 40000
    seen = set()
    for n in range(N):
        l, m = Pijk.n2lm(n)
        ijk = Pijk.n2ijk(n)
        good = -l <= m <= l and l * l <= n < (l + 1) ** 2 and Pijk.lm2n(l, m) == n and tuple(ijk) == exponents(n) and tuple(Pijk.lm2ijk(l, m)) == tuple(ijk) \
            and tuple(Pijk.ijk2lm(*ijk)) == (l, m) and Pijk({ijk: 1.0}).index(*ijk) == n and min(ijk) >= 0 and sum(ijk) == l and tuple(ijk) not in seen
        seen.add(tuple(ijk))
        if not good:
            ctx.ok(f"index {n}", False, {"n": n}, (l, m, ijk), exponents(n))
            return
    ctx.ok("every index below the bound", True)


# -- ordering, of every index --------------------------------------------------------------------
MODULES = ["jaxoplanet.starry.core.polynomials"]


def every_index(ctx):
    P = Pijk
    try:
        ints.forall(ctx, "index to orders", ["n"], lambda n: [n >= 0], lambda n: (P.n2lm(n), P.lm2n(*P.n2lm(n))),
                    lambda I, O: [("degree is not negative", O[0][0] >= 0), ("order is at most the degree", (-O[0][0] <= O[0][1]) & (O[0][1] <= O[0][0])), ("inverse", O[1] == I["n"]),
                                  ("degrees are consecutive", (O[0][0] * O[0][0] <= I["n"]) & (I["n"] < (O[0][0] + 1) * (O[0][0] + 1)))], MODULES)
        ints.forall(ctx, "orders to index", ["l", "m"], proper_orders, lambda l, m: P.n2lm(P.lm2n(l, m)),
                    lambda I, O: [("same degree", O[0] == I["l"]), ("same order", O[1] == I["m"])], MODULES)
        ints.forall(ctx, "orders to exponents", ["l", "m"], proper_orders, lambda l, m: (P.lm2ijk(l, m), P.ijk2lm(*P.lm2ijk(l, m))), orders_to_exponents, MODULES)
        ints.forall(ctx, "exponents to orders", ["i", "j", "k"], lambda i, j, k: [i >= 0, j >= 0, k >= 0, k <= 1], lambda i, j, k: (P.ijk2lm(i, j, k), P.lm2ijk(*P.ijk2lm(i, j, k)), P({(0, 0, 0): 1.0}).index(i, j, k)),
                    lambda I, O: [("degree", O[0][0] == I["i"] + I["j"] + I["k"]), ("order", O[0][1] == I["j"] - I["i"]), *[(f"same exponent of {v}", e == I[s]) for v, e, s in zip("xyz", O[1], "ijk")],
                                  ("place in the vector", O[2] == O[0][0] * O[0][0] + O[0][0] + O[0][1])], MODULES)
        ints.forall(ctx, "index to exponents", ["n"], lambda n: [n >= 0], lambda n: (P.n2ijk(n), P.n2lm(n), P({(0, 0, 0): 1.0}).index(*P.n2ijk(n)), P.ijk2lm(*P.n2ijk(n))),
                    lambda I, O: orders_to_exponents({"l": O[1][0], "m": O[1][1]}, (O[0], O[3])) + [("inverse", O[2] == I["n"])], MODULES)
    except ints.OutOfReach as ex:
        ctx.r.obligations = ctx.r.discharged = len(ctx.r.failed)
        ctx.r.demoted = f"out of reach ({ex}): indices below 40000"
        ordering(ctx)


def proper_orders(l, m):
    return [l >= 0, m <= l, m >= 0 - l]


def orders_to_exponents(I, O):
    """x^((l-m)/2) y^((l+m)/2), or with z for odd l + m"""
    (i, j, k), (l, m) = O
    return [("no negative exponent", (i >= 0) & (j >= 0)), ("z at most once", (k == 0) | (k == 1)), ("total degree", i + j + k == I["l"]), ("exponents of x and y", j - i == I["m"]),
            ("same degree", l == I["l"]), ("same order", m == I["m"])]


HostContract("C15", "ordering of monomials, every index", every_index, functions=[F + "Pijk." + k for k in ("n2lm", "lm2n", "lm2ijk", "ijk2lm", "n2ijk", "index")])
HostContract("C15", "ordering of monomials is a bijection", ordering, bounded="indices below 40000 (degree 199); thorough 250000 (degree 499)",
             functions=[F + "Pijk.n2lm", F + "Pijk.lm2n", F + "Pijk.lm2ijk", F + "Pijk.ijk2lm", F + "Pijk.n2ijk", F + "Pijk.index"])


# -- dense vectors ----------------------------------------------------------------------------
def dense(n):
    full = int(np.ceil(np.sqrt(n))) ** 2

    def ens(I, O, K):
        return [K.eq("same vector", O["v"], np.concatenate([I["v"], np.zeros(full - n)]) if full > n else I["v"])] + [K.eq("coefficient by exponents", O["c"][k], I["v"][k]) for k in range(n)]

    Contract("C15", f"to and from a dense vector of {n} coefficients", {"v": vec(n)},
             lambda v: {"v": Pijk.from_dense(v).todense(), "c": jnp.stack([Pijk.from_dense(v)[exponents(k)] for k in range(n)])}, ens,
             functions=[F + "Pijk.from_dense", F + "Pijk.todense", F + "Pijk.tosparse", F + "Pijk.__getitem__"], n_samples=20)


for n in (1, 2, 3, 4, 6, 9, 13, 16, 25, 49):
    dense(n)


def explicit(n, degree):
    Contract("C15", f"dense vector of {n} coefficients, degree {degree}", {"v": vec(n)}, lambda v: {"v": Pijk.from_dense(v, degree=degree).todense()},
             lambda I, O, K: [K.eq("padded", O["v"], np.concatenate([I["v"], np.zeros((degree + 1) ** 2 - n)]))], functions=[F + "Pijk.from_dense", F + "Pijk.todense"], n_samples=20)


for n, degree in ((1, 2), (4, 3), (9, 4)):
    explicit(n, degree)


# -- algebra ------------------------------------------------------------------------------------
def keys_of(seed, n, deg):
    """n distinct monomials of degree at most deg, in a scrambled order"""
    rng = np.random.default_rng(seed)
    return [exponents(int(k)) for k in rng.permutation((deg + 1) ** 2)[:n]]


def terms(keys, v):
    return Pijk({k: v[i] for i, k in enumerate(keys)})


def worth(keys, v, p):
    x, y, z = p
    out = 0.0
    for n, (i, j, k) in enumerate(keys):
        t = v[n]
        for b, e in ((x, i), (y, j), (z, k)):
            t = t * b**e if e else t
        out = out + t
    return out


ALG = [F + f for f in ("Pijk.__init__", "Pijk.__add__", "Pijk.__mul__", "Pijk.__rmul__", "_add", "_mul", "Pijk.todense", "Pijk.from_dense")]


def algebra_dense(d1, d2, tier="quick"):
    def program(a, b, c):
        p, q = Pijk.from_dense(a), Pijk.from_dense(b)
        return {"sum": (p + q).todense(), "sum, swapped": (q + p).todense(), "product": (p * q).todense(), "multiple": (p * c).todense(), "multiple from the left": (c * p).todense(),
                "constant added": (p + c).todense()}

    def ref(I, K, val, p):
        a, b, c = val(I["a"]), val(I["b"]), I["c"]
        return {"sum": a + b, "sum, swapped": a + b, "product": a * b, "multiple": a * c, "multiple from the left": a * c, "constant added": a + c}

    pointwise(f"sum, product and multiple, degrees {d1} and {d2}", {"a": vec((d1 + 1) ** 2), "b": vec((d2 + 1) ** 2), "c": In(lo=-2, hi=2, edges=[0.0])}, program, ref, ALG, tier)


for d1, d2 in ((0, 0), (0, 2), (1, 1), (2, 1), (1, 3), (2, 2)):
    algebra_dense(d1, d2)
for d1, d2 in ((3, 3), (4, 2), (2, 5)):
    algebra_dense(d1, d2, "thorough")


def algebra_sparse(seed, n1, n2, deg):
    k1, k2 = keys_of(seed, n1, deg), keys_of(seed + 1000, n2, deg)
    if n2 > 2:
        k2 = list(dict.fromkeys(k1[:1] + k2))[:n2]  # a shared monomial

    def program(a, b, c):
        p, q = terms(k1, a), terms(k2, b)
        return {"map": p.todense(), "sum": (p + q).todense(), "product": (p * q).todense(), "product, swapped": (q * p).todense(), "multiple": (p * c).todense(),
                "constant added": (q + c).todense(), "triple product": ((p * q) * p).todense() if n1 < 4 else (p * c).todense()}

    def ref(I, K, val, pt):
        a, b, c = worth(k1, I["a"], pt), worth(k2, I["b"], pt), I["c"]
        return {"map": a, "sum": a + b, "product": a * b, "product, swapped": a * b, "multiple": a * c, "constant added": b + c, "triple product": a * b * a if n1 < 4 else a * c}

    pointwise(f"sparse polynomials of {n1} and {n2} terms up to degree {deg} ({seed})", {"a": vec(n1), "b": vec(n2), "c": In(lo=-2, hi=2, edges=[0.0])}, program, ref, ALG)


for seed, n1, n2, deg in ((1, 1, 1, 1), (2, 3, 3, 2), (3, 2, 5, 4), (4, 5, 4, 6), (5, 3, 3, 12), (6, 1, 2, 20)):
    algebra_sparse(seed, n1, n2, deg)

# the vector polynomials of interest: the line-of-sight velocity field is x, y combinations
for name, k1, k2 in (("z squared", [(0, 0, 1)], [(0, 0, 1)]), ("z times z terms", [(1, 0, 1), (0, 1, 1)], [(0, 0, 1), (2, 1, 1)])):

    def program(a, b, k1=k1, k2=k2):
        return {"product": (terms(k1, a) * terms(k2, b)).todense()}

    def ref(I, K, val, pt, k1=k1, k2=k2):
        return {"product": worth(k1, I["a"], pt) * worth(k2, I["b"], pt)}

    pointwise(name, {"a": vec(len(k1)), "b": vec(len(k2))}, program, ref, ALG)


# -- product as a matrix ------------------------------------------------------------------------
def matrix(dp, dq, tier="quick"):
    def program(p, q):
        return {"M @ q": polynomial_product_matrix(p, dq) @ q}

    pointwise(f"product matrix, degrees {dp} and {dq}", {"p": vec((dp + 1) ** 2), "q": vec((dq + 1) ** 2)}, program,
              lambda I, K, val, pt: {"M @ q": val(I["p"]) * val(I["q"])}, [F + "polynomial_product_matrix"], tier)


for dp, dq in ((0, 0), (0, 2), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)):
    matrix(dp, dq)
for dp, dq in ((3, 2), (2, 4), (3, 3)):
    matrix(dp, dq, "thorough")
