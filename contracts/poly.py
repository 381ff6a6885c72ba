"""Ghost polynomials in x, y, z on the unit hemisphere z = sqrt(1 - x^2 - y^2): values in any
arithmetic, products, and integrals over the disc."""
import functools
import math

import numpy as np

from .sphere import exponents, field, lm


class P:
    """{(i, j, k): coefficient}, reduced with z^2 = 1 - x^2 - y^2"""

    __array_ufunc__ = None
    polynomial = True  # terms leave the arithmetic with polynomials to this class

    def __init__(self, d):
        self.d = d

    @staticmethod
    def of(a):
        return a if isinstance(a, P) else P({(0, 0, 0): a})

    def __add__(a, b):
        d = dict(a.d)
        for e, c in P.of(b).d.items():
            d[e] = d[e] + c if e in d else c
        return P(d)

    def __neg__(a):
        return P({e: 0.0 - c for e, c in a.d.items()})

    def __sub__(a, b):
        return a + (-P.of(b))

    def __rsub__(a, b):
        return P.of(b) - a

    def __mul__(a, b):
        out = {}
        for (i, j, k), c in a.d.items():
            for (l, m, n), e in P.of(b).d.items():
                t = c * e
                z = k + n
                todo = [((i + l, j + m, z), t)] if z < 2 else [((i + l, j + m, 0), t), ((i + l + 2, j + m, 0), 0.0 - t), ((i + l, j + m + 2, 0), 0.0 - t)]
                for key, v in todo:
                    out[key] = out[key] + v if key in out else v
        return P(out)

    def __truediv__(a, n):
        return P({e: c / n for e, c in a.d.items()})

    def __pow__(a, n):
        out = P.of(1.0)
        for _ in range(n):
            out = out * a
        return out

    __radd__, __rmul__ = __add__, __mul__

    def diff(a, w):
        """derivative along x (0) or y (1) on the hemisphere: dz/dx = -x/z, so only for terms
        free of z or multiplied by z^3 beforehand (see d_z3)"""
        out = {}
        for e, c in a.d.items():
            if e[2]:
                raise ValueError("derivative of z")
            if e[w]:
                f = list(e)
                f[w] -= 1
                out[tuple(f)] = c * e[w]
        return P(out)


X, Y, Z = P({(1, 0, 0): 1.0}), P({(0, 1, 0): 1.0}), P({(0, 0, 1): 1.0})


def moment(i, j, k):
    """of x^i y^j z^k over the unit disc, z = sqrt(1 - x^2 - y^2)"""
    if i % 2 or j % 2:
        return 0.0
    lg = math.lgamma
    radial = 0.5 * math.exp(lg((i + j) / 2 + 1) + lg(k / 2 + 1) - lg((i + j + k) / 2 + 2))
    return radial * 2 * math.exp(lg((i + 1) / 2) + lg((j + 1) / 2) - lg((i + j) / 2 + 1))


def integral(p):
    return sum((c * moment(*e) for e, c in p.d.items() if moment(*e)), 0.0)


@functools.cache
def greens_poly(n):
    """curl of the n-th field as a polynomial"""
    l, m = lm(n)
    mu, nu = l - m, l + m
    if n == 2:
        return Z
    if nu % 2 == 0:
        return (X ** ((mu + 2) // 2) * Y ** (nu // 2)).diff(0)

    def d_z3(q, w):  # of q z^3
        return q.diff(w) * Z * (P.of(1.0) - X * X - Y * Y) - q * (X if w == 0 else Y) * Z * 3.0

    if mu == 1:
        return -d_z3(X ** (l - 2) if l % 2 == 0 else X ** (l - 3) * Y, 1)
    return d_z3(X ** ((mu - 3) // 2) * Y ** ((nu - 1) // 2), 0)


@functools.cache
def to_greens(deg):
    """matrix from coefficients of the monomials to those of the Green's basis"""
    N = (deg + 1) ** 2
    pos = {exponents(n): n for n in range(N)}
    B = np.zeros((N, N))
    for n in range(N):
        for e, c in greens_poly(n).d.items():
            if c:
                B[pos[e], n] += c
    out = np.linalg.inv(B)
    out[np.abs(out) < 1e-12] = 0.0
    return out


def in_greens(p, deg):
    A = to_greens(deg)
    N = (deg + 1) ** 2
    pos = {exponents(n): n for n in range(N)}
    out = [0.0] * N
    for e, c in p.d.items():
        for n in range(N):
            a = float(A[n, pos[e]])
            if a:
                out[n] = out[n] + a * c
    return out
