"""Ghost definitions on the unit sphere: the monomial basis in the documented ordering."""
import math



def exponents(n):
    """the n-th monomial: within each degree l the powers run x^l, x^(l-1) z, x^(l-1) y,
    x^(l-2) y z, ..., y^l, and every second one carries the factor z"""
    l = 0
    while (l + 1) ** 2 <= n:
        l += 1
    s = n - l * l
    h = s // 2
    return (l - h, h, 0) if s % 2 == 0 else (l - 1 - h, h, 1)


def monomial(n, x, y, z):
    i, j, k = exponents(n)
    out = 1.0
    for b, p in ((x, i), (y, j), (z, k)):
        if p:
            out = out * b**p
    return out


def value(v, x, y, z):
    """the polynomial with coefficients v at (x, y, z)"""
    return sum((v[n] * monomial(n, x, y, z) for n in range(len(v))), 0.0)


def keyed(d, x, y, z):
    return sum((c * x**i * y**j * z**k if k else c * x**i * y**j if i and j else c * (x**i if i else y**j if j else 1.0) for (i, j, k), c in d.items()), 0.0)


def harmonic(l, m, x, y, z):
    """real spherical harmonic, polar axis z, no Condon-Shortley phase, orthonormal on the sphere
    up to the factor 2/sqrt(pi) of starry's convention:
    (2/sqrt(pi)) N_lm P_l^|m|(z) {Re, Im} (x + i y)^|m|, by the standard recursions"""
    a = abs(m)
    re, im = 1.0, 0.0
    for k in range(a):
        re, im = (x, y) if k == 0 else (re * x - im * y, re * y + im * x)
    pmm = 1.0
    for k in range(1, a + 1):
        pmm = pmm * (2 * k - 1)
    prev, cur = 0.0, pmm
    for n in range(a + 1, l + 1):
        prev, cur = cur, ((2 * n - 1) * z * cur - (n + a - 1) * prev) / (n - a)
    norm = math.sqrt((2 - (m == 0)) * (2 * l + 1) * math.factorial(l - a) / (4 * math.pi * math.factorial(l + a)))
    return (2 / math.sqrt(math.pi)) * norm * cur * (re if m >= 0 else im)


def lm(n):
    l = math.isqrt(n)
    return l, n - l * l - l


def map_value(v, x, y, z):
    return sum((v[n] * harmonic(*lm(n), x, y, z) for n in range(len(v))), 0.0)


def field(n, x, y, z):
    """the vector field G_n of Luger et al. (2019) whose curl is the n-th Green's basis term"""
    l, m = lm(n)
    mu, nu = l - m, l + m
    p = lambda b, e: b**e if e else 1.0  # noqa: E731
    if nu % 2 == 0:
        return 0.0, p(x, (mu + 2) // 2) * p(y, nu // 2)
    if l == 1:
        f = (1 - z**3) / (3 * (1 - z * z))
        return 0.0 - f * y, f * x
    if mu == 1:
        return (p(x, l - 2) if l % 2 == 0 else p(x, l - 3) * y) * z**3, 0.0
    return 0.0, p(x, (mu - 3) // 2) * p(y, (nu - 1) // 2) * z**3


def greens(n, x, y, K):
    """curl of G_n on the visible disc, by the rules of calculus"""
    from .dual import DK, D

    k = DK(K)
    d = []
    for dx, dy, c in ((1.0, 0.0, 1), (0.0, 1.0, 0)):
        X, Y = D(x, dx), D(y, dy)
        d.append(D.of(field(n, X, Y, k.sqrt(1.0 - X * X - Y * Y))[c]).d)
    return d[0] - d[1]
