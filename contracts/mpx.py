"""Symbolic execution of the arbitrary-precision code: the real functions of
jaxoplanet.starry.multiprecision run on terms, with mpmath replaced by its contract.

The contract of mpmath: exact real arithmetic; quad is any n-point Gauss-Legendre rule (which one is
said by the contract); matrices hold any numbers.  A condition on terms forks the execution, and the
outcomes are joined by the conditions under which they were reached."""
import contextlib
import sys

import numpy as np
from scipy.special import roots_legendre

from jaxoplanet.starry.multiprecision import mp
from jv import terms as tm
from jv.contract import OutOfReach

PKG = "jaxoplanet.starry.multiprecision"
MODULES = [f"{PKG}.{m}" for m in ("solution", "rotation", "basis", "flux", "utils")]


class C:
    """a complex number over terms"""

    __array_ufunc__ = None
    polynomial = True  # terms leave the arithmetic to this class

    def __init__(self, re, im=0.0):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        return C(x.real, x.imag) if isinstance(x, mp.mpc) else C(x)

    def __add__(a, b):
        b = C.of(b)
        return C(plus(a.re, b.re), plus(a.im, b.im))

    def __mul__(a, b):
        if isinstance(b, MX):
            return NotImplemented
        b = C.of(b)
        return C(plus(times(a.re, b.re), -times(a.im, b.im)), plus(times(a.re, b.im), times(a.im, b.re)))

    def __sub__(a, b):
        return a + (-C.of(b))

    def __neg__(a):
        return C(-a.re, -a.im)

    def __truediv__(a, b):
        return C(a.re / b, a.im / b)

    __radd__, __rmul__ = __add__, __mul__

    def __rsub__(a, b):
        return C.of(b) - a

    @property
    def real(self):
        return self.re


def zero(x):
    return not isinstance(x, (tm.T, C)) and x == 0


def plus(a, b):
    return b if zero(a) else a if zero(b) else a + b


def times(a, b):
    return 0 if zero(a) or zero(b) else a * b


def symbolic(x):
    return isinstance(x, (tm.T, C))


class MX:
    """what the code uses of mpmath's matrix, over any numbers"""

    __array_ufunc__ = None
    polynomial = True

    def __init__(self, a, cols=None):
        if isinstance(a, MX):
            self.a = [list(r) for r in a.a]
        elif isinstance(a, mp.matrix):
            self.a = [[a[i, j] for j in range(a.cols)] for i in range(a.rows)]
        elif isinstance(a, int):
            self.a = [[mp.mpf(0)] * (a if cols is None else cols) for _ in range(a)]
        else:
            a = a.tolist() if hasattr(a, "tolist") else list(a)
            self.a = [list(r) if isinstance(r, (list, tuple)) else [r] for r in a]
        self.a = [[up(x) for x in r] for r in self.a]

    @property
    def rows(self):
        return len(self.a)

    @property
    def cols(self):
        return len(self.a[0]) if self.a else 0

    @property
    def T(self):
        return MX([list(c) for c in zip(*self.a)])

    def __len__(self):
        return self.rows * self.cols if 1 in (self.rows, self.cols) else self.rows

    def __iter__(self):
        return iter([x for r in self.a for x in r])

    def tolist(self):
        return [list(r) for r in self.a]

    def apply(self, f):
        return MX([[f(x) for x in r] for r in self.a])

    def key(self, k):
        if isinstance(k, tuple):
            return k
        if self.rows == 1:
            return (0, k)
        if self.cols == 1:
            return (k, 0)
        raise IndexError("insufficient indices for matrix")

    def __getitem__(self, k):
        i, j = self.key(k)
        if not isinstance(i, slice) and not isinstance(j, slice):
            return self.a[int(i)][int(j)]
        ii = range(self.rows)[i] if isinstance(i, slice) else [int(i)]
        jj = range(self.cols)[j] if isinstance(j, slice) else [int(j)]
        return MX([[self.a[p][q] for q in jj] for p in ii])

    def __setitem__(self, k, v):
        i, j = self.key(k)
        if not isinstance(i, slice) and not isinstance(j, slice):
            self.a[int(i)][int(j)] = up(v)
            return
        ii = list(range(self.rows)[i]) if isinstance(i, slice) else [int(i)]
        jj = list(range(self.cols)[j]) if isinstance(j, slice) else [int(j)]
        v = MX(v) if isinstance(v, (MX, mp.matrix)) else None if symbolic(v) else v
        for p, x in enumerate(ii):
            for q, y in enumerate(jj):
                self.a[x][y] = v.a[p][q] if isinstance(v, MX) else up(v)

    def both(self, o, f):
        o = MX(o)
        if (self.rows, self.cols) != (o.rows, o.cols):
            raise ValueError("incompatible dimensions")
        return MX([[f(x, y) for x, y in zip(r, s)] for r, s in zip(self.a, o.a)])

    def __add__(self, o):
        return self.both(o, plus)

    def __sub__(self, o):
        return self.both(o, lambda x, y: plus(x, -y))

    def __neg__(self):
        return self.apply(lambda x: -x)

    def __mul__(self, o):
        if not isinstance(o, (MX, mp.matrix)):
            return self.apply(lambda x: times(x, up(o)))
        o = MX(o)
        if self.cols != o.rows:
            raise ValueError("dimensions not compatible for multiplication")
        cols = list(zip(*o.a))
        return MX([[total(times(x, y) for x, y in zip(r, c)) for c in cols] for r in self.a])

    def __rmul__(self, o):
        return MX(o) * self if isinstance(o, mp.matrix) else self * o

    def __matmul__(self, o):
        return self * (o if isinstance(o, (MX, mp.matrix)) else MX(o))

    def __truediv__(self, o):
        return self.apply(lambda x: x / up(o))

    def __pow__(self, n):
        if n == -1 and not any(symbolic(x) for x in self):
            return MX(mp.matrix(self.a) ** -1)
        raise OutOfReach("power of a matrix")


def total(xs):
    out = mp.mpf(0)
    for x in xs:
        out = plus(out, x)
    return out


def up(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, (tm.T, C, mp.mpf, mp.mpc)):
        return x
    return mp.convert(x)


class Shim:
    """mpmath, on terms"""

    def __init__(self, order, whole, pi, empty):
        self._order, self._whole, self.pi, self._empty = order, whole, pi, empty
        self.matrix = MX

    def __getattr__(self, name):
        real = getattr(mp, name)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            a = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in a]
            if any(symbolic(x) or isinstance(x, MX) for x in [*a, *k.values()]):
                raise OutOfReach(f"mpmath.{name} of terms")
            return real(*a, **k)

        return f

    def zeros(self, n, m=None):
        return MX(n, m)

    def _fn(self, name, *a):
        a = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in a]
        if not any(symbolic(x) for x in a):
            return getattr(mp, name)(*a)
        return tm.sqrt(tm.lift(a[0])) if name == "sqrt" else tm.fn(name, *[tm.lift(x) for x in a])

    def sqrt(self, x):
        return self._fn("sqrt", x)

    def sin(self, x):
        return self._fn("sin", x)

    def cos(self, x):
        return self._fn("cos", x)

    def atan2(self, y, x):
        return self._fn("atan2", y, x)

    def mpf(self, x):
        return x if symbolic(x) else mp.mpf(x)

    def re(self, x):
        return x.re if isinstance(x, C) else x if isinstance(x, tm.T) else mp.re(x)

    def exp(self, x):
        if isinstance(x, C) and zero(x.re):
            return C(self.cos(x.im), self.sin(x.im))
        return self._fn("exp", x)

    def norm(self, m, p=2):
        m = MX(m)
        if not any(symbolic(x) for x in m):
            return mp.norm(mp.matrix(m.a), p=p)
        return self.sqrt(total(x * x for x in m))

    def absmax(self, x):
        return abs(x) if symbolic(x) else mp.absmax(x)

    def lu_solve(self, A, b):
        if any(symbolic(x) for m in (A, b) for x in MX(m)):
            raise OutOfReach("solution of a system of terms")
        return MX(mp.lu_solve(mp.matrix(MX(A).a), mp.matrix(MX(b).a)))

    def quad(self, f, interval):
        """Gauss-Legendre on the whole interval or on its two halves"""
        a, b = interval
        if self._empty and symbolic(b) and bool(tm.eq(tm.lift(a), b)):
            return mp.mpf(0)
        if tm.DECIDE is not None:  # a condition inside the integrand forks that value only
            g = f
            f = lambda x: Fork().run(lambda: [g(x)])[0]  # noqa: E731
        x, w = roots_legendre(self._order)
        out = mp.mpf(0)
        if self._whole:
            mid, half = (a + b) / 2, (b - a) / 2
            for xk, wk in zip(x, w):
                out = plus(out, f(mid + half * float(xk)) * float(wk))
            return up(out * half)
        for lo, hi in ((a, (a + b) / 2), ((a + b) / 2, b)):
            half = (hi - lo) / 2
            for xk, wk in zip(x, w):
                out = plus(out, f((lo + hi) / 2 + half * float(xk)) * float(wk))
        return up(out * ((b - a) / 4))


class Fork:
    """decisions on terms, explored depth first"""

    def __init__(self, limit=400):
        self.limit = limit

    def run(self, f):
        paths, todo = [], [()]
        while todo:
            prefix = todo.pop()
            taken = []

            def decide(t):
                for c, v in taken:
                    if c is t:
                        return v
                    if c is tm.not_(t):
                        return not v
                v = prefix[len(taken)] if len(taken) < len(prefix) else True
                if len(taken) >= len(prefix):
                    todo.append(tuple(x for _, x in taken) + (False,))
                taken.append((t, v))
                return v

            old, tm.DECIDE = tm.DECIDE, decide
            try:
                out = list(f())
            finally:
                tm.DECIDE = old
            paths.append((tm.and_(*[c if v else tm.not_(c) for c, v in taken]) if taken else tm.TRUE, out))
            if len(paths) > self.limit:
                raise OutOfReach("too many paths")
        n = {len(o) for _, o in paths}
        if len(n) != 1:
            raise OutOfReach("the number of outputs depends on the values")
        out = [tm.lift(x) for x in paths[-1][1]]
        for c, o in paths[-2::-1]:
            out = [tm.ite(c, tm.lift(x), y) for x, y in zip(o, out)]
        return out


def choose(best):
    def f(*a):
        a = list(a[0]) if len(a) == 1 else list(a)
        a = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in a]
        out = a[0]
        for x in a[1:]:
            if not symbolic(out) and not symbolic(x):
                out = (min if best is tm.minv else max)(out, x)
            else:
                out = best(tm.lift(out), tm.lift(x))
        return out

    return f


@contextlib.contextmanager
def shimmed(K, order=20, whole=False, empty=False, symbolic_pi=("solution",)):
    saved = []
    for name in MODULES:
        m = sys.modules.get(name)
        if m is None:
            continue
        s = Shim(order, whole, tm.PI if K.symbolic and name.rsplit(".", 1)[1] in symbolic_pi else mp.pi, empty)
        new = {"mp": s, "print": lambda *a, **k: None, "min": choose(tm.minv), "max": choose(tm.maxv)}
        if not hasattr(m, "mp"):
            raise OutOfReach(f"{name} does not take mpmath from the package")
        for k, v in new.items():
            saved.append((m, k, vars(m).get(k, saved)))
            setattr(m, k, v)
    try:
        yield
    finally:
        for m, k, v in saved:
            if v is saved:
                delattr(m, k)
            else:
                setattr(m, k, v)


def number(x):
    x = x.re if isinstance(x, C) else x
    return float(mp.re(x)) if not symbolic(x) else x


def run(K, f, order=20, whole=False, **kw):
    """the outputs of f, a list: terms in a proof, floats on a sample"""
    with shimmed(K, order, whole, **kw):
        if not K.symbolic:
            return [number(x) for x in f()]
        try:
            return Fork().run(f)
        except OutOfReach:
            raise
        except Exception as ex:  # noqa: BLE001
            raise OutOfReach(f"{type(ex).__name__}: {ex}") from ex


def arg(K, x):
    """a value given to the code"""
    if K.symbolic:
        return x
    return mp.mpf(float(x))
