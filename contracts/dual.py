"""Dual numbers over the specification language: ghost definitions differentiated by the rules of calculus."""


class D:
    """a dual number: the ghost definitions of C07 differentiated by the rules of calculus"""

    __array_ufunc__ = None

    def __init__(self, x, d):
        self.x, self.d = x, d

    @staticmethod
    def of(v):
        return v if isinstance(v, D) else D(v, 0.0)

    def __add__(a, b):
        b = D.of(b)
        return D(a.x + b.x, a.d + b.d)

    def __sub__(a, b):
        b = D.of(b)
        return D(a.x - b.x, a.d - b.d)

    def __rsub__(a, b):
        return D(b - a.x, 0.0 - a.d)

    def __mul__(a, b):
        b = D.of(b)
        return D(a.x * b.x, a.x * b.d + a.d * b.x)

    def __truediv__(a, b):
        b = D.of(b)
        return D(a.x / b.x, (a.d * b.x - a.x * b.d) / (b.x * b.x))

    def __rtruediv__(a, b):
        return D.of(b) / a

    def __pow__(a, n):
        return D(a.x**n, n * a.x ** (n - 1) * a.d) if n else D(1.0, 0.0)

    def __neg__(a):
        return D(0.0 - a.x, 0.0 - a.d)

    __radd__, __rmul__ = __add__, __mul__


class DK:
    """the calculus of the functions the ghost definitions use"""

    def __init__(self, K):
        self.K, self.pi = K, D(K.pi, 0.0)

    def sqrt(self, a):
        s = self.K.sqrt(a.x)
        return D(s, a.d / (2.0 * s))

    def cos(self, a):
        a = D.of(a)
        return D(self.K.cos(a.x), 0.0 - self.K.sin(a.x) * a.d)

    def sin(self, a):
        a = D.of(a)
        return D(self.K.sin(a.x), self.K.cos(a.x) * a.d)

    def atan2(self, y, x):
        return D(self.K.atan2(y.x, x.x), (x.x * y.d - y.x * x.d) / (x.x * x.x + y.x * y.x))
