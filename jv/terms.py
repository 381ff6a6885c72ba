"""Hash-consed real/boolean terms: the language in which extracted programs and contract
clauses are written.  Semantics: mathematical reals (floats are read as the reals they
denote); booleans classical."""
from __future__ import annotations

import gmpy2
import numpy as np
from gmpy2 import mpq

_table: dict = {}
_counter = [0]

PI_Q = mpq(
    gmpy2.mpz(31415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679),
    gmpy2.mpz(10) ** 100,
)


class T:
    __slots__ = ("op", "args", "id", "kind", "data", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, op, args, kind, data):
        self.op, self.args, self.kind, self.data = op, args, kind, data
        _counter[0] += 1
        self.id = _counter[0]

    def __hash__(self):
        return self.id

    def __eq__(self, o):  # structural identity only; use terms.eq for formulas
        if DECIDE is not None and self is not o and (isinstance(o, (T, int, float)) or hasattr(o, "_mpf_")):
            return bool(eq(self, lift(o)))
        return self is o

    def __repr__(self):
        return show(self)

    # arithmetic sugar -----------------------------------------------------
    def __add__(self, o):
        return _bin(add, self, o)

    def __radd__(self, o):
        return _bin(add, o, self)

    def __sub__(self, o):
        return _bin(sub, self, o)

    def __rsub__(self, o):
        return _bin(sub, o, self)

    def __mul__(self, o):
        return _bin(mul, self, o)

    def __rmul__(self, o):
        return _bin(mul, o, self)

    def __truediv__(self, o):
        return _bin(div, self, o)

    def __rtruediv__(self, o):
        return _bin(div, o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return power(self, o)

    def __abs__(self):
        return absv(self)

    def __lt__(self, o):
        return _bin(lt, self, o)

    def __le__(self, o):
        return _bin(le, self, o)

    def __gt__(self, o):
        return _bin(lt, o, self)

    def __ge__(self, o):
        return _bin(le, o, self)

    def __and__(self, o):
        return and_(self, liftb(o))

    def __or__(self, o):
        return or_(self, liftb(o))

    def __rand__(self, o):
        return and_(liftb(o), self)

    def __ror__(self, o):
        return or_(liftb(o), self)

    def __invert__(self):
        return not_(self)

    @property
    def real(self):
        return self

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        if DECIDE is not None:
            return DECIDE(self if self.kind == "b" else not_(eq(self, ZERO)))
        raise TypeError("symbolic term used as a Python bool")


DECIDE = None  # how an execution on terms forks


def _bin(f, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        arr, left = (a, True) if isinstance(a, np.ndarray) else (b, False)
        out = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(arr.shape):
            x = arr[i] if isinstance(arr[i], T) else lift(arr[i])
            out[i] = f(x, b) if left else f(a, x)
        return out
    if getattr(a, "polynomial", False) or getattr(b, "polynomial", False):
        return NotImplemented
    return f(lift(a), lift(b))


def _mk(op, args=(), kind="r", data=None):
    key = (op, tuple(a.id for a in args), data)
    t = _table.get(key)
    if t is None:
        t = T(op, tuple(args), kind, data)
        _table[key] = t
    return t


def reset():
    _table.clear()


TRUE = T("true", (), "b", None)
FALSE = T("false", (), "b", None)


def toq(x):
    if hasattr(x, "_mpf_"):  # arbitrary-precision floats are rationals
        sign, man, exp, _ = x._mpf_
        man = -mpq(int(man)) if sign else mpq(int(man))
        return man * mpq(2) ** exp if exp >= 0 else man / mpq(2) ** (-exp)
    if isinstance(x, (bool, np.bool_)):
        return mpq(int(x))
    if isinstance(x, (int, np.integer)):
        return mpq(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise ValueError(f"non-finite constant {x}")
        return mpq(x)
    return mpq(x)


def const(x):
    return _mk("const", (), "r", toq(x))


def lift(x):
    if isinstance(x, T):
        if x.kind == "b":
            return ite(x, ONE, ZERO)
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (float, np.floating)) and not np.isfinite(x):
        return _mk("nonfinite", (), "r", str(float(x)))
    return const(x)


def liftb(x):
    if isinstance(x, T):
        if x.kind == "b":
            return x
        return not_(eq(x, ZERO))
    return TRUE if bool(x) else FALSE


def var(name, integer=False):
    return _mk("ivar" if integer else "var", (), "r", name)


ZERO = const(0)
ONE = const(1)
PI = const(PI_Q)


def isc(t):
    return t.op == "const"


_HALF_ULP = mpq(1, 2**52)


def add(a, b):
    if isc(a) and isc(b):
        c = a.data + b.data
        # a difference below half an ulp of the literals that made it is zero
        if c and abs(c) <= _HALF_ULP * abs(a.data):
            return ZERO
        return const(c)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b))


def sumof(ts):
    ts = [t for t in ts if t is not ZERO]
    if not ts:
        return ZERO
    if len(ts) == 1:
        return ts[0]
    if len(ts) == 2:
        return add(*ts)
    if all(isc(t) for t in ts):
        return const(sum((t.data for t in ts), mpq(0)))
    return _mk("sum", tuple(sorted(ts, key=lambda t: t.id)))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b and a.op != "nonfinite":
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if isc(a) and isc(b):
        return const(a.data * b.data)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if isc(b):
        a, b = b, a
    if isc(a) and b.op == "mul" and isc(b.args[0]):
        return mul(const(a.data * b.args[0].data), b.args[1])
    if not isc(a) and a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b))


def div(a, b):
    if isc(b) and b.data != 0:
        return mul(const(1 / b.data), a)
    if a is ZERO and b is not ZERO and not isc(b):
        return ZERO
    return _mk("div", (a, b))


def ipow(a, n):
    n = int(n)
    if n == 0:
        return ONE
    if n == 1:
        return a
    if isc(a):
        if a.data == 0 and n < 0:
            return div(ONE, ZERO)
        return const(a.data**n)
    if n < 0:
        return div(ONE, ipow(a, -n))
    return _mk("ipow", (a,), "r", n)


def power(a, p):
    """a**p.  Integer p: repeated product.  Half integers: sqrt; thirds: cbrt (a >= 0)."""
    if isinstance(p, T):
        if not isc(p):
            return fn("pow", a, p)
        p = p.data
    p = toq(p)
    if p.denominator == 1:
        return ipow(a, int(p))
    if (2 * p).denominator == 1:
        k = int(2 * p)  # odd
        n = (k - 1) // 2
        r = sqrt(a)
        if n == 0:
            return r
        if n == -1:
            return div(ONE, r)
        if n > 0:
            return mul(ipow(a, n), r)
        return div(ONE, mul(ipow(a, -n - 1), r))
    for k in (1, -1, 2, -2, 4, 5):
        if abs(p - mpq(k, 3)) < mpq(1, 10**15):
            return ipow(_mk("cbrt", (a,)), k)
    return fn("pow", a, const(p))


def sqrt(a):
    if isc(a) and a.data >= 0:
        n, d = a.data.numerator, a.data.denominator
        if gmpy2.is_square(n) and gmpy2.is_square(d):
            return const(mpq(gmpy2.isqrt(n), gmpy2.isqrt(d)))
    return _mk("sqrt", (a,))


def fn(name, *args):
    """Elementary function application (interpreted in norm.py when known there)."""
    args = tuple(lift(a) for a in args)
    if name == "sqrt":
        return sqrt(args[0])
    if name in ("sin", "tan", "atan", "asin", "cbrt", "floor") and args[0] is ZERO:
        return ZERO
    if name == "cos" and args[0] is ZERO:
        return ONE
    if name == "floor":
        if isc(args[0]):
            return const(args[0].data.numerator // args[0].data.denominator)
        if isint(args[0]):
            return args[0]
    return _mk(name, args)


def uf(name, args, idx=0):
    return _mk("uf", tuple(lift(a) for a in args), "r", (name, idx))


def isint(t):
    if t.op == "const":
        return t.data.denominator == 1
    if t.op in ("ivar", "floor"):
        return True
    if t.op in ("add", "mul", "sum"):
        return all(isint(a) for a in t.args)
    if t.op == "ipow":
        return isint(t.args[0])
    if t.op == "ite":
        return isint(t.args[1]) and isint(t.args[2])
    return False


# booleans -------------------------------------------------------------------
def lt(a, b):
    if isc(a) and isc(b):
        return TRUE if a.data < b.data else FALSE
    if a is b:
        return FALSE
    return _mk("lt", (a, b), "b")


def le(a, b):
    # a <= b  is  not (b < a): NaN-free semantics, checked by definedness obligations
    return not_(lt(b, a))


_finite = {}


def finite(t):
    """no infinite or undefined constant occurs in t (inputs are finite reals)"""
    todo = [t]
    while todo:
        x = todo[-1]
        if x.id in _finite:
            todo.pop()
            continue
        new = [y for y in x.args if y.id not in _finite]
        if new:
            todo += new
        else:
            _finite[x.id] = x.op != "nonfinite" and all(_finite[y.id] for y in x.args)
            todo.pop()
    return _finite[t.id]


def eq(a, b):
    if isc(a) and isc(b):
        return TRUE if a.data == b.data else FALSE
    if a is b:
        return TRUE
    if (a.op == "nonfinite" and finite(b)) or (b.op == "nonfinite" and finite(a)):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), "b")


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "b")


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        out.append(x)
    if not out:
        return TRUE
    r = out[0]
    for x in out[1:]:
        if x is not_(r):
            return FALSE
        r = _mk("and", (r, x), "b")
    return r


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def iff(a, b):
    return and_(or_(not_(a), b), or_(not_(b), a))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.kind == "b":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    return _mk("ite", (c, a, b))


def absv(a):
    if isc(a):
        return const(abs(a.data))
    return ite(lt(a, ZERO), neg(a), a)


def minv(a, b):
    if isc(a) and isc(b):
        return a if a.data <= b.data else b
    return ite(lt(b, a), b, a)


def maxv(a, b):
    if isc(a) and isc(b):
        return a if a.data >= b.data else b
    return ite(lt(a, b), b, a)


def sign(a):
    if isc(a):
        return const((a.data > 0) - (a.data < 0))
    return ite(lt(a, ZERO), const(-1), ite(eq(a, ZERO), ZERO, ONE))


# traversal ------------------------------------------------------------------
def topo(roots):
    seen, order, stack = set(), [], [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            order.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return order


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "sum":
        return sumof(list(args))
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "ipow":
        return ipow(args[0], t.data)
    if op == "sqrt":
        return sqrt(args[0])
    if op == "uf":
        return _mk("uf", args, "r", t.data)
    if op == "lt":
        return lt(*args)
    if op == "eq":
        return eq(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "ite":
        return ite(*args)
    if not t.args:
        return t
    if t.kind == "b":
        return _mk(op, args, "b", t.data)
    return fn(op, *args) if t.data is None else _mk(op, args, t.kind, t.data)


def substitute(roots, mapping):
    """mapping: term -> term, applied bottom-up (also to rebuilt terms)."""
    memo = {}
    for t in topo(roots):
        m = mapping.get(t)
        if m is not None:
            memo[t.id] = m
            continue
        if not t.args:
            memo[t.id] = t
            continue
        na = tuple(memo[a.id] for a in t.args)
        r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
        m = mapping.get(r)
        memo[t.id] = r if m is None else m
    return [memo[r.id] for r in roots]


def simplify_under(roots, facts):
    """Replace decided boolean terms (facts: term -> bool) top-down lazily: only the
    selected branch of an ite survives."""
    memo = {}

    def go(root):
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            f = facts.get(t)
            if f is not None:
                memo[t.id] = TRUE if f else FALSE
                stack.pop()
                continue
            if t.op == "ite":
                c = t.args[0]
                if c.id not in memo:
                    stack.append(c)
                    continue
                cv = memo[c.id]
                if cv is TRUE or cv is FALSE:
                    b = t.args[1] if cv is TRUE else t.args[2]
                    if b.id not in memo:
                        stack.append(b)
                        continue
                    memo[t.id] = memo[b.id]
                    stack.pop()
                    continue
            pend = [a for a in t.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            na = tuple(memo[a.id] for a in t.args)
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
            f = facts.get(r)
            if f is not None:
                r = TRUE if f else FALSE
            memo[t.id] = r
            stack.pop()
        return memo[root.id]

    return [go(r) for r in roots]


def variables(roots):
    return [t for t in topo(roots) if t.op in ("var", "ivar")]


def show(t, depth=6):
    if t.op == "const":
        q = t.data
        if q.denominator == 1:
            return str(q.numerator)
        if len(str(q)) < 12:
            return str(q)
        return repr(float(q))
    if t.op in ("var", "ivar"):
        return str(t.data)
    if t.op in ("true", "false"):
        return t.op
    if depth <= 0:
        return "…"
    a = [show(x, depth - 1) for x in t.args]
    if t.op == "add":
        return f"({a[0]} + {a[1]})"
    if t.op == "mul":
        return f"{a[0]}*{a[1]}"
    if t.op == "div":
        return f"({a[0]} / {a[1]})"
    if t.op == "ipow":
        return f"{a[0]}**{t.data}"
    if t.op == "lt":
        return f"({a[0]} < {a[1]})"
    if t.op == "eq":
        return f"({a[0]} = {a[1]})"
    if t.op == "uf":
        return f"{t.data[0]}.{t.data[1]}({', '.join(a)})"
    return f"{t.op}({', '.join(a)})"


# evaluation -----------------------------------------------------------------
def evaluate(roots, env, uf_eval=None, ctx=None):
    """Evaluate in floats (math) with env: var name -> float.  Lazy in ite."""
    import math

    memo = {}

    def ev1(t, a):
        op = t.op
        if op == "const":
            return float(t.data)
        if op in ("var", "ivar"):
            return env[t.data]
        if op == "true":
            return True
        if op == "false":
            return False
        try:
            if op == "add":
                return a[0] + a[1]
            if op == "sum":
                return math.fsum(a)
            if op == "mul":
                return a[0] * a[1]
            if op == "div":
                return a[0] / a[1]
            if op == "ipow":
                return a[0] ** t.data
            if op == "sqrt":
                return math.sqrt(a[0])
            if op == "cbrt":
                return math.copysign(abs(a[0]) ** (1 / 3), a[0])
            if op == "lt":
                return a[0] < a[1]
            if op == "eq":
                return a[0] == a[1]
            if op == "not":
                return not a[0]
            if op == "and":
                return a[0] and a[1]
            if op == "floor":
                return float(math.floor(a[0]))
            if op == "atan2":
                return math.atan2(a[0], a[1])
            if op == "pow":
                return a[0] ** a[1]
            if op == "nonfinite":
                return float(t.data)
            if op == "uf":
                return uf_eval(t.data[0], t.data[1], a)
            if op == "erf_inv":
                from scipy.special import erfinv

                return float(erfinv(a[0]))
            return getattr(math, op)(a[0])
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            return math.nan

    out = []
    for root in roots:
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            if t.op == "ite":
                c = t.args[0]
                if c.id not in memo:
                    stack.append(c)
                    continue
                b = t.args[1] if memo[c.id] else t.args[2]
                if b.id not in memo:
                    stack.append(b)
                    continue
                memo[t.id] = memo[b.id]
                stack.pop()
                continue
            pend = [x for x in t.args if x.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[t.id] = ev1(t, [memo[x.id] for x in t.args])
            stack.pop()
        out.append(memo[root.id])
    return out
