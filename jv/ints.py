"""Host code on integers, for all of them: the real Python function is executed on symbolic integers
(z3 terms), once per path through its conditions, and every postcondition is an obligation
`path condition => postcondition` for z3, then cvc5, over the unbounded integers."""
from __future__ import annotations

import math
import sys
import time

import z3

from . import smt
from .contract import OutOfReach


class State:
    run = None


class Path:
    def __init__(self, decisions, pre):
        self.decisions, self.pre, self.taken, self.cond, self.roots, self.quotients, self.defined = decisions, pre, [], [], [], [], []

    def bounds(self):
        return [z3.And(l >= 0, l * l <= a, a < (l + 1) * (l + 1)) for a, l in self.roots] + [z3.And(d * q <= a, a < d * q + d) for a, d, q in self.quotients]

    def possible(self, c):
        s = z3.Solver()
        s.set("rlimit", 2000000)
        s.add(*self.pre, *self.cond, *self.bounds(), c)
        return s.check() != z3.unsat

    def decide(self, c):
        """fork on a condition: re-executed later with the other answer"""
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        n = len(self.taken)
        yes, no = self.possible(c), self.possible(z3.Not(c))
        if not (yes and no):
            return yes
        value = True
        if n < len(self.decisions):
            before, value = self.decisions[n]
            if not z3.eq(before, c):
                raise AssertionError("an execution could not be repeated")
        self.taken.append((c, value))
        self.cond.append(c if value else z3.Not(c))
        return value


def lift(x):
    if isinstance(x, Int):
        return x.e
    if isinstance(x, bool) or not isinstance(x, int):
        if hasattr(x, "item") and isinstance(x.item(), int):
            return z3.IntVal(x.item())
        if isinstance(x, float) and x.is_integer():
            return z3.IntVal(int(x))
        raise OutOfReach(f"integer arithmetic with {type(x).__name__}")
    return z3.IntVal(x)


def quotient(e, d):
    """floor(e / d), d a positive constant"""
    p = State.run
    if p is None:
        return e / d
    e = z3.simplify(e)
    for a, b, q in p.quotients:
        if b == d and z3.eq(a, e):
            return q
    q = z3.Int(f"quotient {len(p.quotients)}")
    p.quotients.append((e, d, q))
    return q


class Bool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        if State.run is None:
            raise OutOfReach("a condition outside of an execution")
        return State.run.decide(self.e)

    def __and__(self, o):
        return Bool(z3.And(self.e, o.e if isinstance(o, Bool) else z3.BoolVal(bool(o))))

    __rand__ = __and__

    def __or__(self, o):
        return Bool(z3.Or(self.e, o.e if isinstance(o, Bool) else z3.BoolVal(bool(o))))

    __ror__ = __or__

    def __invert__(self):
        return Bool(z3.Not(self.e))


class Int:
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def _op(self, o, f):
        if isinstance(o, (Ratio, Root)):
            return NotImplemented
        return Int(f(self.e, lift(o)))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return Int(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return Int(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, k):
        if k == 0.5:
            return Root(self.e)
        if isinstance(k, int) and 0 <= k <= 6:
            r = z3.IntVal(1)
            for _ in range(k):
                r = r * self.e
            return Int(r)
        raise OutOfReach(f"power {k}")

    def _positive(self, o):
        if isinstance(o, bool) or not isinstance(o, int) or o <= 0:
            raise OutOfReach("division by anything but a positive constant")
        return o

    def __floordiv__(self, o):
        return Int(quotient(self.e, self._positive(o)))

    def __mod__(self, o):
        return Int(self.e - o * quotient(self.e, self._positive(o)))

    def __truediv__(self, o):
        return Ratio(self.e, self._positive(o))

    def __lt__(self, o):
        return Bool(self.e < lift(o))

    def __le__(self, o):
        return Bool(self.e <= lift(o))

    def __gt__(self, o):
        return Bool(self.e > lift(o))

    def __ge__(self, o):
        return Bool(self.e >= lift(o))

    def __eq__(self, o):
        return Bool(self.e == lift(o))

    def __ne__(self, o):
        return Bool(self.e != lift(o))

    def __hash__(self):
        return z3.simplify(self.e).hash()

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise OutOfReach("an integer used as an index, or passed to a library")

    __int__ = __float__ = __index__

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__


class Ratio:
    """a / d for a positive constant d"""

    __array_ufunc__ = None

    def __init__(self, e, d):
        self.e, self.d = e, d

    def floor(self):
        return Int(quotient(self.e, self.d))

    def trunc(self):
        return Int(z3.If(self.e >= 0, quotient(self.e, self.d), -quotient(-self.e, self.d)))

    def _nope(self, *a):
        raise OutOfReach("arithmetic on a fraction")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __le__ = __gt__ = __ge__ = __int__ = __index__ = __float__ = __bool__ = _nope

    def __eq__(self, o):
        return Bool(self.e == lift(o) * self.d)

    __hash__ = None


class Root:
    """sqrt(a) for an integer a"""

    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e
        State.run.defined.append(e >= 0)

    def floor(self):
        for a, l in State.run.roots:
            if z3.eq(a, self.e):
                return Int(l)
        l = z3.Int(f"root {len(State.run.roots)}")
        State.run.roots.append((self.e, l))
        return Int(l)

    trunc = floor

    def _nope(self, *a):
        raise OutOfReach("arithmetic on a square root")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __int__ = __index__ = __float__ = __bool__ = _nope
    __hash__ = None


# -- what the module under execution sees ----------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, Int))


class sym_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Int):
            return x
        if isinstance(x, (Ratio, Root)):
            return x.trunc()
        return int(x, *a)


class Proxy:
    """a module whose functions on numbers also take the symbolic ones"""

    def __init__(self, mod):
        self.__dict__["_mod"] = mod

    def __getattr__(self, k):
        f = getattr(self._mod, k)
        if k == "sqrt":
            return lambda x, *a, **kw: Root(x.e) if isinstance(x, Int) else f(x, *a, **kw)
        if k == "isqrt":
            return lambda x: Root(x.e).floor() if isinstance(x, Int) else f(x)
        if k == "floor":
            return lambda x, *a, **kw: x if isinstance(x, Int) else x.floor() if isinstance(x, (Ratio, Root)) else f(x, *a, **kw)
        if k == "trunc":
            return lambda x, *a, **kw: x if isinstance(x, Int) else x.trunc() if isinstance(x, (Ratio, Root)) else f(x, *a, **kw)
        if k in ("abs", "absolute", "fabs"):
            return lambda x, *a, **kw: abs(x) if isinstance(x, Int) else f(x, *a, **kw)
        return f


class seen_by:
    def __init__(self, modules):
        self.modules = modules

    def __enter__(self):
        self.saved = []
        for m in self.modules:
            mod = sys.modules[m]
            for k, v in list(vars(mod).items()):
                if getattr(v, "__name__", None) in ("math", "numpy") and k in ("math", "np", "numpy"):
                    self.saved.append((mod, k, v))
                    setattr(mod, k, Proxy(v))
                elif v is math.isqrt or v is math.sqrt or v is math.floor:
                    self.saved.append((mod, k, v))
                    setattr(mod, k, getattr(Proxy(math), v.__name__))
            self.saved.append((mod, "int", None))
            mod.int = sym_int

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            if v is None:
                delattr(mod, k)
            else:
                setattr(mod, k, v)


# -- obligations ---------------------------------------------------------------------------------
def monotone(a, b):
    """lemma: the square is increasing on the natural numbers (itself an obligation)"""
    return z3.Implies(z3.And(a >= 0, a + 1 <= b), (a + 1) * (a + 1) <= b * b)


def unsat(facts):
    """-> 'unsat', or a model, or None"""
    s = z3.Solver()
    s.set("timeout", int(10000 * smt.SCALE))
    s.add(*facts)
    t = time.time()
    r = str(s.check())
    smt.STATS["queries"] += 1
    smt.STATS["z3"][0] += 1
    smt.STATS["z3"][1] += time.time() - t
    if r == "unsat":
        return "unsat"
    if r == "sat":
        return s.model()
    t = time.time()
    try:
        r = smt.cvc5_check("(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n", int(10000 * smt.SCALE))
    except Exception:  # noqa: BLE001
        r = "unknown"
    smt.STATS["cvc5"][0] += 1
    smt.STATS["cvc5"][1] += time.time() - t
    return "unsat" if r == "unsat" else None


def forall(ctx, name, names, requires, program, ensures, modules, limit=64):
    """for all integers `names` with requires(**ints): ensures(ints, program(**ints)) -> [(label, condition)].
    Both are also run on plain integers to replay a counterexample."""
    syms = {k: z3.Int(k) for k in names}
    I = {k: Int(v) for k, v in syms.items()}
    pre = [c.e for c in requires(**I)]
    lemma = z3.Ints("a b")
    ctx.ok(f"{name}: something satisfies the precondition", unsat(pre) not in ("unsat", None))
    ctx.ok(f"{name}: lemma", unsat([z3.Not(monotone(*lemma))]) == "unsat")
    todo, paths = [[]], 0
    while todo:
        paths += 1
        if paths > limit:
            raise OutOfReach("too many paths")
        State.run = p = Path(todo.pop(), pre)
        try:
            with seen_by(modules):
                out = program(**I)
            goals = [(label, c.e if isinstance(c, Bool) else z3.BoolVal(bool(c))) for label, c in ensures(I, out)]
        except OutOfReach:
            raise
        except Exception as ex:  # noqa: BLE001  (an obligation: this path is not taken)
            goals = [(f"no {type(ex).__name__} raised", z3.BoolVal(False))]
        finally:
            State.run = None
        for n in range(len(p.decisions), len(p.taken)):
            todo.append(p.taken[:n] + [(p.taken[n][0], False)])
        roots = p.bounds()
        witnesses = [l for _, l in p.roots] + list(syms.values())
        lemmas = [monotone(a, b) for a in witnesses for b in witnesses if a is not b] if p.roots else []
        facts = pre + p.cond
        for d in p.defined:
            decide(ctx, f"{name}, path {paths}: square root defined", facts + lemmas, d, syms, requires, program, ensures)
        for label, g in goals:
            if decide(ctx, f"{name}, path {paths}: {label}", facts + roots + lemmas, g, syms, requires, program, ensures):
                facts = [*facts, g]
    return paths


def decide(ctx, name, facts, goal, syms, requires, program, ensures):
    r = unsat([*facts, z3.Not(goal)])
    if r == "unsat":
        return ctx.ok(name, True)
    tries = [{k: r.eval(v, model_completion=True).as_long() for k, v in syms.items()}] if r is not None else []
    for _ in range(400):
        tries.append({k: int(ctx.rng.integers(-30, 60)) for k in syms})
    for ints in tries:  # replay on the real code
        try:
            if not all(requires(**ints)):
                continue
            out = program(**ints)
            bad = [label for label, c in ensures(ints, out) if not c]
        except Exception as ex:  # noqa: BLE001
            out, bad = f"{type(ex).__name__}: {ex}", ["execution"]
        if bad:
            return ctx.ok(name, False, ints, out, bad)
    return ctx.ok(name, False, None, "undecided" if r is None else str(r)[:200], "valid")


def same_terms(got, exp):
    """goals: two sums of monomials [(exponents, coefficient)] agree, their exponents being symbolic"""
    def worth(terms, key):
        return total([when(equal(k, key), c) for k, c in terms])

    return [(f"coefficient of {w} term {n}", worth(got, key) == worth(exp, key)) for w, terms in (("found", got), ("expected", exp)) for n, (key, _) in enumerate(terms)]


def total(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def equal(a, b):
    c = a[0] == b[0]
    for x, y in zip(a[1:], b[1:], strict=True):
        c = (x == y) & c
    return c


def when(c, x):
    if isinstance(c, Bool):
        return Int(z3.If(c.e, lift(x), z3.IntVal(0)))
    return x if c else 0
