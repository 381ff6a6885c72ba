"""The contract language, and the engine that discharges a contract against /repo."""
from __future__ import annotations

import contextlib
import math
import os
import sys
import time
import traceback

import jax
import jax.numpy as jnp
import numpy as np

from . import prove, smt
from . import terms as tm
from . import trace as tr
from .terms import T

REGISTRY: dict[str, list] = {}


# -- two interpretations of the specification language ------------------------------
class OutOfReach(Exception):
    """the code left the subset that can be executed on terms: only the samples decide"""


class Goal:
    def __init__(self, kind, name, a, b=None, tol=None, scale=None, noise=0.0):
        self.kind, self.name, self.a, self.b, self.tol, self.scale, self.noise = kind, name, a, b, tol, scale, noise


class _K:
    eqs: list

    @classmethod
    def finite(cls, name, O, key):
        """every element of O[key] is a finite number (contract extracted with nan=True)"""
        if not cls.symbolic:
            return Goal("bool", name, np.isfinite(np.asarray(O[key], dtype=float)))
        return Goal("clauses", name, O["!" + key])

    @staticmethod
    def eq(name, a, b, tol=None, scale=None, noise=0.0):
        """noise: monomials of a - b whose coefficient is below this fraction of the largest one
        of a and b are rounding of the code's constants (cos(pi/2) = 6e-17)"""
        return Goal("eq", name, a, b, tol, scale, noise)

    @staticmethod
    def holds(name, f):
        return Goal("bool", name, f)


def _vec(f, nin):
    def g(*xs):
        if any(isinstance(x, np.ndarray) for x in xs):
            return tr.emap(f, *[x if isinstance(x, np.ndarray) else tr.oarr((), [tr.up(x)]) for x in xs])
        return f(*[tr.up(x) for x in xs])

    return g


class Sym(_K):
    symbolic = True
    pi = tm.PI
    sin = staticmethod(_vec(lambda x: tm.fn("sin", tm.lift(x)), 1))
    cos = staticmethod(_vec(lambda x: tm.fn("cos", tm.lift(x)), 1))
    tan = staticmethod(_vec(lambda x: tm.fn("tan", tm.lift(x)), 1))
    sqrt = staticmethod(_vec(lambda x: tm.sqrt(tm.lift(x)), 1))
    cbrt = staticmethod(_vec(lambda x: tm.fn("cbrt", tm.lift(x)), 1))
    exp = staticmethod(_vec(lambda x: tm.fn("exp", tm.lift(x)), 1))
    log = staticmethod(_vec(lambda x: tm.fn("log", tm.lift(x)), 1))
    acos = staticmethod(_vec(lambda x: tm.fn("acos", tm.lift(x)), 1))
    asin = staticmethod(_vec(lambda x: tm.fn("asin", tm.lift(x)), 1))
    floor = staticmethod(_vec(lambda x: tm.fn("floor", tm.lift(x)), 1))
    atan2 = staticmethod(_vec(lambda y, x: tm.fn("atan2", tm.lift(y), tm.lift(x)), 2))
    abs = staticmethod(_vec(lambda x: tm.absv(tm.lift(x)), 1))
    min = staticmethod(_vec(lambda x, y: tm.minv(tm.lift(x), tm.lift(y)), 2))
    max = staticmethod(_vec(lambda x, y: tm.maxv(tm.lift(x), tm.lift(y)), 2))
    where = staticmethod(_vec(lambda c, x, y: tm.ite(tm.liftb(c), tm.lift(x), tm.lift(y)), 3))
    lt = staticmethod(_vec(lambda x, y: tm.lt(tm.lift(x), tm.lift(y)), 2))
    le = staticmethod(_vec(lambda x, y: tm.le(tm.lift(x), tm.lift(y)), 2))
    equal = staticmethod(_vec(lambda x, y: tm.eq(tm.lift(x), tm.lift(y)), 2))
    not_ = staticmethod(_vec(lambda x: tm.not_(tm.liftb(x)), 1))
    and_ = staticmethod(_vec(lambda *x: tm.and_(*[tm.liftb(y) for y in x]), 2))
    or_ = staticmethod(_vec(lambda *x: tm.or_(*[tm.liftb(y) for y in x]), 2))
    implies = staticmethod(_vec(lambda x, y: tm.or_(tm.not_(tm.liftb(x)), tm.liftb(y)), 2))

    @staticmethod
    def uf(name, *args):
        return tm.uf(name, args)


class Num(_K):
    symbolic = False
    pi = math.pi
    sin, cos, tan, sqrt, cbrt, exp, log = (
        np.sin, np.cos, np.tan, np.sqrt, np.cbrt, np.exp, np.log,
    )
    acos, asin, atan2, floor = np.arccos, np.arcsin, np.arctan2, np.floor
    abs, min, max, where = np.abs, np.minimum, np.maximum, np.where
    lt, le = np.less, np.less_equal
    equal = np.equal
    not_ = np.logical_not

    @staticmethod
    def and_(*x):
        r = x[0]
        for y in x[1:]:
            r = np.logical_and(r, y)
        return r

    @staticmethod
    def or_(*x):
        r = x[0]
        for y in x[1:]:
            r = np.logical_or(r, y)
        return r

    @staticmethod
    def implies(a, b):
        return np.logical_or(np.logical_not(a), b)

    uf_real: dict = {}

    @staticmethod
    def uf(name, *args):
        return Num.uf_real[name](*args)


class In:
    """One input.  pos/nonneg are preconditions (also known to the normaliser)."""

    def __init__(self, shape=(), lo=-1.0, hi=1.0, edges=(), pos=False, nonneg=False, log=False):
        self.shape, self.lo, self.hi = tuple(shape), lo, hi
        self.edges, self.pos, self.nonneg, self.log = list(edges), pos, nonneg, log

    def draw1(self, rng, p_edge):
        if self.edges and rng.random() < p_edge:
            return float(self.edges[rng.integers(len(self.edges))])
        if self.log:
            return float(math.exp(rng.uniform(math.log(self.lo), math.log(self.hi))))
        return float(rng.uniform(self.lo, self.hi))

    def draw(self, rng, p_edge):
        if self.shape == ():
            return np.asarray(self.draw1(rng, p_edge))
        return np.array(
            [self.draw1(rng, p_edge) for _ in range(int(np.prod(self.shape)))]
        ).reshape(self.shape)


def symbols(name, shape):
    if shape == ():
        return tr.oarr((), [tm.var(name)])
    return tr.oarr(
        shape, [tm.var(f"{name}[{','.join(map(str, i))}]") for i in np.ndindex(shape)]
    )


def envof(inputs):
    env = {}
    for k, v in inputs.items():
        v = np.asarray(v)
        if v.shape == ():
            env[k] = float(v)
        else:
            for i in np.ndindex(v.shape):
                env[f"{k}[{','.join(map(str, i))}]"] = float(v[i])
    return env


class Contract:
    """prop, name, inputs, requires(I,K), program(**I), ensures(I,O,K)."""

    def __init__(self, prop, name, inputs, program, ensures, requires=None, opaque=(),
                 lemmas=None, functions=(), sampler=None, tol=1e-7, atol=1e-9, ntol=1e-11,
                 n_samples=60, smt_ms=3000, time_limit=240, bounded=None, definedness=True,
                 uf_rules=None, tier="quick", jit=True, max_leaves=4000, finite=True,
                 note=None, assume=(), xcheck=True, p_edge=0.3, cut=False, facts=None,
                 roots=None, nan=False, steps=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        REGISTRY.setdefault(prop, []).append(self)


class HostContract:
    """Obligations decided by executing the real Python code on a finite, completely
    enumerated space (or on ghost values that reveal any dependence on a value)."""

    def __init__(self, prop, name, run, functions=(), bounded=None, tier="quick", note=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        REGISTRY.setdefault(prop, []).append(self)


# -- callee contracts ----------------------------------------------------------------
@contextlib.contextmanager
def under_contract(opaques):
    """Replace, in every loaded jaxoplanet module, the callee by its contract."""
    global EXTRACTING
    saved = []
    jax.clear_caches()
    EXTRACTING = True
    try:
        for op in opaques:
            real = op.resolve()
            if real is None:
                continue
            stub = op.stub()
            for mname, mod in list(sys.modules.items()):
                if not mname.startswith("jaxoplanet") or mod is None:
                    continue
                for k, v in list(vars(mod).items()):
                    if v is real:
                        saved.append((mod, k, v))
                        setattr(mod, k, stub)
            if getattr(op, "external", False):  # a library function, called as module.attribute
                mname, attr = op.path.split(":")
                saved.append((sys.modules[mname], attr, real))
                setattr(sys.modules[mname], attr, stub)
        yield
    finally:
        EXTRACTING = False
        for mod, k, v in saved:
            setattr(mod, k, v)
        jax.clear_caches()


class Callee:
    def __init__(self, path, name, core_in, core_out, model, jvp=None, real_uf=None):
        """path 'module:attr'.  real_uf: numeric meaning of the UFs in the model."""
        self.path, self.name, self.jvp = path, name, jvp
        self.op = tr.Opaque(name, None, core_in, core_out, model)
        self.real_uf = real_uf or {}

    def resolve(self):
        import importlib

        mod, attr = self.path.split(":")
        try:
            return getattr(importlib.import_module(mod), attr)
        except (ImportError, AttributeError):
            return None

    def stub(self):
        name = self.name

        def call(*args, **kw):
            # keyword arguments are static configuration of the callee
            outs = tr.opaque_call(name, *args)
            return tuple(outs) if len(outs) > 1 else outs[0]

        if self.jvp is None:
            return call
        f = jax.custom_jvp(lambda *a: tuple(tr.opaque_call(name, *a)))

        @f.defjvp
        def _(primals, tangents):
            outs = f(*primals)
            return outs, self.jvp(primals, tangents, outs)

        def call2(*args):
            args = jnp.broadcast_arrays(*[jnp.asarray(a, dtype=float) for a in args])
            return f(*args)

        return call2


class GhostFn:
    """An arbitrary function: uninterpreted in the proof, `real` (a jnp function) in replays.
    Scalar arguments; broadcasts."""

    def __init__(self, name, nargs, real):
        self.name, self.real = name, real
        tr.Opaque(name, None, (0,) * nargs, lambda *a: ((),),
                  lambda *xs: [tr.oarr((), [tm.uf(name, tuple(x[()] for x in xs))])])
        f = np.vectorize(lambda *a: float(real(*a)), otypes=[float])
        Num.uf_real[name] = f
        self.path, self.real_uf = f"ghost function {name}", {name: lambda *a: float(real(*a))}

    def resolve(self):
        return None

    def __call__(self, *args):
        return tr.opaque_call(self.name, *args)[0] if EXTRACTING else self.real(*args)


EXTRACTING = False

# -- the engine ------------------------------------------------------------------------
class Result:
    def __init__(self, c):
        self.contract = c
        self.obligations = 0
        self.discharged = 0
        self.failed = []  # dicts
        self.violation = None  # dict with a replayed input
        self.error = None
        self.samples_run = 0
        self.canary = None
        self.leaves = 0
        self.definedness = 0
        self.eqns = 0
        self.backends = {}
        self.smt = {}
        self.wall = 0.0
        self.xchecked = 0
        self.demoted = None


def _arr(x):
    return x if isinstance(x, np.ndarray) else np.asarray(x)


def num_goals(c, I, O):
    """evaluate the ensures clause numerically; yield (goal, idx, ok, lhs, rhs)"""
    with np.errstate(all="ignore"):
        goals = c.ensures(I, O, Num)
    for g in goals:
        if g.kind == "bool":
            a = np.asarray(g.a)
            for idx in np.ndindex(a.shape):
                yield g, idx, bool(a[idx]), bool(a[idx]), True
            continue
        a, b = np.asarray(g.a, dtype=float), np.asarray(g.b, dtype=float)
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            yield g, (), False, f"shape {a.shape}", f"shape {b.shape}"
            continue
        tol = c.tol if g.tol is None else g.tol
        sc = np.broadcast_to(np.asarray(0.0 if g.scale is None else g.scale, float), a.shape)
        for idx in np.ndindex(a.shape):
            x, y = float(a[idx]), float(b[idx])
            if math.isfinite(x) and math.isfinite(y):
                ok = abs(x - y) <= tol * max(abs(x), abs(y), abs(float(sc[idx]))) + c.atol
            else:
                ok = not c.finite and (x == y or (x != x and y != y))
            yield g, idx, ok, x, y


def req_ok(c, I):
    if c.requires is None:
        base = True
    else:
        with np.errstate(all="ignore"):
            base = all(bool(np.all(x)) for x in c.requires(I, Num))
    if not base:
        return False
    for k, spec in c.inputs.items():
        if spec.pos and not np.all(np.asarray(I[k]) > 0):
            return False
        if spec.nonneg and not np.all(np.asarray(I[k]) >= 0):
            return False
    return True


def draw(c, rng, p_edge):
    for _ in range(4000):
        I = c.sampler(rng) if c.sampler else {k: s.draw(rng, p_edge) for k, s in c.inputs.items()}
        I = {k: np.asarray(v, dtype=float) for k, v in I.items()}
        if req_ok(c, I):
            return I
    return None


def real_runner(c):
    names = list(c.inputs)

    def f(*xs):
        return c.program(**dict(zip(names, xs)))

    if c.jit:
        jf = jax.jit(lambda *xs: jax.tree_util.tree_map(jnp.asarray, f(*xs)))
    else:
        jf = f

    def run(I):
        out = jf(*[jnp.asarray(I[k]) for k in names])
        return jax.tree_util.tree_map(np.asarray, out)

    return run


def witness(c, g, idx, I, lhs, rhs, what="postcondition"):
    return {
        "property": c.prop,
        "contract": c.name,
        "obligation": g if isinstance(g, str) else g.name,
        "index": list(idx),
        "inputs": {k: np.asarray(v).tolist() for k, v in I.items()},
        "got": lhs if isinstance(lhs, (str, bool)) else float(lhs),
        "expected": rhs if isinstance(rhs, (str, bool)) else float(rhs),
        "what": what,
        "functions": list(c.functions),
    }


def try_input(c, run, I):
    """Run the real code on I and evaluate the contract; a witness dict or None."""
    try:
        O = run(I)
    except Exception as ex:  # noqa: BLE001
        return witness(c, "returns normally", (), I, f"{type(ex).__name__}: {str(ex)[:300]}", "no exception")
    try:
        for g, idx, ok, x, y in num_goals(c, I, O):
            if not ok:
                return witness(c, g, idx, I, x, y)
    except Exception as ex:  # noqa: BLE001
        return witness(c, "output shape", (), I, f"{type(ex).__name__}: {str(ex)[:300]}", "well-formed output")
    return None


def discharge(c, seed, tier, log=lambda *a: None):
    if isinstance(c, HostContract):
        return discharge_host(c, seed, tier, log)
    r = Result(c)
    t0 = time.time()
    rng = np.random.default_rng([seed, abs(hash_name(c.name))])
    n = c.n_samples * (8 if tier == "thorough" else 1)
    samples = []
    for i in range(n):
        I = draw(c, rng, 0.0 if i < 5 else c.p_edge)
        if I is None:
            break
        samples.append(I)
    if not samples:
        r.error = "vacuous: no sample satisfies the precondition"
        r.wall = time.time() - t0
        return r
    run = real_runner(c)
    outs = []
    for I in samples:
        w = try_input(c, run, I)
        r.samples_run += 1
        if w is not None:
            r.violation = w
            r.obligations = max(1, r.obligations)
            r.failed.append({"obligation": w["obligation"], "why": "refuted on the real code"})
            r.wall = time.time() - t0
            return r
    # extraction
    try:
        symin = {k: symbols(k, s.shape) for k, s in c.inputs.items()}
        tm_env = [envof(I) for I in samples]
        names = list(c.inputs)
        with under_contract(c.opaque):
            outs, it = tr.extract(
                lambda *xs: c.program(**dict(zip(names, xs))), tuple(symin[k] for k in names), shadow=c.nan
            )
        r.eqns = it.neqns
    except Exception as ex:  # noqa: BLE001
        r.obligations += 1
        r.failed.append({"obligation": "extraction", "why": f"{type(ex).__name__}: {ex}",
                         "detail": traceback.format_exc()[-3000:]})
        r.wall = time.time() - t0
        return r
    uf_real = {}
    for op in c.opaque:
        uf_real.update(op.real_uf)

    def uf_eval(name, idx, args):
        return uf_real[name](*args) if idx == 0 and not isinstance(uf_real[name], (list, tuple)) else uf_real[name][idx](*args)

    # extraction cross-check: terms evaluated in floats vs. the real code
    leaves = jax.tree_util.tree_leaves(outs, is_leaf=lambda x: isinstance(x, np.ndarray))
    if c.xcheck:
        for I in samples[: 8 if tier == "quick" else 30]:
            O = run(I)
            ol = jax.tree_util.tree_leaves(O, is_leaf=lambda x: isinstance(x, np.ndarray))
            env = envof(I)
            for a, b in zip(leaves, ol):
                fl = [x for x in a.reshape(-1)]
                try:
                    vals = tm.evaluate(fl, env, uf_eval)
                except KeyError:
                    break
                bb = np.asarray(b).reshape(-1)
                scale = max([abs(float(y)) for y in bb if np.isfinite(y)] or [0.0])
                for x, y in zip(vals, bb):
                    y = float(y)
                    x = float(x)
                    if math.isfinite(x) and math.isfinite(y):
                        if abs(x - y) > 1e-6 * max(abs(x), abs(y), scale) + 1e-8:
                            r.failed.append({"obligation": "extraction cross-check",
                                             "why": f"term evaluates to {x!r}, real code gives {y!r}",
                                             "inputs": {k: np.asarray(v).tolist() for k, v in I.items()}})
                            r.obligations += 1
                            r.wall = time.time() - t0
                            return r
            r.xchecked += 1
    # preconditions
    req = []
    pos, nonneg = [], []
    if c.nan:  # guard thresholds of a few ulps: any positive number
        flat = [x for a in jax.tree_util.tree_leaves(outs, is_leaf=lambda x: isinstance(x, np.ndarray)) for x in tr.obj(a).reshape(-1)]
        bad = {k: sorted({y for s in v.reshape(-1) for p in s for y in p}, key=lambda t: t.id) for k, v in it.bad.items()}
        tiny = [t for t in tm.topo(flat + [y for v in bad.values() for y in v]) if t.op == "const" and 0 < t.data < 1e-13]
        mp = {t: tm.var(f"tiny{i}") for i, t in enumerate(tiny)}
        for t, x in mp.items():
            pos.append(x.data)
            req += [tm.lt(tm.ZERO, x), tm.lt(x, tm.const(1e-6))]
            for e in tm_env:
                e[x.data] = float(t.data)
        outs = jax.tree_util.tree_map(lambda a: tr.oarr(np.shape(a), tm.substitute(list(tr.obj(a).reshape(-1)), mp)), outs, is_leaf=lambda x: isinstance(x, np.ndarray))
        for k, v in it.bad.items():
            new = dict(zip(bad[k], tm.substitute(bad[k], mp)))
            it.bad[k] = tr.pmap(lambda s, new=new: frozenset((new[g], new[x]) for g, x in s), v)
    for k, s in c.inputs.items():
        nm = [t.data for t in symin[k].reshape(-1)]
        if s.pos:
            pos += nm
        if s.nonneg:
            nonneg += nm
    for k, s in c.inputs.items():
        for t in symin[k].reshape(-1):
            if s.pos:
                req.append(tm.lt(tm.ZERO, t))
            elif s.nonneg:
                req.append(tm.le(tm.ZERO, t))
    I0 = {k: (v if v.shape else v[()]) for k, v in symin.items()}
    outs0 = jax.tree_util.tree_map(lambda a: a if a.shape else a[()], outs,
                                   is_leaf=lambda x: isinstance(x, np.ndarray))
    if c.nan:
        outs0 = {**outs0, **{"!" + k: (v if v.shape else v[()]) for k, v in it.bad.items()}}
    if c.requires is not None:
        for x in c.requires(I0, Sym):
            for t in _arr(x).reshape(-1) if isinstance(x, np.ndarray) else [x]:
                req.append(tm.liftb(t))
    lem = c.lemmas(I0, Sym) if c.lemmas else []
    if c.facts is not None:
        req += [tm.liftb(t) for t in c.facts(I0, Sym)]
    def prover():
        P = prove.Prover(
            requires=req, samples=tm_env[:60], positive=pos, nonneg=nonneg, lemmas=lem,
            tol=c.ntol, smt_ms=c.smt_ms * (4 if tier == "thorough" else 1),
            time_limit=c.time_limit * (3 if tier == "thorough" else 1) * smt.SCALE,
            uf_rules=c.uf_rules, definedness=c.definedness, max_leaves=c.max_leaves,
            roots=[tm.lift(x) for x in c.roots(I0, Sym)] if c.roots else (),
        )
        P.uf_eval = uf_eval
        return P

    P = prover()
    for i, t in enumerate(c.steps(I0, Sym) if c.steps else ()):  # proved, then used
        r.obligations += 1
        try:
            P.prove(("bool", tm.liftb(t)))
            r.discharged += 1
        except (prove.Fail, prove.Budget) as ex:
            r.failed.append({"obligation": f"step {i}", "why": getattr(ex, "why", None) or str(ex), "detail": getattr(ex, "detail", "")})
            continue
        req.append(tm.liftb(t))
        P = prover()
    try:
        goals = c.ensures(I0, outs0, Sym)
    except OutOfReach as ex:
        r.demoted = f"{r.samples_run} sampled inputs; not provable: {ex}"
        r.obligations = r.discharged = r.samples_run
        r.wall = time.time() - t0
        return r
    except Exception as ex:  # noqa: BLE001
        r.obligations += 1
        r.failed.append({"obligation": "ensures", "why": f"{type(ex).__name__}: {ex}",
                         "detail": traceback.format_exc()[-2000:]})
        r.wall = time.time() - t0
        return r
    nfail, settled = 0, set()
    goals = [h for g in goals for h in (clause_goals(g) if g.kind == "clauses" else [g])]
    if c.cut:
        goals = cut_goals(goals, P, c.cut if c.cut is not True else 40)
    # canary: a false variant of the first obligation must not be provable
    for g in goals:
        ca = _arr(g.a).reshape(-1)
        if not ca.size:
            continue
        if g.kind == "eq":
            cb = np.broadcast_to(tr.obj(_arr(g.b)), tr.obj(_arr(g.a)).shape).reshape(-1)
            bad = ("eq", tm.add(tm.lift(ca[0]), tm.ONE), tm.lift(cb[0]))
        else:
            bad = ("bool", tm.FALSE)
        try:
            P.prove(bad)
            r.canary = False
        except Exception:  # noqa: BLE001
            r.canary = True
        break
    if r.canary is False:
        r.error = "unsound or contradictory hypotheses: a false obligation was discharged"
        r.wall = time.time() - t0
        return r
    for g in goals:
        a = g.a if isinstance(g.a, np.ndarray) else tr.oarr((), [tr.up(g.a)])
        if g.kind == "eq":
            b = g.b if isinstance(g.b, np.ndarray) else tr.oarr((), [tr.up(g.b)])
            try:
                a, b = np.broadcast_arrays(tr.obj(a), tr.obj(b))
            except ValueError:
                r.obligations += 1
                r.failed.append({"obligation": g.name, "why": f"shapes {a.shape} {b.shape}"})
                continue
        else:
            a = tr.obj(a)
        for idx in np.ndindex(a.shape):
            r.obligations += 1
            goal = ("eq", tm.lift(a[idx]), tm.lift(b[idx])) if g.kind == "eq" else ("bool", tm.liftb(a[idx]))
            if nfail >= 3:
                r.failed.append({"obligation": f"{g.name}{list(idx)}", "why": "not attempted after earlier failures"})
                continue
            if goal[0] == "bool" and goal[1] in settled:  # the same formula, already discharged
                r.discharged += 1
                continue
            try:
                P.noise = g.noise
                P.prove(goal)
                r.discharged += 1
                settled.add(goal[1])
            except (prove.Fail, prove.Budget) as ex:
                nfail += 1
                path = getattr(ex, "path", ())
                why = getattr(ex, "why", None) or str(ex)
                pass
                r.failed.append({
                    "obligation": f"{g.name}{list(idx)}", "why": why,
                    "detail": getattr(ex, "detail", ""),
                    "path": [("" if v else "not ") + tm.show(f, 5)[:300] for f, v in path[-12:]],
                })
                w = hunt(c, run, P, path, rng, tier)
                if w is not None:
                    r.violation = w
                    break
            except Exception as ex:  # noqa: BLE001
                nfail += 1
                pass
                r.failed.append({"obligation": f"{g.name}{list(idx)}", "why": f"{type(ex).__name__}: {ex}",
                                 "detail": traceback.format_exc()[-2000:]})
        if r.violation:
            break
    r.leaves, r.definedness, r.backends = P.leaves, P.def_obl, dict(P.backends)
    absent = [o.path for o in c.opaque if o.resolve() is None]
    if r.failed and not r.violation and absent:
        # the callee whose contract cuts the argument is gone (renamed, inlined): not a fault,
        # and the property is still decided on sampled inputs
        for _ in range(300 if tier == "quick" else 3000):
            I = draw(c, rng, c.p_edge)
            w = None if I is None else try_input(c, run, I)
            r.samples_run += 1
            if w is not None:
                r.violation = w
                break
        else:
            r.demoted = f"{r.samples_run} sampled inputs; not provable: {', '.join(absent)} does not exist"
            r.failed, r.obligations, r.discharged = [], r.samples_run, r.samples_run
    r.wall = time.time() - t0
    return r


def clause_goals(g):
    """one obligation per distinct (guard, fault): the fault does not occur under the guard"""
    a = g.a.reshape(-1) if isinstance(g.a, np.ndarray) else [g.a]
    faults = {}
    for s in a:
        for guard, x in s:
            faults.setdefault(x, {})[guard] = None
    out = []
    for x in sorted(faults, key=lambda t: t.id):
        gs = [tm.TRUE] if tm.TRUE in faults[x] else sorted(faults[x], key=lambda t: t.id)
        out += [tm.not_(tm.and_(gd, x)) for gd in gs]
    out = list(dict.fromkeys(x for x in out if x is not tm.TRUE))
    return [Goal("bool", f"{g.name} ({i + 1}/{len(out)})", x) for i, x in enumerate(out)] or [Goal("bool", g.name, tm.TRUE)]


def cut_goals(goals, P, size):
    """Generalise: a trigonometric argument that is a large term becomes a fresh variable
    (what is proved then holds for every value of it)."""
    roots = []
    for g in goals:
        for x in (g.a, g.b):
            if x is not None:
                roots += [tm.lift(t) for t in tr.obj(_arr(x)).reshape(-1) if isinstance(t, T) and t.kind == "r"]
    mp = {}
    for t in tm.topo(roots):
        if t.op in ("sin", "cos", "tan"):
            a = t.args[0]
            while a.op == "mul" and tm.isc(a.args[0]):
                a = a.args[1]
            if a not in mp and a.op not in ("atan2", "acos", "asin", "atan") and len(tm.topo([a])) > size:
                mp[a] = tm.var(f"jv_cut{len(mp)}")
    if not mp:
        return goals
    for e in P.samples:
        for a, v in mp.items():
            e[v.data] = tm.evaluate([a], e, P.uf_eval)[0]

    def sub(x):
        if x is None:
            return None
        x = tr.obj(_arr(x))
        out = tm.substitute(list(x.reshape(-1)), mp)
        return tr.oarr(x.shape, out)

    return [Goal(g.kind, g.name, sub(g.a), sub(g.b), g.tol, g.scale, g.noise) for g in goals]


def hunt(c, run, P, path, rng, tier):
    """A failed obligation: look for an input on the failing path and replay it."""
    # 1. random inputs (edges more often), 2. samples satisfying the path facts,
    # 3. a solver model of the path
    n = 400 if tier == "quick" else 3000
    t0 = time.time()
    for i in range(n):
        if time.time() - t0 > 30:
            break
        I = draw(c, rng, 0.5)
        if I is None:
            break
        w = try_input(c, run, I)
        if w is not None:
            return w
    try:
        m = path_model(c, P, path)
    except Exception:  # noqa: BLE001
        m = None
    if m is not None and req_ok(c, m):
        return try_input(c, run, m)
    return None


def path_model(c, P, path):
    n = P.norm(tuple(path))
    enc = smt.Encoder(n)
    cons = P.fact_cons(enc, tuple(path), n)
    r, model, _ = smt.check(enc, cons, 5000, want_model=True, use_cvc5=False)
    if r != "sat" or model is None:
        return None
    env = dict(P.samples[0])
    for aid, v in enc.vars.items():
        if isinstance(aid, int) and n.atoms[aid].kind == "var":
            val = model.eval(v, model_completion=True)
            try:
                x = float(val.as_fraction())
            except AttributeError:
                x = float(val.approx(20).as_fraction())
            env[n.atoms[aid].term.data] = x
    I = {}
    for k, s in c.inputs.items():
        # far outside the ordinary range rounding, not the property, decides
        big = 10 * max(abs(s.lo), abs(s.hi), 1.0)
        if any(abs(v) > big for n, v in env.items() if n == k or n.startswith(k + "[")):
            return None
        if s.shape == ():
            I[k] = np.asarray(env[k])
        else:
            I[k] = np.array([env[f"{k}[{','.join(map(str, i))}]"] for i in np.ndindex(s.shape)]).reshape(s.shape)
    return I


class HostCtx:
    def __init__(self, c, r, seed, tier):
        self.c, self.r, self.seed, self.tier = c, r, seed, tier
        self.rng = np.random.default_rng([seed, abs(hash_name(c.name))])

    def ok(self, name, cond, inputs=None, got=None, expected=None):
        """one obligation; cond decides it; inputs reproduces it on the real code"""
        self.r.obligations += 1
        if cond:
            self.r.discharged += 1
            return True
        self.r.failed.append({"obligation": name, "why": f"got {got!r}, expected {expected!r}"})
        if self.r.violation is None and inputs is not None:
            self.r.violation = {
                "property": self.c.prop, "contract": self.c.name, "obligation": name,
                "index": [], "inputs": inputs, "got": repr(got)[:500], "expected": repr(expected)[:500],
                "what": "postcondition", "functions": list(self.c.functions),
            }
        return False


def discharge_host(c, seed, tier, log):
    r = Result(c)
    t0 = time.time()
    ctx = HostCtx(c, r, seed, tier)
    try:
        c.run(ctx)
    except Exception as ex:  # noqa: BLE001
        r.obligations += 1
        r.failed.append({"obligation": "host execution", "why": f"{type(ex).__name__}: {ex}",
                         "detail": traceback.format_exc()[-3000:]})
        log(traceback.format_exc())
    r.canary = True
    r.wall = time.time() - t0
    return r


def hash_name(s):
    import zlib

    return zlib.crc32(s.encode())
