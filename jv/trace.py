"""Extraction: the jaxpr of the real function (obtained by calling it) is executed on terms.

Every primitive that only moves data is run by JAX itself on index arrays; sub-computations
without symbolic inputs are run by JAX itself on their values; arithmetic becomes terms.
Loops have static trip counts in this code base and are unrolled; calls are inlined unless
the callee is under a contract (an `Opaque`), in which case only its contract is used."""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax
from jax.extend.core import Literal, Primitive
from jax.interpreters import batching, mlir

from . import terms as tm
from .terms import T, lift, liftb


class ExtractError(Exception):
    pass


class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = lift(re), lift(im)

    def __add__(self, o):
        o = cx(o)
        return Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = cx(o)
        return Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return cx(o) - self

    def __mul__(self, o):
        o = cx(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = cx(o)
        if o.im is tm.ZERO:
            return Cx(tm.div(self.re, o.re), tm.div(self.im, o.re))
        d = o.re * o.re + o.im * o.im
        n = self * Cx(o.re, -o.im)
        return Cx(tm.div(n.re, d), tm.div(n.im, d))

    def __rtruediv__(self, o):
        return cx(o) / self

    def __neg__(self):
        return Cx(-self.re, -self.im)


def cx(x):
    if isinstance(x, Cx):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return Cx(float(x.real), float(x.imag))
    return Cx(x, tm.ZERO)


def up(x):
    """element -> T or Cx"""
    if isinstance(x, (T, Cx)):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return cx(x)
    if isinstance(x, (bool, np.bool_)):
        return tm.TRUE if x else tm.FALSE
    return lift(x)


def is_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def obj(a):
    """any array -> object array of terms"""
    if is_sym(a):
        return a
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(a.shape):
        out[idx] = up(a[idx].item() if a.dtype != object else a[idx])
    return out


def oarr(shape, it):
    out = np.empty(shape, dtype=object)
    flat = out.reshape(-1) if out.size else out
    for i, x in enumerate(it):
        flat[i] = x
    return flat.reshape(shape) if out.size else out


def emap(f, *arrs):
    arrs = [obj(a) for a in arrs]
    arrs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(arrs[0].shape, dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = f(*(a[idx] for a in arrs))
    return out


# -- opaque callees -------------------------------------------------------------
opaque_p = Primitive("jv_opaque")
opaque_p.multiple_results = True


class Opaque:
    registry: dict = {}

    def __init__(self, name, fn, core_in, core_out, model, jvp=None):
        """fn: the real function; core_in: core ndim per argument; core_out: function from
        core input shapes to tuple of core output shapes; model: flat argument object
        arrays -> tuple of output object arrays (terms), the contract's ensures clause."""
        self.name, self.fn = name, fn
        self.core_in, self.core_out, self.model, self.jvp = core_in, core_out, model, jvp
        Opaque.registry[name] = self


def _split_shapes(op, avals):
    cores, batch = [], ()
    for a, n in zip(avals, op.core_in):
        s = tuple(a.shape)
        k = len(s) - n
        cores.append(s[k:])
        batch = jnp.broadcast_shapes(batch, s[:k])
    return batch, cores


def opaque_call(name, *args):
    op = Opaque.registry[name]
    args = [jnp.asarray(a, dtype=jnp.result_type(float)) for a in args]
    batch, cores = _split_shapes(op, args)
    args = [jnp.broadcast_to(a, batch + c) for a, c in zip(args, cores)]
    return opaque_p.bind(*args, name=name)


@opaque_p.def_abstract_eval
def _(*avals, name):
    op = Opaque.registry[name]
    batch, cores = _split_shapes(op, avals)
    return [
        jax.core.ShapedArray(batch + tuple(c), jnp.result_type(float))
        for c in op.core_out(*cores)
    ]


@opaque_p.def_impl
def _(*args, name):
    raise ExtractError("opaque callee evaluated concretely")


def _batch(args, dims, *, name):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    new = []
    for a, d in zip(args, dims):
        if d is batching.not_mapped:
            new.append(jnp.broadcast_to(a, (size,) + a.shape))
        else:
            new.append(jnp.moveaxis(a, d, 0))
    outs = opaque_p.bind(*new, name=name)
    return outs, (0,) * len(outs)


batching.primitive_batchers[opaque_p] = _batch


# -- interpreter -------------------------------------------------------------------
MOVE = {
    "reshape", "transpose", "broadcast_in_dim", "slice", "concatenate", "squeeze",
    "expand_dims", "rev", "gather", "dynamic_slice", "pad", "copy", "copy_p",
    "dynamic_update_slice", "scatter", "split", "device_put", "optimization_barrier",
}
INLINE = {
    "pjit", "closed_call", "core_call", "remat", "checkpoint", "custom_jvp_call",
    "custom_vjp_call", "custom_vjp_call_jaxpr", "core_closed_call", "xla_call",
    "custom_lin", "remat2", "jit",
}


def rd(x):
    return np.asarray(x)


class Interp:
    def __init__(self, hooks=None):
        self.prims = {}
        self.neqns = 0

    def run(self, closed, args):
        return self.jaxpr(closed.jaxpr, [rd(c) for c in closed.consts], args)

    def jaxpr(self, jx, consts, args):
        env = {}

        def read(v):
            if isinstance(v, Literal):
                return rd(v.val)
            return env[v]

        for v, c in zip(jx.constvars, consts):
            env[v] = c
        if len(jx.invars) != len(args):
            raise ExtractError("arity")
        for v, a in zip(jx.invars, args):
            env[v] = a
        for eqn in jx.eqns:
            ins = [read(v) for v in eqn.invars]
            try:
                outs = self.eqn(eqn, ins)
            except ExtractError:
                raise
            except Exception as ex:  # noqa: BLE001
                raise ExtractError(f"{eqn.primitive.name}: {type(ex).__name__}: {ex}") from ex
            for v, o in zip(eqn.outvars, outs):
                o = o if isinstance(o, np.ndarray) else rd(o)
                if tuple(o.shape) != tuple(v.aval.shape):
                    raise ExtractError(
                        f"shape {o.shape} vs {v.aval.shape} for {eqn.primitive.name}"
                    )
                env[v] = o
        return [read(v) for v in jx.outvars]

    # ---------------------------------------------------------------------------
    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        P = eqn.params
        self.neqns += 1
        self.prims[name] = self.prims.get(name, 0) + 1
        sym = any(is_sym(a) for a in ins)
        if name == "jv_opaque":
            return self.opaque(P["name"], ins)
        if not sym and name not in INLINE and name not in ("scan", "while", "cond"):
            return self.concrete(eqn, ins)
        if name in INLINE or "call_jaxpr" in P or (name == "pjit"):
            sub = P.get("jaxpr", P.get("call_jaxpr", P.get("fun_jaxpr")))
            if not sym and not contains_opaque(sub):
                return self.concrete(eqn, ins)
            if hasattr(sub, "jaxpr"):
                return self.jaxpr(sub.jaxpr, [rd(c) for c in sub.consts], ins)
            return self.jaxpr(sub, [], ins)
        if name == "scan":
            return self.scan(P, ins)
        if name == "while":
            return self.while_(P, ins)
        if name == "cond":
            return self.cond(P, ins)
        if name in MOVE:
            return self.move(eqn, ins)
        f = getattr(self, "p_" + name, None)
        if f is not None:
            r = f(P, *ins)
            return r if isinstance(r, (list, tuple)) else [r]
        raise ExtractError(f"primitive {name} on symbolic data is not supported")

    def concrete(self, eqn, ins):
        vals = [jnp.asarray(a) for a in ins]
        sub, bind_params = eqn.primitive.get_bind_params(eqn.params)
        out = eqn.primitive.bind(*sub, *vals, **bind_params)
        if not eqn.primitive.multiple_results:
            out = [out]
        return [rd(o) for o in out]

    def opaque(self, name, ins):
        op = Opaque.registry[name]
        batch, cores = _split_shapes(op, ins)
        outs = None
        ins = [obj(a) for a in ins]
        for idx in np.ndindex(batch):
            r = op.model(*(a[idx] if isinstance(a[idx], np.ndarray) else oarr((), [a[idx]]) for a in ins))
            r = [x if isinstance(x, np.ndarray) else oarr((), [x]) for x in r]
            if outs is None:
                outs = [np.empty(batch + x.shape, dtype=object) for x in r]
            for o, x in zip(outs, r):
                if o.ndim == len(idx):
                    o[idx] = x[()]
                else:
                    o[idx] = x
        return outs

    # -- data movement ------------------------------------------------------------
    def move(self, eqn, ins):
        name = eqn.primitive.name
        P = dict(eqn.params)
        if name in ("copy", "copy_p", "device_put", "optimization_barrier"):
            return list(ins)
        if name == "gather" and is_sym(ins[1]):
            return self.gather_sym(eqn, ins)
        if name in ("dynamic_slice",) and any(is_sym(a) for a in ins[1:]):
            return self.dynslice_sym(eqn, ins)
        if name == "gather":
            data, rest = [0], [1]
        elif name == "dynamic_slice":
            data, rest = [0], list(range(1, len(ins)))
        elif name == "dynamic_update_slice":
            data, rest = [0, 1], list(range(2, len(ins)))
        elif name == "scatter":
            data, rest = [0, 2], [1]
        elif name == "pad":
            data, rest = [0, 1], []
        else:
            data, rest = list(range(len(ins))), []
        if any(is_sym(ins[i]) for i in rest):
            raise ExtractError(f"{name} with symbolic indices")
        table = []
        new = list(ins)
        for i in data:
            a = obj(ins[i])
            base = len(table)
            table.extend(a.reshape(-1).tolist() if a.size else [])
            new[i] = np.arange(base, base + a.size, dtype=np.int64).reshape(a.shape)
        vals = [jnp.asarray(a) for a in new]
        if name == "gather":
            P["fill_value"] = None
        sub, bp = eqn.primitive.get_bind_params(P)
        out = eqn.primitive.bind(*sub, *vals, **bp)
        outs = out if eqn.primitive.multiple_results else [out]
        res = []
        nan = tm._mk("nonfinite", (), "r", "nan")
        for o in outs:
            o = rd(o)
            r = np.empty(o.shape, dtype=object)
            for idx in np.ndindex(o.shape):
                k = int(o[idx])
                r[idx] = table[k] if 0 <= k < len(table) else nan
            res.append(r)
        return res

    def gather_sym(self, eqn, ins):
        operand, indices = ins
        flat = [(i, t) for i, t in enumerate(indices.reshape(-1)) if not (isinstance(t, T) and tm.isc(t))]
        P = eqn.params
        if len(flat) > 3:
            raise ExtractError("gather with many symbolic indices")
        dn = P["dimension_numbers"]
        n = max(operand.shape[d] for d in dn.start_index_map)
        base = np.array(
            [int(t.data) if (isinstance(t, T) and tm.isc(t)) else 0 for t in indices.reshape(-1)],
            dtype=np.int32,
        )
        result = None
        for combo in reversed(list(itertools.product(range(n), repeat=len(flat)))):
            b = base.copy()
            cond = tm.TRUE
            for (i, t), k in zip(flat, combo):
                b[i] = k
                # JAX clamps / fills outside; in-range is an obligation of the caller
                cond = tm.and_(cond, tm.eq(t, tm.const(k)))
            r = self.move(eqn, [obj(operand), b.reshape(indices.shape)])[0]
            result = r if result is None else emap(lambda x, y: tm.ite(cond, x, y), r, result)
        return [result]

    def dynslice_sym(self, eqn, ins):
        operand = obj(ins[0])
        starts = [a if not is_sym(a) else a for a in ins[1:]]
        sizes = eqn.params["slice_sizes"]
        ranges = []
        for d, s in enumerate(starts):
            if is_sym(s) and not tm.isc(s[()]):
                ranges.append(range(operand.shape[d] - sizes[d] + 1))
            else:
                v = int(s[()].data) if is_sym(s) else int(s)
                v = min(max(v, 0), operand.shape[d] - sizes[d])
                ranges.append([v])
        result = None
        for combo in reversed(list(itertools.product(*ranges))):
            cond = tm.TRUE
            for d, k in enumerate(combo):
                s = starts[d]
                if is_sym(s) and not tm.isc(s[()]):
                    hi = operand.shape[d] - sizes[d]
                    if k == 0:
                        c = tm.le(s[()], tm.const(0))
                    elif k == hi:
                        c = tm.le(tm.const(hi), s[()])
                    else:
                        c = tm.eq(s[()], tm.const(k))
                    cond = tm.and_(cond, c)
            r = operand[tuple(slice(k, k + n) for k, n in zip(combo, sizes))]
            result = r if result is None else emap(lambda x, y: tm.ite(cond, x, y), r, result)
        return [result]

    # -- control flow -----------------------------------------------------------
    def scan(self, P, ins):
        nc, nk, L = P["num_consts"], P["num_carry"], P["length"]
        jx = P["jaxpr"]
        if not any(is_sym(a) for a in ins) and not contains_opaque(jx):
            vals = [jnp.asarray(a) for a in ins]
            return [rd(o) for o in lax.scan_p.bind(*vals, **P)]
        consts, carry, xs = ins[:nc], list(ins[nc : nc + nk]), ins[nc + nk :]
        ys = []
        order = range(L - 1, -1, -1) if P["reverse"] else range(L)
        for i in order:
            xi = [np.asarray(x[i]) if not is_sym(x) else (x[i] if isinstance(x[i], np.ndarray) else oarr((), [x[i]])) for x in xs]
            out = self.jaxpr(jx.jaxpr, [rd(c) for c in jx.consts], consts + carry + xi)
            carry = out[:nk]
            ys.append(out[nk:])
        if P["reverse"]:
            ys = ys[::-1]
        res = list(carry)
        nys = len(jx.jaxpr.outvars) - nk
        for j in range(nys):
            parts = [y[j] for y in ys]
            if not parts:
                av = jx.jaxpr.outvars[nk + j].aval
                res.append(np.zeros((0,) + tuple(av.shape)))
            elif any(is_sym(p) for p in parts):
                o = np.empty((L,) + parts[0].shape, dtype=object)
                for i, p in enumerate(parts):
                    o[i] = obj(p) if parts[0].ndim else obj(p)[()]
                res.append(o)
            else:
                res.append(np.stack([np.asarray(p) for p in parts]))
        return res

    def while_(self, P, ins):
        cn, bn = P["cond_nconsts"], P["body_nconsts"]
        cc, bc, carry = ins[:cn], ins[cn : cn + bn], list(ins[cn + bn :])
        cj, bj = P["cond_jaxpr"], P["body_jaxpr"]
        for _ in range(100000):
            (p,) = self.jaxpr(cj.jaxpr, [rd(c) for c in cj.consts], cc + carry)
            if is_sym(p):
                p = p[()]
                if p is tm.TRUE or p is tm.FALSE:
                    p = p is tm.TRUE
                else:
                    raise ExtractError("while with a symbolic condition")
            if not bool(p):
                return carry
            carry = self.jaxpr(bj.jaxpr, [rd(c) for c in bj.consts], bc + carry)
        raise ExtractError("while does not terminate")

    def cond(self, P, ins):
        idx, args = ins[0], ins[1:]
        br = P["branches"]
        if not is_sym(idx) or tm.isc(lift(idx[()])):
            k = int(idx) if not is_sym(idx) else int(lift(idx[()]).data)
            k = min(max(k, 0), len(br) - 1)
            b = br[k]
            return self.jaxpr(b.jaxpr, [rd(c) for c in b.consts], args)
        t = lift(idx[()])
        outs = [self.jaxpr(b.jaxpr, [rd(c) for c in b.consts], args) for b in br]
        res = outs[-1]
        for k in range(len(br) - 2, -1, -1):
            c = tm.le(t, tm.const(0)) if k == 0 else tm.eq(t, tm.const(k))
            res = [emap(lambda x, y: tm.ite(c, x, y), a, b) for a, b in zip(outs[k], res)]
        return res

    # -- elementwise ------------------------------------------------------------
    def p_add(self, P, a, b):
        return emap(lambda x, y: x + y, a, b)

    p_add_any = p_add

    def p_sub(self, P, a, b):
        return emap(lambda x, y: x - y, a, b)

    def p_mul(self, P, a, b):
        return emap(lambda x, y: x * y, a, b)

    def p_div(self, P, a, b):
        return emap(lambda x, y: x / y, a, b)

    def p_neg(self, P, a):
        return emap(lambda x: -x, a)

    def p_integer_pow(self, P, a):
        n = P["y"]

        def f(x):
            if isinstance(x, Cx):
                r = cx(1)
                for _ in range(abs(n)):
                    r = r * x
                return r if n >= 0 else cx(1) / r
            return tm.ipow(x, n)

        return emap(f, a)

    def p_square(self, P, a):
        return emap(lambda x: x * x if isinstance(x, Cx) else tm.ipow(x, 2), a)

    def p_pow(self, P, a, b):
        def f(x, y):
            y = lift(y)
            if isinstance(x, Cx):
                if tm.isc(y) and y.data.denominator == 1:
                    r = cx(1)
                    for _ in range(abs(int(y.data))):
                        r = r * x
                    return r if y.data >= 0 else cx(1) / r
                raise ExtractError("complex power")
            return tm.power(lift(x), y)

        return emap(f, a, b)

    def p_sqrt(self, P, a):
        def f(x):
            if isinstance(x, Cx):
                raise ExtractError("complex sqrt")
            return tm.sqrt(x)

        return emap(f, a)

    def p_rsqrt(self, P, a):
        return emap(lambda x: tm.div(tm.ONE, tm.sqrt(x)), a)

    def p_exp(self, P, a):
        def f(x):
            if isinstance(x, Cx):
                e = tm.fn("exp", x.re) if x.re is not tm.ZERO else tm.ONE
                return Cx(e * tm.fn("cos", x.im), e * tm.fn("sin", x.im))
            return tm.fn("exp", x)

        return emap(f, a)

    def p_expm1(self, P, a):
        return emap(lambda x: tm.fn("exp", x) - tm.ONE, a)

    def p_log1p(self, P, a):
        return emap(lambda x: tm.fn("log", x + tm.ONE), a)

    def p_logistic(self, P, a):
        return emap(lambda x: tm.div(tm.ONE, tm.ONE + tm.fn("exp", -x)), a)

    def p_abs(self, P, a):
        def f(x):
            if isinstance(x, Cx):
                return tm.sqrt(x.re * x.re + x.im * x.im)
            return tm.absv(x)

        return emap(f, a)

    def p_sign(self, P, a):
        return emap(tm.sign, a)

    def p_floor(self, P, a):
        return emap(lambda x: tm.fn("floor", x), a)

    def p_ceil(self, P, a):
        return emap(ceil, a)

    def p_round(self, P, a):
        return emap(lambda x: tm.fn("floor", x + tm.const(0.5)), a)

    def p_atan2(self, P, a, b):
        return emap(lambda y, x: tm.fn("atan2", y, x), a, b)

    def p_max(self, P, a, b):
        return emap(lambda x, y: tm.maxv(lift(x), lift(y)), a, b)

    def p_min(self, P, a, b):
        return emap(lambda x, y: tm.minv(lift(x), lift(y)), a, b)

    def p_clamp(self, P, lo, x, hi):
        return emap(lambda lo, x, hi: tm.minv(tm.maxv(lo, x), hi), lo, x, hi)

    def p_rem(self, P, a, b):
        def f(x, y):
            x, y = lift(x), lift(y)
            q = tm.div(x, y)
            if tm.isc(x) and tm.isc(y):
                k = abs(x.data) // abs(y.data)
                return x - y * tm.const(k * (1 if q.data >= 0 else -1))
            return x - y * trunc(q)

        return emap(f, a, b)

    def p_select_n(self, P, which, *cases):
        if not is_sym(which) and len(cases) == 2:
            w = np.asarray(which)
            if w.dtype == bool or w.dtype.kind in "iu":
                a, b = obj(cases[0]), obj(cases[1])
                if w.shape == ():
                    return b if bool(w) else a
                out = np.empty(a.shape, dtype=object)
                for idx in np.ndindex(a.shape):
                    out[idx] = b[idx] if bool(w[idx]) else a[idx]
                return out

        def f(w, *cs):
            if len(cs) == 2:
                w = liftb(w)
                x, y = cs[1], cs[0]
                return sel(w, x, y)
            r = cs[-1]
            for k in range(len(cs) - 2, -1, -1):
                r = sel(tm.eq(lift(w), tm.const(k)), cs[k], r)
            return r

        return emap(f, np.broadcast_to(obj(which), obj(cases[0]).shape), *cases)

    def p_convert_element_type(self, P, a):
        kind = np.dtype(P["new_dtype"]).kind

        def f(x):
            if isinstance(x, Cx):
                return x if kind == "c" else x.re
            if kind == "b":
                return liftb(x)
            x = lift(x) if kind != "c" else x
            if kind in "iu" and not tm.isint(x):
                return trunc(x)
            return cx(x) if kind == "c" else x

        return emap(f, a)

    def p_reduce_precision(self, P, a):
        return obj(a)

    def p_stop_gradient(self, P, a):
        return obj(a)

    def p_is_finite(self, P, a):
        return emap(lambda x: tm.FALSE if isinstance(x, T) and x.op == "nonfinite" else tm.TRUE, a)

    def _cmp(f):  # noqa: N805
        def g(self, P, a, b):
            def h(x, y):
                if isinstance(x, T) and x.kind == "b" and isinstance(y, T) and y.kind == "b":
                    return f(tm.lift(x), tm.lift(y)) if f not in (tm.eq,) else tm.iff(x, y)
                return f(lift(x), lift(y))

            return emap(h, a, b)

        return g

    p_lt = _cmp(tm.lt)
    p_le = _cmp(tm.le)
    p_lt_to, p_le_to = p_lt, p_le  # total order: the same on finite numbers
    p_gt = _cmp(lambda x, y: tm.lt(y, x))
    p_ge = _cmp(lambda x, y: tm.le(y, x))
    p_eq = _cmp(tm.eq)
    p_ne = _cmp(lambda x, y: tm.not_(tm.eq(x, y)))

    def p_and(self, P, a, b):
        return emap(lambda x, y: tm.and_(liftb(x), liftb(y)), a, b)

    def p_or(self, P, a, b):
        return emap(lambda x, y: tm.or_(liftb(x), liftb(y)), a, b)

    def p_xor(self, P, a, b):
        return emap(lambda x, y: tm.not_(tm.iff(liftb(x), liftb(y))), a, b)

    def p_not(self, P, a):
        return emap(lambda x: tm.not_(liftb(x)), a)

    def p_real(self, P, a):
        return emap(lambda x: cx(x).re, a)

    def p_imag(self, P, a):
        return emap(lambda x: cx(x).im, a)

    def p_conj(self, P, a):
        return emap(lambda x: Cx(cx(x).re, -cx(x).im), a)

    def p_complex(self, P, a, b):
        return emap(lambda x, y: Cx(x, y), a, b)

    # -- reductions ---------------------------------------------------------------
    def _reduce(self, a, axes, f):
        a = obj(a)
        axes = sorted(ax % a.ndim for ax in axes)
        keep = [i for i in range(a.ndim) if i not in axes]
        b = np.transpose(a, keep + axes)
        shp = tuple(a.shape[i] for i in keep)
        b = b.reshape(shp + (-1,)) if b.size else np.empty(shp + (0,), dtype=object)
        out = np.empty(shp, dtype=object)
        for idx in np.ndindex(shp):
            out[idx] = f(list(b[idx]))
        return out

    def p_reduce_sum(self, P, a):
        return self._reduce(a, P["axes"], gsum)

    def p_reduce_prod(self, P, a):
        def f(xs):
            r = tm.ONE
            for x in xs:
                r = x * r
            return r

        return self._reduce(a, P["axes"], f)

    def _fold(op):  # noqa: N805
        def g(self, P, a):
            def f(xs):
                r = xs[0]
                for x in xs[1:]:
                    r = op(r, x)
                return r

            return self._reduce(a, P["axes"], f)

        return g

    p_reduce_max = _fold(lambda x, y: tm.maxv(lift(x), lift(y)))
    p_reduce_min = _fold(lambda x, y: tm.minv(lift(x), lift(y)))
    p_reduce_and = _fold(lambda x, y: tm.and_(liftb(x), liftb(y)))
    p_reduce_or = _fold(lambda x, y: tm.or_(liftb(x), liftb(y)))

    def _arg(pick):  # noqa: N805
        def g(self, P, a):
            def f(xs):
                best, bi = lift(xs[0]), tm.ZERO
                for i, x in enumerate(xs[1:], 1):
                    c = pick(lift(x), best)
                    best, bi = tm.ite(c, lift(x), best), tm.ite(c, tm.const(i), bi)
                return bi

            return self._reduce(a, P["axes"], f)

        return g

    p_argmax = _arg(lambda x, b: tm.lt(b, x))
    p_argmin = _arg(lambda x, b: tm.lt(x, b))

    def _cum(op):  # noqa: N805
        def g(self, P, a):
            a = obj(a)
            ax, rev = P["axis"], P["reverse"]
            b = np.moveaxis(a, ax, 0).copy()
            n = b.shape[0]
            rng = range(n - 2, -1, -1) if rev else range(1, n)
            for i in rng:
                j = i + 1 if rev else i - 1
                if b.ndim == 1:
                    b[i] = op(b[j], b[i])
                else:
                    b[i] = emap(op, b[j], b[i])
            return np.moveaxis(b, 0, ax)

        return g

    p_cumsum = _cum(lambda x, y: x + y)
    p_cumprod = _cum(lambda x, y: x * y)
    p_cummax = _cum(lambda x, y: tm.maxv(lift(x), lift(y)))
    p_cummin = _cum(lambda x, y: tm.minv(lift(x), lift(y)))

    def p_sort(self, P, *arrs):
        ax, nk = P["dimension"], P["num_keys"]
        arrs = [np.moveaxis(obj(a), ax, -1).copy() for a in arrs]
        n = arrs[0].shape[-1]
        if n > 8:
            raise ExtractError("long symbolic sort")
        if nk != 1:
            raise ExtractError("multi-key symbolic sort")
        for idx in np.ndindex(arrs[0].shape[:-1]):
            rows = [list(a[idx]) for a in arrs]
            for i in range(n):
                for j in range(n - 1 - i):
                    c = tm.lt(lift(rows[0][j + 1]), lift(rows[0][j]))
                    for r in rows:
                        r[j], r[j + 1] = sel(c, r[j + 1], r[j]), sel(c, r[j], r[j + 1])
            for a, r in zip(arrs, rows):
                for k in range(n):
                    a[idx + (k,)] = r[k]
        return [np.moveaxis(a, -1, ax) for a in arrs]

    def p_dot_general(self, P, a, b):
        (ca, cb), (ba, bb) = P["dimension_numbers"]
        a, b = obj(a), obj(b)
        ra = [i for i in range(a.ndim) if i not in ca and i not in ba]
        rb = [i for i in range(b.ndim) if i not in cb and i not in bb]
        A = np.transpose(a, list(ba) + ra + list(ca))
        B = np.transpose(b, list(bb) + rb + list(cb))
        bs = tuple(a.shape[i] for i in ba)
        sa = tuple(a.shape[i] for i in ra)
        sb = tuple(b.shape[i] for i in rb)
        K = int(np.prod([a.shape[i] for i in ca], dtype=int))
        A = A.reshape(bs + (int(np.prod(sa, dtype=int)), K))
        B = B.reshape(bs + (int(np.prod(sb, dtype=int)), K))
        out = np.empty(bs + (A.shape[-2], B.shape[-2]), dtype=object)
        for idx in np.ndindex(bs):
            for i in range(A.shape[-2]):
                for j in range(B.shape[-2]):
                    out[idx + (i, j)] = gsum(
                        [x * y for x, y in zip(A[idx + (i,)], B[idx + (j,)])]
                    )
        return out.reshape(bs + sa + sb)

    def densify(self, info, data, indices):
        """batch dimensions of size one are broadcast, as jax.experimental.sparse documents"""
        if is_sym(indices):
            raise ExtractError("symbolic sparse indices")
        shape, d = tuple(info.shape), obj(data)
        nb = indices.ndim - 2
        dense = np.empty(shape, dtype=object)
        dense[...] = tm.ZERO
        d = np.broadcast_to(d, shape[:nb] + d.shape[nb:])
        ind = np.broadcast_to(np.asarray(indices), shape[:nb] + indices.shape[nb:])
        for bi in np.ndindex(shape[:nb]):
            for k in range(ind.shape[nb]):
                idx = tuple(int(i) for i in ind[bi + (k,)])
                if all(0 <= i < s for i, s in zip(idx, shape[nb:])):
                    dense[bi + idx] = dense[bi + idx] + d[bi + (k,)]
        return dense

    def p_bcoo_dot_general(self, P, data, indices, rhs):
        return self.p_dot_general(P, self.densify(P["lhs_spinfo"], data, indices), rhs)

    def p_bcoo_todense(self, P, data, indices):
        return self.densify(P["spinfo"], data, indices)

    def p_scatter_mul(self, P, operand, indices, updates):
        return self.p_scatter_add(P, operand, indices, updates, lambda x, y: x * y)

    def p_scatter_add(self, P, operand, indices, updates, op=lambda x, y: x + y):
        operand, updates = obj(operand), obj(updates)
        if is_sym(indices):
            raise ExtractError("symbolic scatter")
        out = operand.copy()
        # which operand cell does each update cell hit?  ask JAX, one update at a time
        dn = P["dimension_numbers"]
        P2 = dict(P)
        mark = jnp.zeros(operand.shape)
        flat = updates.reshape(-1)
        for k in range(flat.shape[0]):
            u = np.zeros(updates.shape)
            u.reshape(-1)[k] = 1.0
            hit = np.asarray(lax.scatter_add(
                mark, jnp.asarray(indices), jnp.asarray(u), dn,
                indices_are_sorted=False, unique_indices=False, mode=P2["mode"]))
            for idx in zip(*np.nonzero(hit)):
                out[idx] = op(out[idx], flat[k])
        return out


setattr(Interp, "p_scatter-add", Interp.p_scatter_add)
setattr(Interp, "p_scatter-mul", Interp.p_scatter_mul)

for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "log", "cbrt", "erf_inv"):
    def _mkp(n):
        def p(self, P, a):
            def f(x):
                if isinstance(x, Cx):
                    raise ExtractError(f"complex {n}")
                return tm.fn(n, x)

            return emap(f, a)

        return p

    setattr(Interp, "p_" + _n, _mkp(_n))


def ceil(q):
    """least integer >= q, through floor of the same argument"""
    fl = tm.fn("floor", q)
    return tm.ite(tm.eq(fl, q), fl, fl + tm.ONE)


def trunc(q):
    return tm.ite(tm.lt(q, tm.ZERO), ceil(q), tm.fn("floor", q))


def gsum(xs):
    if xs and isinstance(xs[0], Bad):
        return Bad(frozenset().union(*[x.s for x in xs]))
    if any(isinstance(x, Cx) for x in xs):
        xs = [cx(x) for x in xs]
        return Cx(tm.sumof([x.re for x in xs]), tm.sumof([x.im for x in xs]))
    return tm.sumof([lift(x) for x in xs])


def sel(c, x, y):
    if isinstance(x, Cx) or isinstance(y, Cx):
        x, y = cx(x), cx(y)
        return Cx(tm.ite(c, x.re, y.re), tm.ite(c, x.im, y.im))
    if x.kind != y.kind:
        x, y = lift(x), lift(y)
    return tm.ite(c, x, y)


class Bad:
    """a set of (guard, fault) pairs under the operations of a dot product"""

    def __init__(self, s):
        self.s = s

    def __mul__(self, o):
        return Bad(self.s | o.s)


class Weave(Interp):
    pass


def clean(shape):
    r = np.empty(shape, dtype=object)
    for idx in np.ndindex(tuple(shape)):
        r[idx] = frozenset()
    return r


def pmap(f, *arrs):
    arrs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(arrs[0].shape, dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = f(*(a[idx] for a in arrs))
    return out


class Box:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


def pobj(a):
    return pmap(Box, a)


def unp(rs):
    return [pmap(lambda x: x.s if isinstance(x, Box) else frozenset(), r) for r in rs]


def single(r):
    if all(x is tm.FALSE for x in r.reshape(-1)):
        return None
    return pmap(lambda x: frozenset() if x is tm.FALSE else frozenset([(tm.TRUE, x)]), r)


def guarded(c, s):
    if c is tm.TRUE or not s:
        return s
    if c is tm.FALSE:
        return frozenset()
    return frozenset((tm.and_(c, g), x) for g, x in s)


class Shadow(Interp):
    """Also carries, next to every value, the formula under which the machine value is not a
    finite number: a division by zero, a negative root, or any operation on such a value;
    a selection only looks at the branch taken."""

    def run2(self, closed, args):
        return self.jaxpr2(closed.jaxpr, [rd(c) for c in closed.consts], args, [None] * len(args))

    def jaxpr2(self, jx, consts, args, bad):
        env, pz = {}, {}

        def read(v):
            return (rd(v.val), None) if isinstance(v, Literal) else (env[v], pz.get(v))

        for v, c in zip(jx.constvars, consts):
            env[v] = c
        for v, a, b in zip(jx.invars, args, bad):
            env[v] = a
            pz[v] = b
        for eqn in jx.eqns:
            got = [read(v) for v in eqn.invars]
            ins, bs = [g[0] for g in got], [g[1] for g in got]
            outs, ps = self.eqn2(eqn, ins, bs)
            for v, o, p in zip(eqn.outvars, outs, ps):
                env[v] = o if isinstance(o, np.ndarray) else rd(o)
                pz[v] = p
        r = [read(v) for v in jx.outvars]
        return [x[0] for x in r], [x[1] for x in r]

    def eqn2(self, eqn, ins, bs):
        name, P = eqn.primitive.name, eqn.params
        if name in INLINE or "call_jaxpr" in P:
            sub = P.get("jaxpr", P.get("call_jaxpr", P.get("fun_jaxpr")))
            if hasattr(sub, "jaxpr"):
                return self.jaxpr2(sub.jaxpr, [rd(c) for c in sub.consts], ins, bs)
            return self.jaxpr2(sub, [], ins, bs)
        if name in ("scan", "while", "cond") and (any(b is not None for b in bs) or any(is_sym(a) for a in ins)):
            raise ExtractError(f"{name} in a shadow extraction")
        outs = self.eqn(eqn, ins)
        own = self.own(name, P, ins)
        if own is None and all(b is None for b in bs):
            return outs, [None] * len(outs)
        full = [clean(np.shape(a)) if b is None else b for a, b in zip(ins, bs)]
        if name == "select_n":
            w, cs = full[0], full[1:]
            if len(cs) != 2:
                raise ExtractError("select_n with many cases in a shadow extraction")
            which = np.broadcast_to(obj(ins[0]), cs[0].shape)
            w = np.broadcast_to(w, cs[0].shape)
            return outs, [pmap(lambda c, w, x, y: w | guarded(liftb(c), y) | guarded(tm.not_(liftb(c)), x), which, w, *cs)]
        if name in MOVE:
            data = {"gather": [0], "dynamic_slice": [0], "dynamic_update_slice": [0, 1], "scatter": [0, 2], "pad": [0, 1]}.get(name, range(len(ins)))
            return outs, unp(self.move(eqn, [pobj(full[i]) if i in data else ins[i] for i in range(len(ins))]))
        if name in ("reduce_sum", "reduce_prod", "reduce_max", "reduce_min", "reduce_and", "reduce_or", "argmax", "argmin"):
            return outs, [self._reduce(full[0], P["axes"], lambda xs: frozenset().union(*xs))]
        if name == "dot_general":
            return outs, [self.dot_or(P, *full)]
        if name.startswith("cum"):
            return outs, [Interp._cum(lambda x, y: x | y)(self, P, full[0])]
        if name in ("jv_opaque", "sort", "scatter-add", "scatter-mul"):
            raise ExtractError(f"{name} in a shadow extraction")
        ps = full + ([own] if own is not None else [])
        r = np.empty(outs[0].shape, dtype=object)
        ps = [np.broadcast_to(p, r.shape) for p in ps]
        for idx in np.ndindex(r.shape):
            r[idx] = frozenset().union(*[p[idx] for p in ps])
        return outs, [r]

    def dot_or(self, P, a, b):
        w = Weave()
        return pmap(lambda x: x.s, w.p_dot_general(P, pmap(Bad, a), pmap(Bad, b)))

    def own(self, name, P, ins):
        """the operation's own undefined inputs"""
        if name in ("div", "rem"):
            f, src = (lambda x: tm.eq(x, tm.ZERO)), ins[1]
        elif name == "sqrt":
            f, src = (lambda x: tm.lt(x, tm.ZERO)), ins[0]
        elif name in ("rsqrt", "log"):
            f, src = (lambda x: tm.le(x, tm.ZERO)), ins[0]
        elif name == "log1p":
            f, src = (lambda x: tm.le(x + tm.ONE, tm.ZERO)), ins[0]
        elif name in ("asin", "acos"):
            f, src = (lambda x: tm.or_(tm.lt(tm.ONE, x), tm.lt(x, -tm.ONE))), ins[0]
        elif name == "integer_pow" and P["y"] < 0:
            f, src = (lambda x: tm.eq(x, tm.ZERO)), ins[0]
        elif name == "pow":
            if is_sym(ins[1]) and not all(tm.isc(lift(y)) for y in ins[1].reshape(-1)):
                raise ExtractError("power with a symbolic exponent in a shadow extraction")

            def g(x, y):
                y = lift(y).data
                out = tm.FALSE
                if y < 0:
                    out = tm.eq(lift(x), tm.ZERO)
                if y.denominator != 1:
                    out = tm.or_(out, tm.lt(lift(x), tm.ZERO))
                return out

            r = emap(g, ins[0], ins[1])
            return single(r)
        else:
            return None
        r = emap(lambda x: f(lift(x)), src)
        return single(r)


_co = {}


def contains_opaque(cj):
    jx = getattr(cj, "jaxpr", cj)
    k = id(jx)
    if k in _co:
        return _co[k][1]
    r = False
    for e in jx.eqns:
        if e.primitive is opaque_p:
            r = True
            break
        for v in e.params.values():
            for s in v if isinstance(v, (tuple, list)) else (v,):
                if hasattr(s, "eqns") or hasattr(s, "jaxpr"):
                    if contains_opaque(s):
                        r = True
                        break
    _co[k] = (jx, r)
    return r


def extract(fn, sym_inputs, shadow=False):
    """sym_inputs: pytree of object arrays (or numeric arrays). Returns (outs pytree of
    object arrays, interp stats)."""
    leaves, tree = jax.tree_util.tree_flatten(sym_inputs, is_leaf=lambda x: isinstance(x, np.ndarray))
    dummy = [
        jax.ShapeDtypeStruct(a.shape, jnp.result_type(float)) if is_sym(a) else jax.ShapeDtypeStruct(a.shape, a.dtype)
        for a in leaves
    ]

    out_tree = [None]

    def flat(*xs):
        r = fn(*jax.tree_util.tree_unflatten(tree, xs))
        ls, ot = jax.tree_util.tree_flatten(r)
        out_tree[0] = ot
        return [jnp.asarray(x) for x in ls]

    closed = jax.make_jaxpr(flat)(*dummy)
    it = Shadow() if shadow else Interp()
    args = [a if is_sym(a) else np.asarray(a) for a in leaves]
    if shadow:
        outs, bad = it.run2(closed, args)
        bad = [clean(np.shape(o)) if b is None else b for o, b in zip(outs, bad)]
        it.bad = jax.tree_util.tree_unflatten(out_tree[0], bad)
    else:
        outs = it.run(closed, args)
    outs = [obj(o) for o in outs]
    return jax.tree_util.tree_unflatten(out_tree[0], outs), it
