"""Normal forms.  A real term becomes a Laurent polynomial over atoms (variables, square
and cube roots, sines/cosines of base angles, uninterpreted applications, and reciprocals
of non-monomial polynomials), modulo the defining relations of the atoms.  Coefficients
are exact rationals; each carries the magnitude of what was added up to make it, and a
coefficient below TOL times that magnitude is zero (the float64 literals of the code are
themselves rounded: pi, 1/3, Gauss-Legendre nodes, rotation constants ...)."""
from __future__ import annotations

import bisect
import math

import gmpy2
from gmpy2 import mpfr, mpq

from . import terms as tm

gmpy2.get_context().precision = 220


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Restart(Exception):
    pass


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


ONE_Q = mpq(1)
HALF_PI = tm.PI_Q / 2


def near(a, b, tol=1e-12):
    return abs(a - b) <= tol * max(abs(a), abs(b))


def near_rational(x, maxden=16, maxnum=96):
    f = float(x)
    for d in range(1, maxden + 1):
        n = round(f * d)
        if n != 0 and abs(n) <= maxnum * d and abs(x * d - n) <= mpq(1, 10**12) * abs(n):
            g = math.gcd(n, d)
            return mpq(n // g, d // g)
    return None


class Atom:
    __slots__ = ("id", "kind", "data", "nonneg", "fp", "term", "integer", "pos")

    def __repr__(self):
        return f"<{self.id}:{self.kind}>"


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Norm:
    def __init__(self, tol=1e-11, domain=None, nonneg=(), positive=(), max_terms=60000):
        self.tol = tol
        self.units = {}  # angle key -> base units (mpq)
        self.domain = domain or {}
        self.nonneg_vars = set(nonneg)
        self.pos_vars = set(positive)
        self.oracle = None  # callable(poly) -> +1/-1/0/None
        self.max_terms = max_terms
        self.restarts = 0
        self.lemmas = []
        self.decider = None
        self.uf_rules = {}
        self.root_hints = []
        self._inhint = False
        self.busy = set()  # facts being normalised
        self.clear()

    def clear(self):
        self.atoms = []
        self.by_key = {}
        self.fpindex = {}
        self.memo = {}
        self.signs = {}
        self.termof = {}

    # -- polynomials ---------------------------------------------------------
    def cst(self, q):
        q = mpq(q)
        return {} if q == 0 else {(): (q, abs(float(q)))}

    def padd(self, a, b, s=1):
        if not b:
            return a
        if len(a) < len(b) and s == 1:
            a, b = b, a
        r = dict(a)
        tol = self.tol
        for m, (c, g) in b.items():
            o = r.get(m)
            if o is None:
                r[m] = (c, g) if s == 1 else (-c, g)
            else:
                c2 = o[0] + c if s == 1 else o[0] - c
                g2 = o[1] + g
                if c2 == 0 or abs(c2) <= tol * g2:
                    del r[m]
                else:
                    r[m] = (c2, g2)
        if len(r) > self.max_terms:
            raise TooBig()
        return r

    def pscale(self, a, q):
        if q == 0:
            return {}
        f = abs(float(q))
        return {m: (c * q, g * f) for m, (c, g) in a.items()}

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1:
            ((m, (c, g)),) = a.items()
            if not m:
                if c == 1:
                    return b
                return {k: (c * c2, g * g2) for k, (c2, g2) in b.items()}
        acc = {}
        if len(a) * len(b) > 4_000_000:
            raise TooBig()
        for m1, (c1, g1) in a.items():
            for m2, (c2, g2) in b.items():
                m = mono_mul(m1, m2)
                c, g = c1 * c2, g1 * g2
                o = acc.get(m)
                acc[m] = (c, g) if o is None else (o[0] + c, o[1] + g)
        return self.reduce(acc)

    def psub(self, a, b):
        return self.padd(a, b, -1)

    def ppow(self, a, n):
        if n < 0:
            return self.ppow(self.inverse(a), -n)
        r = self.cst(1)
        base = a
        while n:
            if n & 1:
                r = self.pmul(r, base)
            n >>= 1
            if n:
                base = self.pmul(base, base)
        return r

    def _needs(self, m):
        """First reducible (atom, exponent) in the monomial, highest id first."""
        for aid, e in reversed(m):
            at = self.atoms[aid]
            k = at.kind
            if k == "S":
                if e >= 2:
                    return at, e
            elif k == "sqrt":
                if e >= 2 or e <= -1:
                    return at, e
            elif k == "cbrt":
                if e >= 3 or e <= -1:
                    return at, e
            elif k == "inv":
                if e < 0:
                    return at, e
            elif k == "bool":
                if e != 1:
                    return at, e
        return None

    def reduce(self, acc):
        out = {}
        work = list(acc.items())
        tol = self.tol
        steps = 0
        while work:
            m, (c, g) = work.pop()
            if c == 0 or abs(c) <= tol * g:
                continue
            nd = self._needs(m)
            if nd is None:
                o = out.get(m)
                if o is None:
                    out[m] = (c, g)
                else:
                    out[m] = (o[0] + c, o[1] + g)
                continue
            steps += 1
            if steps > 3_000_000:
                raise TooBig()
            at, e = nd
            rest = tuple(x for x in m if x[0] != at.id)
            if at.kind == "S":
                k, odd = divmod(e, 2)
                # S^2 = 1 - C^2
                cid = at.data[1]
                q = {(): (ONE_Q, 1.0), ((cid, 2),): (-ONE_Q, 1.0)}
                pw = self._smallpow(q, k)
                keep = odd
            elif at.kind == "sqrt":
                k, keep = divmod(e, 2)
                pw = (
                    self._smallpow(at.data, k)
                    if k >= 0
                    else self._smallpow(self.inverse(at.data), -k)
                )
            elif at.kind == "cbrt":
                k, keep = divmod(e, 3)
                pw = (
                    self._smallpow(at.data, k)
                    if k >= 0
                    else self._smallpow(self.inverse(at.data), -k)
                )
            elif at.kind == "inv":
                pw = self._smallpow(at.data, -e)
                keep = 0
            else:  # bool atoms are 0/1-valued
                pw = self.cst(1)
                keep = 1
            base = mono_mul(rest, ((at.id, keep),)) if keep else rest
            for m2, (c2, g2) in pw.items():
                work.append((mono_mul(base, m2), (c * c2, g * g2)))
        return {m: v for m, v in out.items() if abs(v[0]) > tol * v[1]}

    def _smallpow(self, p, k):
        key = (id(p), k)
        r = self.cst(1)
        for _ in range(k):
            acc = {}
            for m1, (c1, g1) in r.items():
                for m2, (c2, g2) in p.items():
                    m = mono_mul(m1, m2)
                    o = acc.get(m)
                    c, g = c1 * c2, g1 * g2
                    acc[m] = (c, g) if o is None else (o[0] + c, o[1] + g)
            r = acc
        return r

    # -- numeric fingerprints --------------------------------------------------
    def fp(self, p):
        s = mpfr(0)
        for m, (c, _) in p.items():
            v = mpfr(c)
            for aid, e in m:
                v *= self.atoms[aid].fp ** e
            s += v
        return s

    # -- atoms -----------------------------------------------------------------
    def new_atom(self, kind, data, fpv, term, nonneg=False, integer=False, pos=False):
        a = Atom()
        a.id = len(self.atoms)
        a.kind, a.data, a.fp, a.term = kind, data, fpv, term
        a.nonneg = nonneg or pos
        a.pos = pos
        a.integer = integer
        self.atoms.append(a)
        return a

    def apoly(self, a, e=1):
        return {((a.id, e),): (ONE_Q, 1.0)}

    def find(self, kind, args, fpkey):
        """Look up a function atom by fingerprint then verify argument equality."""
        lst = self.fpindex.setdefault(kind, [])
        f = float(fpkey) if gmpy2.is_finite(fpkey) else 0.0
        i = bisect.bisect_left(lst, (f - 1e-9 * abs(f) - 1e-300,))
        while i < len(lst) and lst[i][0] <= f + 1e-9 * abs(f) + 1e-300:
            a = lst[i][2]
            if len(a.data) == len(args) and all(
                self.is_zero(self.psub(x, y)) for x, y in zip(a.data, args)
            ):
                return a
            i += 1
        return None

    def register(self, kind, a, fpkey):
        f = float(fpkey) if gmpy2.is_finite(fpkey) else 0.0
        bisect.insort(self.fpindex.setdefault(kind, []), (f, a.id, a))

    def var_atom(self, t):
        a = self.by_key.get(t)
        if a is None:
            name = t.data
            v = self.domain.get(name)
            if v is None:
                h = (hash_str(str(name)) % 10**12) / 10**12
                v = 0.15 + 0.7 * h
            # perturb so that special values are not hit by accident
            h = (hash_str("p" + str(name)) % 10**12) / 10**12
            vv = mpfr(float(v)) * (1 + mpfr(h) * mpfr("1e-3"))
            if t.op == "ivar":
                vv = mpfr(round(float(v)))
            a = self.new_atom(
                "var",
                t,
                vv,
                t,
                nonneg=name in self.nonneg_vars or name in self.pos_vars,
                pos=name in self.pos_vars,
                integer=t.op == "ivar",
            )
            self.by_key[t] = a
        return a

    def func_atom(self, kind, args, compute, mkterm, **kw):
        fps = [self.fp(x) for x in args]
        fpkey = sum((f * (i + 1) for i, f in enumerate(fps)), mpfr("0.123"))
        a = self.find(kind, args, fpkey)
        if a is None:
            try:
                v = compute(*fps)
                if not gmpy2.is_finite(v):
                    raise ValueError
            except Exception:
                v = mpfr("0.3") + mpfr(hash_str(kind + str(float(fpkey))) % 10**9) / 10**9
            a = self.new_atom(kind, list(args), v, mkterm(), **kw)
            self.register(kind, a, fpkey)
        return a

    def floor_rel(self, p):
        """floor of a constant, and floor(q + integer) through an existing floor(q)."""
        if len(p) == 1 and () in p:
            c = p[()][0]
            return self.cst(c.numerator // c.denominator)
        for _, _, b in self.fpindex.get("floor", []):
            d = self.psub(p, b.data[0])
            if len(d) == 1 and () in d and d[()][0].denominator == 1:
                return self.padd(self.apoly(b), d)
        return None

    def fpoly(self, *a, **kw):
        return self.apoly(self.func_atom(*a, **kw))

    # -- back to terms ---------------------------------------------------------
    def to_term(self, p):
        ts = []
        for m, (c, _) in sorted(p.items()):
            t = tm.const(c)
            den = tm.ONE
            for aid, e in m:
                at = self.atoms[aid].term
                if e > 0:
                    t = tm.mul(t, tm.ipow(at, e))
                else:
                    den = tm.mul(den, tm.ipow(at, -e))
            ts.append(tm.div(t, den))
        return tm.sumof(ts)

    # -- signs -----------------------------------------------------------------
    def mono_sign(self, m):
        """sign of a monomial when evident: 1 (>=0) or None"""
        for aid, e in m:
            if e % 2 == 0:
                continue
            if not self.atoms[aid].nonneg:
                return None
        return 1

    def sign(self, p):
        """+1 if p > 0 (or >= 0), -1 if <= 0, None unknown."""
        if not p:
            return 1
        if len(p) == 1:
            ((m, (c, _)),) = p.items()
            if self.mono_sign(m):
                return 1 if c > 0 else -1
        elif all(self.mono_sign(m) for m in p):
            if all(c > 0 for c, _ in p.values()):
                return 1
            if all(c < 0 for c, _ in p.values()):
                return -1
        if self.oracle is not None:
            key = frozenset((m, c) for m, (c, _) in p.items())
            if key not in self.signs:
                r = self.oracle(p)
                if r is None and self.busy:
                    return None  # asked while a fact was being normalised: may be known later
                self.signs[key] = r
            return self.signs[key]
        return None

    def need_sign(self, p):
        s = self.sign(p)
        if s is None:
            raise NeedSplit(tm.lt(self.to_term(p), tm.ZERO))
        return s

    # -- content / factors -------------------------------------------------------
    def content(self, p):
        """p = c * m * q, c>0 rational, m Laurent monomial, q with leading coeff +-1."""
        it = iter(p)
        first = next(it)
        exps = dict(first)
        for m in it:
            md = dict(m)
            for a in list(exps):
                exps[a] = min(exps[a], md.get(a, 0))
            for a, e in md.items():
                if a not in exps and e < 0:
                    exps[a] = e
        for m in p:
            md = dict(m)
            for a in list(exps):
                exps[a] = min(exps[a], md.get(a, 0))
        mon = tuple(sorted((a, e) for a, e in exps.items() if e))
        imon = tuple((a, -e) for a, e in mon)
        lead = max(p)
        c = abs(p[lead][0])
        f = abs(float(c))
        q = {mono_mul(m, imon): (v / c, g / f) for m, (v, g) in p.items()}
        return c, mon, q

    def inverse(self, p):
        if not p:
            raise ZeroDivisionError
        if len(p) == 1:
            ((m, (c, g)),) = p.items()
            return self.reduce(
                {tuple((a, -e) for a, e in m): (1 / c, 1 / abs(float(c)))}
            )
        c, mon, q = self.content(p)
        lead = q[max(q)][0]
        if lead < 0:
            q = self.pscale(q, -1)
            c = -c
        a = self.inv_atom(q)
        r = {((a.id, 1),): (1 / c, 1 / abs(float(c)))}
        if mon:
            r = self.reduce(
                {
                    mono_mul(tuple((x, -e) for x, e in mon), m): v
                    for m, v in r.items()
                }
            )
        return r

    def inv_atom(self, q):
        key = ("inv", frozenset((m, c) for m, (c, _) in q.items()))
        a = self.by_key.get(key)
        if a is not None:
            return a
        f = self.fp(q)
        lst = self.fpindex.setdefault("inv", [])
        ff = float(f)
        i = bisect.bisect_left(lst, (ff - 1e-9 * abs(ff),))
        while i < len(lst) and lst[i][0] <= ff + 1e-9 * abs(ff):
            b = lst[i][2]
            if self.is_zero(self.psub(b.data, q)):
                self.by_key[key] = b
                return b
            i += 1
        t = self.to_term(q)
        a = self.new_atom(
            "inv",
            q,
            1 / f if f != 0 else mpfr("0.7"),
            tm.div(tm.ONE, t),
            nonneg=all(self.mono_sign(m) for m in q) and all(c > 0 for c, _ in q.values()),
        )
        self.by_key[key] = a
        bisect.insort(lst, (ff, a.id, a))
        return a

    def atom_sign(self, a):
        if a.nonneg:
            return 1
        if a.kind == "inv":
            s = self.sign(a.data)
        else:
            s = self.sign(self.apoly(a))
        if s == 1 and a.kind == "inv":
            a.nonneg = True
        return s

    def factor(self, q):
        """Square-free-ish factorisation of a small polynomial via sympy; list of (poly, k)."""
        if len(q) > 40 or len(q) < 2:
            return [(q, 1)]
        aids = sorted({a for m in q for a, _ in m})
        if len(aids) > 6 or any(e < 0 for m in q for _, e in m):
            return [(q, 1)]
        coefs = {}
        for m, (c, _) in q.items():
            r = c
            if r.denominator > 10**6 or abs(r.numerator) > 10**9:
                r = near_rational(c, 12, 10**6)
                if r is None:
                    return [(q, 1)]
            coefs[m] = r
        import sympy

        syms = [sympy.Symbol(f"a{i}") for i in aids]
        pos = {a: i for i, a in enumerate(aids)}
        rep = {}
        for m, r in coefs.items():
            ex = [0] * len(aids)
            for a, e in m:
                ex[pos[a]] = e
            rep[tuple(ex)] = sympy.Rational(int(r.numerator), int(r.denominator))
        P = sympy.Poly.from_dict(rep, *syms)
        c, fl = sympy.factor_list(P)
        if len(fl) == 1 and fl[0][1] == 1:
            return [(q, 1)]
        out = []
        lead_c = mpq(int(c.p), int(c.q))
        for f, k in fl:
            d = {}
            for ex, co in f.terms():
                m = tuple((a, int(e)) for a, e in zip(aids, ex) if e)
                co = mpq(int(co.p), int(co.q))
                d[m] = (co, abs(float(co)))
            out.append((d, int(k)))
        if lead_c != 1:
            out.append((self.cst(lead_c), 1))
        return out

    # -- roots -------------------------------------------------------------------
    def cst_sqrt(self, c):
        n, d = c.numerator, c.denominator
        if gmpy2.is_square(n) and gmpy2.is_square(d):
            return mpq(gmpy2.isqrt(n), gmpy2.isqrt(d))
        return mpq(gmpy2.sqrt(mpfr(c)))

    def psqrt(self, p):
        if not p:
            return {}
        c, mon, q = self.content(p)
        result = self.cst(self.cst_sqrt(c))
        pieces = []  # polys of odd multiplicity still under the root
        for aid, e in mon:
            h, odd = divmod(e, 2)
            a = self.atoms[aid]
            if h:
                s = self.atom_sign(a) if h % 2 else 1
                if s is None:
                    raise NeedSplit(tm.lt(a.term, tm.ZERO))
                result = self.pmul(
                    result, self.reduce({((aid, h),): (mpq(s), 1.0)})
                )
            if odd:
                pieces.append(self.apoly(a))
        hint = self.hinted_root(q) if len(q) > 1 else None
        if hint is not None:
            result, q = self.pmul(result, hint), self.cst(1)
        for f, k in self.factor(q) if len(q) > 1 else [(q, 1)]:
            if len(f) == 1 and () in f and len(q) > 1:
                # numeric factor (may be negative)
                pieces.append(f)
                continue
            h, odd = divmod(k, 2)
            if h:
                s = self.need_sign(f) if h % 2 else 1
                result = self.pmul(result, self.pscale(self.ppow(f, h), s))
            if odd:
                pieces.append(f)
        # separate pieces of known sign; keep the product of the rest together
        neg = 1
        joint = None
        known = []
        unknown = []
        for f in pieces:
            s = 1 if len(f) == 1 and f.get((), (0,))[0] == 1 else self.sign(f)
            if s is None:
                unknown.append(f)
            else:
                known.append(self.pscale(f, s))
                neg *= s
        if unknown or neg < 0:
            joint = self.cst(neg)
            for f in unknown:
                joint = self.pmul(joint, f)
            if not unknown:  # sqrt(-(positive)): keep as an opaque root
                for f in known:
                    joint = self.pmul(joint, f)
                known = []
        for f in known + ([joint] if joint is not None else []):
            if not f:
                return {}
            if len(f) == 1 and () in f:
                cc = f[()][0]
                if cc > 0:
                    result = self.pscale(result, self.cst_sqrt(cc))
                    continue
            c2, m2, q2 = self.content(f)
            if c2 != 1 and not m2:
                result = self.pscale(result, self.cst_sqrt(c2))
                f = q2
            result = self.pmul(result, self.apoly(self.sqrt_atom(f)))
        return result

    def hinted_root(self, q):
        """sqrt(q) from a candidate root supplied by the contract (verified here)"""
        if self._inhint:
            return None
        self._inhint = True
        try:
            for t in self.root_hints:
                h = self._nf(t)
                c, mon, q2 = self.content(self.pmul(h, h))
                if mon or len(q2) != len(q) or not self.is_zero(self.psub(q, q2)):
                    continue
                s = self.need_sign(h)
                return self.pscale(h, s / self.cst_sqrt(c))
        finally:
            self._inhint = False
        return None

    def sqrt_atom(self, f):
        fpv = self.fp(f)
        a = self.find_poly("sqrt", f, fpv)
        if a is None:
            v = gmpy2.sqrt(fpv) if fpv >= 0 else mpfr("0.41") + mpfr(
                hash_str(str(float(fpv))) % 10**9) / 10**9
            a = self.new_atom("sqrt", f, v, tm.sqrt(self.to_term(f)), nonneg=True)
            self.register("sqrt", a, fpv)
        return a

    def find_poly(self, kind, f, fpv):
        lst = self.fpindex.setdefault(kind, [])
        ff = float(fpv)
        i = bisect.bisect_left(lst, (ff - 1e-9 * abs(ff) - 1e-300,))
        while i < len(lst) and lst[i][0] <= ff + 1e-9 * abs(ff) + 1e-300:
            if self.is_zero(self.psub(lst[i][2].data, f)):
                return lst[i][2]
            i += 1
        return None

    def pcbrt(self, p):
        if not p:
            return {}
        c, mon, q = self.content(p)
        s = 1
        if len(q) > 1 and q[max(q)][0] < 0:
            q = self.pscale(q, -1)
            s = -1
        elif len(q) == 1:
            (v,) = q.values()
            s = 1 if v[0] > 0 else -1
            q = None
        cr = gmpy2.cbrt(mpfr(c))
        e = mpq(gmpy2.rint(cr)) if c.denominator == 1 else None
        result = self.cst(s * (e if e is not None and e**3 == c else mpq(cr)))
        under = q
        rest = ()
        for aid, ex in mon:
            h, r = divmod(ex, 3)
            if h:
                result = self.pmul(result, self.reduce({((aid, h),): (ONE_Q, 1.0)}))
            if r:
                rest = mono_mul(rest, ((aid, r),))
        for aid, r in rest:
            a = self.cbrt_atom(self.apoly(self.atoms[aid]))
            result = self.pmul(result, self.ppow(self.apoly(a), r))
        if under is not None and len(under) > 1:
            result = self.pmul(result, self.apoly(self.cbrt_atom(under)))
        return result

    def cbrt_atom(self, f):
        fpv = self.fp(f)
        a = self.find_poly("cbrt", f, fpv)
        if a is None:
            a = self.new_atom(
                "cbrt",
                f,
                gmpy2.cbrt(fpv),
                tm.fn("cbrt", self.to_term(f)),
                nonneg=self.sign(f) == 1,
            )
            self.register("cbrt", a, fpv)
        return a

    # -- cancellation ------------------------------------------------------------
    def cancel(self, p):
        """Cancel Q against 1/Q: A/Q + B -> A' + B when Q divides A exactly (checked)."""
        if len(p) < 2:
            return p
        for _ in range(12):
            ids = sorted({a for m in p for a, e in m if self.atoms[a].kind == "inv"}, reverse=True)
            for aid in ids:
                top = max(dict(m).get(aid, 0) for m in p)
                hi = {}
                for m, v in p.items():
                    if dict(m).get(aid, 0) == top:
                        hi[tuple(x for x in m if x[0] != aid)] = v
                Q = self.atoms[aid].data
                if len(hi) < len(Q) and len(hi) < 2:
                    continue
                q = self.divide(hi, Q)
                if q is None:
                    continue
                rest = {m: v for m, v in p.items() if dict(m).get(aid, 0) != top}
                if top > 1:
                    q = {mono_mul(m, ((aid, top - 1),)): v for m, v in q.items()}
                p = self.padd(self.reduce(q), rest)
                break
            else:
                return p
            if not p:
                return p
        return p

    def divide(self, A, Q):
        """Exact Laurent division A/Q, or None."""
        ids = sorted({a for m in list(A) + list(Q) for a, _ in m})
        if len(ids) > 40:
            return None
        ix = {a: i for i, a in enumerate(ids)}

        def vec(m):
            v = [0] * len(ids)
            for a, e in m:
                v[ix[a]] = e
            return tuple(v)

        R = {vec(m): v for m, v in A.items()}
        D = [(vec(m), v) for m, v in Q.items()]
        lm, lc = max(D)
        out = {}
        for _ in range(4 * len(A) + 4):
            if not R:
                return {tuple((a, e) for a, e in zip(ids, k) if e): v for k, v in out.items()}
            m = max(R)
            c, g = R[m]
            k = tuple(x - y for x, y in zip(m, lm))
            if any(x < 0 and self.atoms[a].kind in ("S", "inv", "sqrt", "cbrt", "bool") for a, x in zip(ids, k)):
                return None
            f, fg = c / lc[0], g / abs(float(lc[0]))
            if k in out:
                return None
            out[k] = (f, fg)
            for dm, (dc, dg) in D:
                mm = tuple(x + y for x, y in zip(dm, k))
                o = R.get(mm, (mpq(0), 0.0))
                c2, g2 = o[0] - f * dc, o[1] + fg * abs(float(dc))
                if c2 == 0 or abs(c2) <= self.tol * g2:
                    R.pop(mm, None)
                else:
                    R[mm] = (c2, g2)
            R.pop(m, None)
        return None

    # -- trigonometry ----------------------------------------------------------
    def trig(self, p):
        """(sin p, cos p) as polynomials."""
        p = self.cancel(p)
        s, c = {}, self.cst(1)
        for m, (q, _) in sorted(p.items()):
            s1, c1 = self.trig1(m, q)
            s, c = (
                self.padd(self.pmul(s, c1), self.pmul(c, s1)),
                self.psub(self.pmul(c, c1), self.pmul(s, s1)),
            )
        return s, c

    def trig1(self, m, q):
        if not m:
            k = q / HALF_PI
            n = gmpy2.rint(mpfr(k))
            if abs(k - mpq(n)) <= mpq(1, 10**12) * max(1, abs(mpq(n))):
                r = int(n) % 4
                return self.cst([0, 1, 0, -1][r]), self.cst([1, 0, -1, 0][r])
            f = mpfr(q)
            return self.cst(mpq(gmpy2.sin(f))), self.cst(mpq(gmpy2.cos(f)))
        if all(self.atoms[a].integer and e > 0 for a, e in m):
            k = q / (4 * HALF_PI)
            n = gmpy2.rint(mpfr(k))
            if n != 0 and abs(k - mpq(n)) <= mpq(1, 10**12) * abs(mpq(n)):
                return {}, self.cst(1)
        us = self.units.setdefault(self.ukey(m), [])
        if not us and len(m) == 1 and self.atoms[m[0][0]].kind in ("atan2", "acos", "asin", "atan"):
            us.append(mpq(1))
        # incommensurate multiples of one angle get independent base angles
        for i, u in enumerate(us):
            r = near_rational(q / u)
            if r is None:
                continue
            if r.denominator != 1:
                us[i] = u / r.denominator
                raise Restart()
            return self.base_angle(m, u, int(r))
        us.append(abs(q))
        return self.base_angle(m, abs(q), 1 if q > 0 else -1)

    def ukey(self, m):
        """identity of an angle monomial stable across restarts"""
        return tuple((self.atoms[a].term, e) for a, e in m)

    def base_angle(self, m, u, k):
        s, c = self.base_sc(m, u)
        if k < 0:
            s = self.pscale(s, -1)
            k = -k
        rs, rc = {}, self.cst(1)
        bs, bc = s, c
        while k:
            if k & 1:
                rs, rc = (
                    self.padd(self.pmul(rs, bc), self.pmul(rc, bs)),
                    self.psub(self.pmul(rc, bc), self.pmul(rs, bs)),
                )
            k >>= 1
            if k:
                bs, bc = (
                    self.pscale(self.pmul(bs, bc), 2),
                    self.psub(self.pmul(bc, bc), self.pmul(bs, bs)),
                )
        return rs, rc

    def base_sc(self, m, u):
        if len(m) == 1 and m[0][1] == 1:
            a = self.atoms[m[0][0]]
            if a.kind in ("atan2", "acos", "asin", "atan"):
                if near(u, mpq(1)):
                    return self.arc_sc(a)
                for k in (2, 4, 8, 16):
                    if near(u, mpq(1, k)):
                        # half of an angle in (-pi, pi]: cos >= 0
                        s, c = self.base_sc(m, mpq(2, k))
                        ch = self.psqrt(self.pscale(self.padd(self.cst(1), c), mpq(1, 2)))
                        return self.pmul(self.pscale(s, mpq(1, 2)), self.inverse(ch)), ch
        hit = None
        for uu, v in self.by_key.get(("SCm", m), []):
            if near(u, uu):
                hit = v
        if hit is None:
            ang = mpfr(u)
            for aid, e in m:
                ang *= self.atoms[aid].fp ** e
            t = tm.const(u)
            for aid, e in m:
                t = tm.mul(t, tm.ipow(self.atoms[aid].term, e))
            ca = self.new_atom("C", t, gmpy2.cos(ang), tm.fn("cos", t))
            sa = self.new_atom("S", (t, ca.id), gmpy2.sin(ang), tm.fn("sin", t))
            hit = (sa.id, ca.id)
            self.by_key.setdefault(("SCm", m), []).append((u, hit))
        return {((hit[0], 1),): (ONE_Q, 1.0)}, {((hit[1], 1),): (ONE_Q, 1.0)}

    def arc_sc(self, a):
        if a.kind == "atan2":
            y, x = a.data
        elif a.kind == "atan":
            y, x = a.data[0], self.cst(1)
        elif a.kind == "acos":
            x = a.data[0]
            return self.psqrt(self.psub(self.cst(1), self.pmul(x, x))), x
        else:
            x = a.data[0]
            return x, self.psqrt(self.psub(self.cst(1), self.pmul(x, x)))
        h2 = self.padd(self.pmul(x, x), self.pmul(y, y))
        if not h2 or self.is_zero(h2):
            return {}, self.cst(1)
        ih = self.inverse(self.psqrt(h2))
        return self.pmul(y, ih), self.pmul(x, ih)

    # -- zero test ---------------------------------------------------------------
    def numerator(self, p):
        """p times a product of non-zero things, with no negative exponents left."""
        for _ in range(200):
            worst = None
            for m in p:
                for aid, e in m:
                    if (e < 0) or self.atoms[aid].kind == "inv":
                        if worst is None or aid > worst:
                            worst = aid
            if worst is None:
                return p
            at = self.atoms[worst]
            if at.kind == "inv":
                top = max(dict(m).get(worst, 0) for m in p)
                pows = {}
                acc = {}
                for m, (c, g) in p.items():
                    e = dict(m).get(worst, 0)
                    rest = tuple(x for x in m if x[0] != worst)
                    k = top - e
                    if k not in pows:
                        pows[k] = self.ppow(at.data, k)
                    for m2, (c2, g2) in pows[k].items():
                        mm = mono_mul(rest, m2)
                        o = acc.get(mm)
                        v = (c * c2, g * g2)
                        acc[mm] = v if o is None else (o[0] + v[0], o[1] + v[1])
                p = self.reduce(acc)
            else:
                low = min(dict(m).get(worst, 0) for m in p)
                p = self.reduce(
                    {mono_mul(m, ((worst, -low),)): v for m, v in p.items()}
                )
            if len(p) > self.max_terms:
                raise TooBig()
        raise TooBig()

    def is_zero(self, p):
        if not p:
            return True
        if len(p) == 1:
            return False
        return not self.numerator(p)

    # -- terms -> polynomials ------------------------------------------------------
    def nf(self, t):
        """Raises Restart when an angle must be refined: every polynomial of this Norm is then
        stale, and whoever holds any has to start again (see Prover.step)."""
        return self._nf(t)

    def nfs(self, ts):
        return [self._nf(t) for t in ts]

    def _nf(self, root):
        memo = self.memo
        if root.id in memo:
            return memo[root.id]
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            if t.op == "ite":
                raise NeedSplit(t.args[0])
            pend = [a for a in t.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[t.id] = self._nf1(t, [memo[a.id] for a in t.args])
            stack.pop()
        return memo[root.id]

    def _nf1(self, t, a):
        op = t.op
        if op == "const":
            return self.cst(t.data)
        if op in ("var", "ivar"):
            return self.apoly(self.var_atom(t))
        if op == "add":
            return self.padd(a[0], a[1])
        if op == "sum":
            r = {}
            for x in a:
                r = self.padd(r, x)
            return r
        if op == "mul":
            return self.pmul(a[0], a[1])
        if op == "div":
            if not a[1]:
                raise Unsupported("division by zero")
            return self.cancel(self.pmul(a[0], self.inverse(a[1])))
        if op == "ipow":
            return self.ppow(a[0], t.data)
        if op == "sqrt":
            return self.psqrt(a[0])
        if op == "cbrt":
            return self.pcbrt(a[0])
        if op == "sin":
            return self.trig(a[0])[0]
        if op == "cos":
            return self.trig(a[0])[1]
        if op == "tan":
            s, c = self.trig(a[0])
            return self.pmul(s, self.inverse(c))
        mk = lambda: t  # noqa: E731
        if op == "atan2":
            x, y = a[1], a[0]
            if not y:
                if self.sign(x) == 1:
                    return {}
                neg = tm.lt(self.to_term(x), tm.ZERO)
                v = self.decider(neg) if self.decider else None
                if v is None:
                    raise NeedSplit(neg)
                return self.cst(2 * HALF_PI) if v else {}
            if is_cst(x) and is_cst(y):
                return self.cst(mpq(gmpy2.atan2(mpfr(y[()][0]), mpfr(x[()][0] if x else 0))))
            return self.fpoly("atan2", a, lambda u, v: gmpy2.atan2(u, v), mk)
        if op == "atan":
            if is_cst(a[0]):
                return self.cst(mpq(gmpy2.atan(mpfr(a[0][()][0])))) if a[0] else {}
            return self.fpoly("atan", a, gmpy2.atan, mk)
        if op == "acos":
            if not a[0]:
                return self.cst(HALF_PI)
            if len(a[0]) == 1 and () in a[0]:
                return self.cst(mpq(gmpy2.acos(mpfr(a[0][()][0]))))
            return self.fpoly("acos", a, gmpy2.acos, mk, nonneg=True)
        if op == "asin":
            if not a[0]:
                return {}
            if len(a[0]) == 1 and () in a[0]:
                return self.cst(mpq(gmpy2.asin(mpfr(a[0][()][0]))))
            return self.fpoly("asin", a, gmpy2.asin, mk)
        if op in ("exp", "log", "sinh", "cosh", "tanh", "erf_inv", "pow", "floor", "log1p"):
            if op == "exp":
                if not a[0]:
                    return self.cst(1)
                return self.fpoly("exp", a, gmpy2.exp, mk, pos=True)
            if all(len(x) == 0 or (len(x) == 1 and () in x) for x in a) and op in (
                "log", "sinh", "cosh", "tanh",
            ):
                v = mpfr(a[0][()][0]) if a[0] else mpfr(0)
                return self.cst(mpq(getattr(gmpy2, op)(v)))
            if op == "floor":
                whole, rest = {}, {}
                for m, q in self.cancel(a[0]).items():
                    k = round(q[0])
                    if m and k and abs(q[0] - k) <= mpq(1, 10**11) * abs(k) and all(e > 0 and self.atoms[x].integer for x, e in m):
                        whole[m] = (mpq(k), abs(float(k)))
                    else:
                        rest[m] = q
                a = [rest]
                r = self.floor_rel(rest)
                if r is None:
                    r = self.fpoly("floor", a, gmpy2.floor, lambda: tm.fn("floor", self.to_term(rest)) if whole else mk(), integer=True)
                return self.padd(whole, r) if whole else r
            f = getattr(gmpy2, op, None)
            return self.fpoly(op, a, f if f else (lambda *z: mpfr("nan")), mk)
        if op == "uf":
            name, idx = t.data
            kind = f"uf:{name}:{idx}"
            rule = self.uf_rules.get(name)
            if rule is not None:
                r = rule(self, t, a)
                if r is not None:
                    return r
            for lname, lidx, largs, lval in self.lemmas:
                if lname == name and lidx == idx and len(largs) == len(a):
                    if all(
                        self.is_zero(self.psub(x, self._nf(y))) for x, y in zip(a, largs)
                    ):
                        return self._nf(lval)
            return self.fpoly(kind, a, lambda *z: mpfr("nan"), mk)
        if op == "nonfinite":
            raise Unsupported("non-finite constant reached")
        if t.kind == "b":
            return {}  # never used as a number
        raise Unsupported(f"normal form of {op}")


def is_cst(p):
    return not p or (len(p) == 1 and () in p)


def hash_str(s):
    import zlib

    return (zlib.crc32(s.encode()) * 2654435761 + zlib.adler32(s.encode()[::-1])) % (
        2**61 - 1
    )
