"""The prover: case-splits conditionals, closes equalities by normal form, everything else
by SMT over the normal forms."""
from __future__ import annotations

import time

import z3

from . import smt
from . import terms as tm
from .norm import NeedSplit, Norm, Restart, TooBig, Unsupported
from .terms import T  # noqa: F401

T_eq = tm.eq


class Fail(Exception):
    def __init__(self, why, path=(), detail=""):
        self.why, self.path, self.detail = why, path, detail


class Budget(Exception):
    pass


def has_ite(t, cache):
    r = cache.get(t.id)
    if r is None:
        for s in tm.topo([t]):
            if s.id not in cache:
                cache[s.id] = s.op == "ite" or any(cache[a.id] for a in s.args)
        r = cache[t.id]
    return r


class Prover:
    def __init__(self, requires=(), samples=(), positive=(), nonneg=(), lemmas=(), domain=None,
                 tol=1e-11, smt_ms=3000, max_leaves=4000, time_limit=300, uf_rules=None,
                 definedness=True, roots=()):
        self.requires = []
        self.samples = list(samples)
        self.pos, self.nonneg = tuple(positive), tuple(nonneg)
        self.lemmas = list(lemmas)
        self.domain = domain or (self.samples[0] if self.samples else {})
        self.tol, self.smt_ms = tol, smt_ms
        self.max_leaves, self.time_limit = max_leaves, time_limit
        self.noise = 0.0
        self.uf_rules = uf_rules or {}
        self.units = {}
        self.roots = list(roots)
        self.norms = {}
        self.itecache = {}
        self.defcache = {}
        self.samplecache = {}
        self.groundcache = {}
        self.definedness = definedness
        self.backends = {"nf": 0, "z3": 0, "cvc5": 0}
        self.leaves = 0
        self.def_obl = 0
        self.uf_eval = None
        self.base = ()
        for r in requires:
            if r is tm.TRUE:
                continue
            self.base += tuple(self.flatten(r))

    def flatten(self, r):
        if r.op == "and":
            return self.flatten(r.args[0]) + self.flatten(r.args[1])
        if r.op == "not" and r.args[0].op in ("lt", "eq"):
            return [(r.args[0], False)]
        if r.op in ("lt", "eq"):
            return [(r, True)]
        if r is tm.TRUE:
            return []
        return [(r, True)]  # compound: kept as a formula, used by SMT only

    # -- contexts --------------------------------------------------------------
    def norm(self, facts):
        key = frozenset((f.id, v) for f, v in facts)
        n = self.norms.get(key)
        if n is None:
            n = Norm(tol=self.tol, domain=self.domain, nonneg=self.nonneg, positive=self.pos)
            n.units = self.units
            n.oracle = lambda p: self.oracle(p, facts, n)
            n.decider = lambda c: self.decide(c, facts)
            n.lemmas = self.lemmas
            n.uf_rules = self.uf_rules
            n.root_hints = self.roots
            if len(self.norms) > 12:
                self.norms.pop(next(iter(self.norms)))
            self.norms[key] = n
        return n

    def path_samples(self, facts):
        """samples satisfying the path facts"""
        extra = [f for f in facts if f not in self.base]
        key = frozenset((f.id, v) for f, v in extra)
        r = self.samplecache.get(key)
        if r is None:
            r = []
            fs = [f for f, _ in extra]
            want = [v for _, v in extra]
            for e in self.samples:
                if not fs or [bool(x) for x in tm.evaluate(fs, e, self.uf_eval)] == want:
                    r.append(e)
            self.samplecache[key] = r
        return r

    def oracle(self, p, facts, n):
        lo, _, hi, _ = self.bounds(p, facts, n)
        if lo is not None and lo >= 0:
            return 1
        if hi is not None and hi <= 0:
            return -1
        t = n.to_term(p)
        ss = self.path_samples(facts)
        vals = [tm.evaluate([t], e, self.uf_eval)[0] for e in ss[:40]]
        vals = [v for v in vals if v == v]
        cand = []
        if not vals:
            cand = [1, -1]
        elif all(v >= -1e-12 for v in vals):
            cand = [1]
        elif all(v <= 1e-12 for v in vals):
            cand = [-1]
        for s in cand:
            if self.refute(facts, n, lambda enc: [enc.poly(p) < 0 if s == 1 else enc.poly(p) > 0])[0]:  # noqa: B023
                return s
        return None

    def bounds(self, p, facts, n):
        """(lo, strict, hi, strict) of p from single facts: p = r * fact + constant"""
        lo = hi = None
        los = his = False
        lead = max((m for m in p if m), default=None)
        if lead is None:
            return lo, los, hi, his
        size = len(p) - (() in p)
        for f, v in facts:
            if f.op not in ("lt", "eq") or any(has_ite(a, self.itecache) for a in f.args):
                continue
            fd = self.fact_poly(n, f)
            if not fd or abs(len(fd) - (() in fd) - size) > 1 or (f.op == "eq" and not v):
                continue
            if lead in fd and len(fd) - (() in fd) == size:
                ld = lead
            else:
                ld = max((m for m in p if m and m in fd), default=None)
                if ld is None:
                    continue
            r = p[ld][0] / fd[ld][0]
            d = n.psub(p, n.pscale(fd, r))
            if len(d) > 1:
                continue
            if d and () not in d:  # p = r * fd + c * (a positive monomial)
                ((m, (c, _)),) = d.items()
                if f.op != "eq" and all(n.atoms[a].pos for a, _ in m):
                    if (r > 0) == v and c > 0 and (lo is None or lo < 0 or (lo == 0 and not los)):
                        lo, los = 0, True
                    elif (r > 0) != v and c < 0 and (hi is None or hi > 0 or (hi == 0 and not his)):
                        hi, his = 0, True
                continue
            k = d[()][0] if d else 0  # p = r * fd + k
            if f.op == "eq":
                lo, hi, los, his = k, k, False, False
                return lo, los, hi, his
            up = (r > 0) == v  # fd > 0 (v) or fd <= 0 (not v)
            if up:
                if lo is None or k > lo or (k == lo and v):
                    lo, los = k, v
            elif hi is None or k < hi or (k == hi and v):
                hi, his = k, v
        return lo, los, hi, his

    def fact_poly(self, n, f):
        """b - a for the fact a < b; None while it is itself being normalised"""
        if f.id in n.busy:
            return None
        n.busy.add(f.id)
        try:
            return n.psub(n.nf(f.args[1]), n.nf(f.args[0]))
        except (NeedSplit, Unsupported, ZeroDivisionError, TooBig):
            return None
        finally:
            n.busy.discard(f.id)

    def formula(self, enc, f, n):
        """boolean term -> z3"""
        op = f.op
        if f is tm.TRUE:
            return z3.BoolVal(True)
        if f is tm.FALSE:
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.formula(enc, f.args[0], n))
        if op == "and":
            return z3.And(*[self.formula(enc, a, n) for a in f.args])
        if op in ("lt", "eq"):
            d = n.psub(n.nf(f.args[1]), n.nf(f.args[0]))
            e = enc.poly(d)
            return e > 0 if op == "lt" else e == 0
        raise Unsupported(f"formula {op}")

    def fact_cons(self, enc, facts, n):
        out = []
        for f, v in facts:
            if f.id in n.busy:
                continue
            n.busy.add(f.id)
            try:
                c = self.formula(enc, f, n)
            except (NeedSplit, Unsupported, ZeroDivisionError, TooBig):
                continue
            finally:
                n.busy.discard(f.id)
            out.append(c if v else z3.Not(c))
        return out

    def infeasible(self, facts, extra=None):
        return self.refute(facts, self.norm(facts), lambda enc: [])

    def ground(self, f):
        """a fact without roots, trigonometry or applications: cheap for the solvers"""
        r = self.groundcache.get(f.id)
        if r is None:
            r = self.groundcache[f.id] = not any(
                t.op not in ("const", "var", "ivar", "add", "sum", "mul", "div", "ipow", "lt", "eq", "not", "and", "true", "false")
                for t in tm.topo([f])
            )
        return r

    def refute(self, facts, n, goal):
        """(True, back end) when the facts and goal(enc) are contradictory; with the ground
        facts alone first"""
        light = tuple(x for x in facts if self.ground(x[0]))
        stages = [(light, min(1000, self.smt_ms))] if len(light) < len(facts) else []
        stages.append((facts, self.smt_ms))
        be = "z3"
        for fs, ms in stages:
            enc = smt.Encoder(n)
            g = goal(enc)
            cons = self.fact_cons(enc, fs, n)
            r, _, be = smt.check(enc, cons + g, ms, use_cvc5=fs is facts)
            if r == "unsat":
                return True, be
        return False, be

    # -- deciding an atomic condition -------------------------------------------
    def decide(self, c, facts, light=False):
        """True/False/None for an ite-free atomic condition"""
        if c is tm.TRUE or c is tm.FALSE:
            return c is tm.TRUE
        for f, v in facts:
            if f is c:
                return v
        n = self.norm(facts)
        a, b = c.args
        d = n.psub(n.nf(b), n.nf(a))  # b - a
        if not d or n.is_zero(d):
            return c.op == "eq"
        if len(d) == 1 and () in d:
            q = d[()][0]
            return q > 0 if c.op == "lt" else False
        ss = self.path_samples(facts)
        vals = set(bool(x) for e in ss[:60] for x in tm.evaluate([c], e, self.uf_eval))
        if len(vals) == 2:
            return None
        lo, los, hi, his = self.bounds(d, facts, n)
        if c.op == "lt":  # d > 0 ?
            if lo is not None and (lo > 0 or (lo == 0 and los)):
                return True
            if hi is not None and hi <= 0:
                return False
        elif (lo is not None and (lo > 0 or (lo == 0 and los))) or (hi is not None and (hi < 0 or (hi == 0 and his))):
            return False
        order = [True, False]
        if vals == {False}:
            order = [False, True]
        elif vals == {True}:
            order = [True, False]
        for want in order if not vals else order[:1]:
            def neg(enc):
                g = self.formula(enc, c, n)
                return [z3.Not(g) if want else g]  # noqa: B023

            ok, be = self.refute(facts, n, neg)
            if ok:
                self.backends[be] += 1
                return want
        return None

    def pick(self, c):
        """first atomic, ite-free condition inside c"""
        stack = [c]
        while stack:
            t = stack.pop()
            if t.op in ("not", "and"):
                stack.extend(reversed(t.args))
                continue
            if t.op in ("lt", "eq"):
                inner = None
                for s in tm.topo(list(t.args)):
                    if s.op == "ite":
                        inner = s.args[0]
                        break
                if inner is None:
                    return t
                return self.pick(inner)
            if t is tm.TRUE or t is tm.FALSE:
                continue
            raise Unsupported(f"condition {t.op}")
        raise Unsupported("no atom in condition")

    # -- proving ---------------------------------------------------------------
    def prove(self, goal):
        """goal: ('eq', lhs, rhs) or ('bool', f).  Raises Fail / Budget."""
        kind = goal[0]
        self.t0 = time.time()
        self.nleaf = 0
        terms = list(goal[1:])
        self._go(kind, terms, self.base, {}, 0)

    def budget(self):
        if time.time() - self.t0 > self.time_limit:
            raise Budget("time limit")
        if self.nleaf > self.max_leaves:
            raise Budget("case-split limit")

    def _go(self, kind, terms, facts, subst, depth):
        while True:
            self.budget()
            if depth > 400:
                raise Budget("split depth")
            for tries in range(400):
                try:
                    done, terms, facts, depth, branches = self.step(kind, terms, facts, depth)
                    break
                except Restart:
                    self.norms.clear()
                    self.budget()
            else:
                raise Fail("angle refinement does not settle", facts)
            if done:
                return
            if branches is None:
                continue
            for t2, f2 in branches:
                self._go(kind, t2, f2, subst, depth + 1)
            return

    def step(self, kind, terms, facts, depth):
        """-> (closed, terms, facts, depth, branches or None)"""
        fd = {f: v for f, v in facts}
        terms = tm.simplify_under(terms, fd)
        if kind == "eq" and terms[0] is terms[1] and not self.definedness:
            self.nleaf += 1
            self.leaves += 1
            self.backends["nf"] += 1
            return True, terms, facts, depth, None
        try:
            if self.leaf(kind, terms, facts):
                self.nleaf += 1
                self.leaves += 1
                return True, terms, facts, depth, None
            raise Fail("not proved", facts, self.describe(kind, terms))
        except NeedSplit as ns:
            c = ns.cond
        c0 = c
        c = tm.simplify_under([c], fd)[0]
        if c is tm.TRUE or c is tm.FALSE:
            # decided formula not yet reflected in the goal
            if c is tm.simplify_under([c0], {})[0]:
                raise Fail("split loop", facts)
            return False, terms, facts, depth + 1, None
        atom = self.pick(c)
        try:
            v = self.decide(atom, facts)
        except NeedSplit as ns2:
            atom = self.pick(tm.simplify_under([ns2.cond], fd)[0])
            try:
                v = self.decide(atom, facts)
            except NeedSplit:
                v = None
        if v is not None:
            return False, terms, facts + ((atom, v),), depth + 1, None
        branches = []
        for val in (True, False):
            nf_ = facts + ((atom, val),)
            if not self.path_samples(nf_):
                inf, be = self.infeasible(nf_)
                if inf:
                    self.backends[be] += 1
                    continue
            t2, f2 = terms, nf_
            eqa = atom if atom.op == "eq" and val else self.antisym(atom, val, facts)
            if eqa is not None:
                m = self.solve(eqa, facts)
                if m is not None:
                    x, e = m
                    t2 = tm.substitute(terms, {x: e})
                    fs = tm.substitute([f for f, _ in facts], {x: e})
                    f2 = []
                    dead = False
                    for g, (_, w) in zip(fs, facts):
                        if g is tm.TRUE or g is tm.FALSE:
                            if (g is tm.TRUE) != w:
                                dead = True
                            continue
                        f2.append((g, w))
                    if dead:
                        continue
                    f2 = tuple(f2)
            branches.append((t2, f2))
        return False, terms, facts, depth, branches

    def antisym(self, atom, val, facts):
        """not (a < b) joins not (b < a): a = b"""
        if atom.op != "lt" or val:
            return None
        n = self.norm(facts)
        d = n.psub(n.nf(atom.args[1]), n.nf(atom.args[0]))
        if len(d) > 6:
            return None
        for f, v in facts:
            if f.op == "lt" and not v and not any(has_ite(x, self.itecache) for x in f.args):
                fd = self.fact_poly(n, f)
                if fd and len(fd) == len(d):
                    m = next(iter(d))
                    if m in fd and d[m][0] / fd[m][0] < 0 and n.is_zero(n.psub(d, n.pscale(fd, d[m][0] / fd[m][0]))):
                        return T_eq(*atom.args)
        return None

    def solve(self, atom, facts):
        """eq atom true: x := e for some variable x (linear, constant coefficient)"""
        n = self.norm(facts)
        try:
            d = n.psub(n.nf(atom.args[0]), n.nf(atom.args[1]))
        except (NeedSplit, Unsupported, ZeroDivisionError, TooBig):
            return None
        for m, (c, _) in d.items():
            if len(m) == 1 and m[0][1] == 1 and n.atoms[m[0][0]].kind == "var":
                aid = m[0][0]
                rest = {k: v for k, v in d.items() if k != m}
                if any(self.mentions(n, a, aid) for k in rest for a, _ in k):
                    continue
                e = n.to_term(n.pscale(rest, -1 / c))
                return n.atoms[aid].term, e
        return None

    def mentions(self, n, a, aid):
        if a == aid:
            return True
        t = n.atoms[a].term
        v = n.atoms[aid].term
        return any(x is v for x in tm.variables([t]))

    def describe(self, kind, terms):
        try:
            return f"{kind}: " + "  VS  ".join(tm.show(t, 7)[:1500] for t in terms)
        except Exception:  # noqa: BLE001
            return kind

    def leaf(self, kind, terms, facts):
        if kind == "eq":
            n = self.norm(facts)
            try:
                a, b = n.nfs(terms)
                d = n.psub(a, b)
                if self.noise:
                    top = max([abs(c) for p in (a, b) for c, _ in p.values()] or [0])
                    d = {m: v for m, v in d.items() if abs(v[0]) > self.noise * top or any(e < 0 or n.atoms[i].kind == "inv" for i, e in m)}
                    if len(d) > 1:  # the same once denominators are cleared
                        d = n.numerator(d)
                        top = max([abs(c) for p in (a, b) for c, _ in n.numerator(p).values()] or [0])
                        d = {m: v for m, v in d.items() if abs(v[0]) > self.noise * top}
                if n.is_zero(d):
                    self.backends["nf"] += 1
                    if self.definedness:
                        self.check_defined(terms, facts, n)
                    return True
            except (Unsupported, ZeroDivisionError, TooBig) as ex:
                inf, be = self.infeasible(facts)
                if inf:
                    self.backends[be] += 1
                    return True
                raise Fail(f"{type(ex).__name__}: {ex}", facts, self.describe(kind, terms)) from None
            num = d
            ss = self.path_samples(facts)
            if ss:
                tt = tm.sub(*terms)
                vals = [tm.evaluate([tt, terms[0]], e, self.uf_eval) for e in ss[:5]]
                if any(abs(v) > 1e-6 * (1 + abs(w)) for v, w in vals if v == v):
                    return False
            ok, be = self.refute(facts, n, lambda enc: [enc.poly(num) != 0])
            if ok:
                self.backends[be] += 1
                if self.definedness:
                    self.check_defined(terms, facts, n)
                return True
            return False
        # boolean
        (f,) = terms
        if f is tm.TRUE:
            return True
        if f is tm.FALSE:
            inf, be = self.infeasible(facts)
            if inf:
                self.backends[be] += 1
                return True
            return False
        raise NeedSplit(f)

    def check_defined(self, terms, facts, n):
        for t in tm.topo(terms):
            if t.op == "div":
                what, key = t.args[1], ("nz", t.args[1].id)
            elif t.op == "sqrt":
                what, key = t.args[0], ("ge", t.args[0].id)
            elif t.op in ("acos", "asin"):
                what, key = t.args[0], ("unit", t.args[0].id)
            elif t.op == "ipow" and t.data < 0:
                what, key = t.args[0], ("nz", t.args[0].id)
            else:
                continue
            kk = (key, frozenset((f.id, v) for f, v in facts))
            ok = self.defcache.get(kk)
            if ok is None:
                ok = self.defined(key[0], what, facts, n)
                self.defcache[kk] = ok
                self.def_obl += 1
            if not ok:
                if self.infeasible(facts)[0]:
                    return
                raise Fail(
                    f"definedness: {dict(nz='denominator may be zero', ge='negative square root argument', unit='acos/asin argument outside [-1,1]')[key[0]]}",
                    facts,
                    tm.show(what, 7)[:1500],
                )

    def defined(self, kind, t, facts, n):
        p = n.nf(t)
        if kind != "unit":
            lo, los, hi, his = self.bounds(p, facts, n)
            if lo is not None and (lo > 0 or (lo == 0 and (los or kind == "ge"))):
                return True
            if kind == "nz" and hi is not None and (hi < 0 or (hi == 0 and his)):
                return True
        if kind == "nz":
            if not p:
                return False
            if len(p) == 1:
                (m,) = p
                if all(
                    e > 0 and self.nonzero_atom(n.atoms[a], facts, n) or e < 0 for a, e in m
                ):
                    return True
            bad = lambda e: e == 0  # noqa: E731
            if all(n.mono_sign(m) for m in p) and (
                all(c > 0 for c, _ in p.values()) or all(c < 0 for c, _ in p.values())
            ):
                if any(all(n.atoms[a].pos for a, e in m) for m in p):
                    return True
        elif kind == "ge":
            if n.sign(p) == 1:
                return True
            bad = lambda e: e < 0  # noqa: E731
        else:
            bad = lambda e: z3.Or(e > 1, e < -1)  # noqa: E731
        ok, be = self.refute(facts, n, lambda enc: [bad(enc.poly(p))])
        if ok:
            self.backends[be] += 1
        return ok

    def nonzero_atom(self, a, facts, n):
        if a.pos or a.kind in ("inv", "exp"):
            return True
        if a.kind in ("sqrt", "cbrt"):
            return self.defined("nz", n.to_term(a.data), facts, n)
        return self.refute(facts, n, lambda enc: [enc.atom(a.id) == 0])[0]
