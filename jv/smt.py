"""SMT back ends (z3, then cvc5) for the polynomial residue of an obligation."""
from __future__ import annotations

import time
from fractions import Fraction

import z3
from gmpy2 import mpq

STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0], "queries": 0}


def zq(q):
    q = mpq(q)
    return z3.Q(int(q.numerator), int(q.denominator)) if q.denominator != 1 else z3.RealVal(int(q.numerator))


def snap(q, g):
    """the rational with a small denominator a float literal stands for, within 1e-13 of the
    magnitude of what was added up to make it"""
    if q.denominator <= 5000:
        return q
    f = Fraction(int(q.numerator), int(q.denominator)).limit_denominator(5000)
    if f and abs(float(mpq(f) - q)) <= 1e-13 * max(g, abs(float(q))):
        return mpq(f)
    return q


class Encoder:
    """Polynomials of one Norm -> z3 reals, with the defining facts of the atoms used."""

    def __init__(self, norm):
        self.n = norm
        self.vars = {}
        self.side = []
        self.done = set()

    def atom(self, aid):
        v = self.vars.get(aid)
        if v is None:
            at = self.n.atoms[aid]
            v = z3.Int(f"i{aid}") if at.integer else z3.Real(f"a{aid}")
            if at.integer:
                v = z3.ToReal(v)
            self.vars[aid] = v
            self.facts(at, v)
        return v

    def facts(self, at, v):
        k = at.kind
        if k == "var":
            if at.pos:
                self.side.append(v > 0)
            elif at.nonneg:
                self.side.append(v >= 0)
        elif k == "sqrt":
            self.side.append(v >= 0)
            self.side.append(v * v == self.poly(at.data))
        elif k == "cbrt":
            self.side.append(v * v * v == self.poly(at.data))
        elif k == "inv":
            self.side.append(v * self.poly(at.data) == 1)
        elif k == "S":
            c = self.atom(at.data[1])
            self.side.append(v * v + c * c == 1)
        elif k == "C":
            self.side.append(v <= 1)
            self.side.append(v >= -1)
        elif k == "exp":
            self.side.append(v > 0)
        elif k == "floor":
            p = self.poly(at.data[0])
            self.side.append(v <= p)
            self.side.append(p < v + 1)
        elif k == "atan2":
            self.side.append(v <= zq(mpq(3141592653589794, 10**15)))
            self.side.append(v >= -zq(mpq(3141592653589794, 10**15)))
        elif k == "acos":
            self.side.append(v <= zq(mpq(3141592653589794, 10**15)))
            self.side.append(v >= 0)
        elif at.nonneg:
            self.side.append(v >= 0)

    def poly(self, p):
        terms = []
        # coefficients relative to the first one, rounded literals snapped to what they stand for
        c0 = p[min(p)][0] if p else mpq(1)
        c0 = abs(c0)
        fc = float(c0)
        for m, (c, g) in p.items():
            t = zq(snap(c / c0, g / fc) * c0)
            for aid, e in m:
                v = self.atom(aid)
                if e > 0:
                    for _ in range(e):
                        t = t * v
                else:
                    key = ("neg", aid)
                    w = self.vars.get(key)
                    if w is None:
                        w = z3.Real(f"n{aid}")
                        self.vars[key] = w
                        self.side.append(w * v == 1)
                    for _ in range(-e):
                        t = t * w
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]


SCALE = 1.0  # of the solvers' time limits, raised on a second attempt


def check(enc, cons, timeout_ms=3000, want_model=False, use_cvc5=True):
    """-> ('unsat'|'sat'|'unknown', model or None, back end)"""
    STATS["queries"] += 1
    timeout_ms = int(timeout_ms * SCALE)
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for c in cons:
        s.add(c)
    for c in enc.side:
        s.add(c)
    t = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    STATS["z3"][0] += 1
    STATS["z3"][1] += time.time() - t
    if r != "unknown" or not use_cvc5:
        return r, (s.model() if r == "sat" and want_model else None), "z3"
    t = time.time()
    try:
        r = cvc5_check("(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n", timeout_ms)
    except Exception:  # noqa: BLE001
        r = "unknown"
    STATS["cvc5"][0] += 1
    STATS["cvc5"][1] += time.time() - t
    return r, None, "cvc5"


def cvc5_check(text, timeout_ms):
    import cvc5

    slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(timeout_ms))
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
    sm = parser.getSymbolManager()
    res = "unknown"
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        out = str(cmd.invoke(slv, sm)).strip()
        if out in ("sat", "unsat", "unknown"):
            res = out
    return res
