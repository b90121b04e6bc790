"""Decision procedures for verification conditions (universally quantified terms).

prove(goal, hyps) -> Result(status, backend, time, detail) with status in
  "proved"   - discharged (ring normal form / case split / z3 / cvc5)
  "unknown"  - no back end decided it
Refutation is done by `refute` (numeric valuation of the VC), see evalt.py.
"""
import math
import time
import os
import subprocess
import tempfile
from fractions import Fraction
import z3
from .terms import *
from . import terms as TT

_pf = [0]


def pfresh(prefix, integer=False):
    _pf[0] += 1
    return var("%s$%d" % (prefix, _pf[0]), integer)


# input / draw ranges: name -> (lo, hi, kind, lo_open, hi_open)
RANGES = {}


def range_fact(t):
    """hypothesis on the value of a declared input (app or var) term"""
    r = RANGES.get(t.args[0])
    if r is None or r[2] == "b":
        return None
    lo, hi = r[0], r[1]
    lop, hop = (r[3], r[4]) if len(r) > 3 else (False, False)
    out = []
    if lo is not None:
        out.append((lt if lop else le)(const(lo), t))
    if hi is not None:
        out.append((lt if hop else le)(t, const(hi)))
    return land(*out) if out else None

STATS = {"ring": 0, "split": 0, "z3": 0, "cvc5": 0, "trivial": 0}
TIMES = {"ring": 0.0, "z3": 0.0, "cvc5": 0.0}
Z3_MS = [4000]
USE_CVC5 = [True]


class Result:
    def __init__(self, status, backend, t=0.0, detail=""):
        self.status, self.backend, self.time, self.detail = status, backend, t, detail

    @property
    def ok(self):
        return self.status == "proved"


# ---------------------------------------------------------------- SMT
class Tr:
    """Term -> z3 expression; real arithmetic, uninterpreted transcendental functions,
    axioms instantiated for every occurrence."""

    def __init__(self, hyps_terms=(), rec=None):
        self.memo = {}
        self.ax = []
        self.occ = {}
        self.R = z3.RealSort()
        self.I = z3.IntSort()
        self.funs = {}
        self.rec = rec
        self.axdone = set()
        self.pi = None
        self.src = {}

    def uf(self, name, nargs, kind, argsort=None):
        k = (name, nargs, kind)
        f = self.funs.get(k)
        if f is None:
            rs = {"I": self.I, "N": self.R, "B": z3.BoolSort()}[kind]
            f = z3.Function(name, *([self.R if argsort is None else argsort] * nargs), rs)
            self.funs[k] = f
        return f

    def r(self, t):
        """real-sorted"""
        e = self.t(t)
        if z3.is_bool(e):
            e = z3.If(e, z3.RealVal(1), z3.RealVal(0))
        if e.sort() == self.I:
            return z3.ToReal(e)
        return e

    def getpi(self):
        if self.pi is None:
            self.pi = z3.Real("pi")
            self.ax.append(self.pi > z3.RealVal("3.1415926535"))
            self.ax.append(self.pi < z3.RealVal("3.1415926536"))
        return self.pi

    def t(self, t):
        e = self.memo.get(t.id)
        if e is None:
            e = self._t(t)
            self.memo[t.id] = e
            if t.op in ("app", "v") and t.kind != "B" and t.args[0] in RANGES:
                self.src[t.id] = t
        return e

    def _num2(self, a, b):
        x, y = self.t(a), self.t(b)
        if z3.is_bool(x):
            x = self.r(a)
        if z3.is_bool(y):
            y = self.r(b)
        if x.sort() != y.sort():
            return self.r(a), self.r(b)
        return x, y

    def _t(self, t):
        op = t.op
        if op == "c":
            f = t.args[0]
            if f.denominator == 1:
                return z3.IntVal(int(f))
            return z3.RealVal(str(f))
        if op == "v":
            return z3.Int(t.args[0]) if t.args[1] else z3.Real(t.args[0])
        if op == "bv":
            return z3.Bool(t.args[0])
        if op == "pi":
            return self.getpi()
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("add", "mul"):
            es = [self.t(a) for a in t.args]
            if all(e.sort() == self.I for e in es):
                pass
            else:
                es = [self.r(a) for a in t.args]
            r = es[0]
            for e in es[1:]:
                r = r + e if op == "add" else r * e
            return r
        if op == "div":
            return self.r(t.args[0]) / self.r(t.args[1])
        if op == "ipow":
            e = int(t.args[1].args[0])
            b = self.r(t.args[0])
            r = z3.RealVal(1)
            for _ in range(abs(e)):
                r = r * b
            return r if e >= 0 else 1 / r
        if op == "not":
            return z3.Not(self.t(t.args[0]))
        if op == "and":
            return z3.And([self.t(a) for a in t.args])
        if op == "or":
            return z3.Or([self.t(a) for a in t.args])
        if op in ("lt", "le", "eq"):
            x, y = self._num2(*t.args)
            return x < y if op == "lt" else x <= y if op == "le" else x == y
        if op == "ite":
            c = self.t(t.args[0])
            x, y = self._num2(t.args[1], t.args[2])
            return z3.If(c, x, y)
        if op in ("max", "min"):
            x, y = self._num2(*t.args)
            return z3.If(x >= y, x, y) if op == "max" else z3.If(x <= y, x, y)
        if op == "abs":
            x = self.r(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op == "app":
            name = t.args[0]
            args = [self.r(a) for a in t.args[1:]]
            kind = "B" if t.kind == "B" else ("I" if name in INT_FUNS else "N")
            if not args:
                return {"B": z3.Bool, "I": z3.Int, "N": z3.Real}[kind](name)
            return self.uf(name, len(args), kind)(*args)
        if op in ("sin", "cos", "exp", "ln", "sqrt", "atan", "acos", "j1"):
            x = self.r(t.args[0])
            f = self.uf(op, 1, "N")
            e = f(x)
            self._ax1(op, t, x, e)
            return e
        if op == "atan2":
            y, x = self.r(t.args[0]), self.r(t.args[1])
            e = self.uf("atan2", 2, "N")(y, x)
            p = self.getpi()
            A = self.ax.append
            A(e <= p); A(e > -p)
            A(z3.Implies(y > 0, z3.And(e > 0, e < p)))
            A(z3.Implies(y < 0, e < 0))
            A(z3.Implies(y >= 0, e >= 0))
            A(z3.Implies(x >= 0, z3.And(e <= p / 2, e >= -p / 2)))
            A(z3.Implies(x > 0, z3.And(e < p / 2, e > -p / 2)))
            A(z3.Implies(z3.And(x < 0, y >= 0), e > p / 2))
            A(z3.Implies(z3.And(y == 0, x > 0), e == 0))
            A(z3.Implies(z3.And(y == 0, x < 0), e == p))
            return e
        if op == "pow":
            a, b = self.r(t.args[0]), self.r(t.args[1])
            e = self.uf("pow", 2, "N")(a, b)
            self.ax.append(z3.Implies(a > 0, e > 0))
            self.ax.append(z3.Implies(z3.And(a >= 1, b >= 0), e >= 1))
            self.ax.append(z3.Implies(z3.And(a >= 0, b > 0), e >= 0))
            self.ax.append(z3.Implies(z3.And(a == 0, b > 0), e == 0))
            for (a2, b2, e2) in self.occ.get("pow", [])[:5]:
                self.ax.append(z3.Implies(z3.And(b == b2, b > 0, a >= 0, a2 >= 0, a <= a2), e <= e2))
                self.ax.append(z3.Implies(z3.And(b == b2, b > 0, a >= 0, a2 >= 0, a2 <= a), e2 <= e))
            self.occ.setdefault("pow", []).append((a, b, e))
            return e
        if op == "floor":
            x = self.r(t.args[0])
            e = z3.ToInt(x)
            return e
        if op == "rnd":
            x = self.r(t.args[0])
            k = z3.Int("rnd!%d" % t.id)
            h = z3.Int("rndh!%d" % t.id)
            self.ax += [z3.ToReal(k) - x <= z3.RealVal("1/2"), x - z3.ToReal(k) <= z3.RealVal("1/2"),
                        z3.Implies(z3.Or(z3.ToReal(k) - x == z3.RealVal("1/2"), x - z3.ToReal(k) == z3.RealVal("1/2")),
                                   k == 2 * h)]
            return k
        if op == "mod":
            a, b = t.args
            x, y = self.t(a), self.t(b)
            if x.sort() == self.I and y.sort() == self.I:
                if z3.is_int_value(y) and y.as_long() > 0:
                    return x % y
            x, y = self.r(a), self.r(b)
            m = z3.Real("mod!%d" % t.id)
            q = z3.Int("modq!%d" % t.id)
            self.ax += [z3.Implies(y > 0, z3.And(m >= 0, m < y, x == y * z3.ToReal(q) + m))]
            return m
        if op in ("sum", "rmax", "rmin", "argsort", "rany"):
            return self._binder(t)
        if op == "inf":
            raise Unsupported("infinity in SMT")
        if op == "undef":
            return z3.Real("undef!%d" % t.id)
        if op == "poly":
            return self.r(t.args[0])
        raise Unsupported("SMT translation of " + op)

    def _ax1(self, op, t, x, e):
        A = self.ax.append
        prev = self.occ.setdefault(op, [])
        if op == "exp":
            A(e > 0)
            A(z3.Implies(x <= 0, e <= 1)); A(z3.Implies(x >= 0, e >= 1 + x)); A(z3.Implies(x < 0, e < 1))
            for (x2, e2) in prev[:6]:
                A((x < x2) == (e < e2)); A((x == x2) == (e == e2))
        elif op == "ln":
            A(z3.Implies(z3.And(x > 0, x <= 1), e <= 0)); A(z3.Implies(x >= 1, e >= 0))
            A(z3.Implies(z3.And(x > 0, x < 1), e < 0)); A(z3.Implies(x > 1, e > 0))
            A(z3.Implies(x > 0, e <= x - 1))
            c = t.args[0]
            if c.op == "c" and c.args[0] > 0:
                import math
                v = math.log(c.args[0])
                A(e > z3.RealVal(str(Fraction(v - 1e-9).limit_denominator(10**12))))
                A(e < z3.RealVal(str(Fraction(v + 1e-9).limit_denominator(10**12))))
            for (x2, e2) in prev[:6]:
                A(z3.Implies(z3.And(x > 0, x2 > 0), (x < x2) == (e < e2)))
        elif op == "sqrt":
            A(e >= 0)
            A(z3.Implies(x >= 0, e * e == x))
            A(z3.Implies(x > 0, e > 0))
            for (x2, e2) in prev[:6]:
                A(z3.Implies(z3.And(x >= 0, x2 >= 0), (x < x2) == (e < e2)))
        elif op in ("sin", "cos"):
            p = self.getpi()
            s, c = self.uf("sin", 1, "N")(x), self.uf("cos", 1, "N")(x)
            A(s * s + c * c == 1); A(s <= 1); A(s >= -1); A(c <= 1); A(c >= -1)
            A(z3.Implies(z3.And(x >= 0, x <= p), s >= 0)); A(z3.Implies(z3.And(x > 0, x < p), s > 0))
            A(z3.Implies(z3.And(x >= -p / 2, x <= p / 2), c >= 0))
            A(z3.Implies(z3.And(x > -p / 2, x < p / 2), c > 0))
            A(z3.Implies(z3.And(x >= 0, x <= p), s <= x))
            # sin x >= 2x/pi on [0, pi/2]
            A(z3.Implies(z3.And(x >= 0, x <= p / 2), s * p >= 2 * x))
        elif op == "atan":
            p = self.getpi()
            A(e < p / 2); A(e > -p / 2); A((x > 0) == (e > 0)); A((x < 0) == (e < 0))
            for (x2, e2) in prev[:6]:
                A((x < x2) == (e < e2))
        elif op == "acos":
            p = self.getpi()
            A(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(e >= 0, e <= p)))
        prev.append((x, e))

    def _binder(self, t):
        op = t.op
        if op == "argsort":
            n, bv, b, desc, i = t.args
            key = (n.id, bv.id, b.id, desc)
            f = self.uf("argsort!%d!%d!%s" % (n.id, b.id, desc), 1, "I", self.I)
            ii = self.t(i)
            nn = self.t(n)
            e = f(ii)
            self.memo[t.id] = e
            inr = z3.And(ii >= 0, ii < nn)
            self.ax.append(z3.Implies(inr, z3.And(e >= 0, e < nn)))
            v = self.r(subst(b, {bv: t}))
            if n.op == "c" and n.args[0] <= 8 and i.op == "c" and i.args[0] in (0, n.args[0] - 1):
                low = (i.args[0] == 0) != desc
                for k in range(int(n.args[0])):
                    w = self.r(subst(b, {bv: const(k)}))
                    self.ax.append(v <= w if low else v >= w)
            for (i2, e2, v2) in self.occ.setdefault(("as",) + key, []):
                both = z3.And(inr, i2 >= 0, i2 < nn)
                o1 = v >= v2 if not desc else v <= v2
                o2 = v2 >= v if not desc else v2 <= v
                self.ax.append(z3.Implies(z3.And(both, ii >= i2), o1))
                self.ax.append(z3.Implies(z3.And(both, i2 >= ii), o2))
                self.ax.append(z3.Implies(z3.And(both, ii != i2), e != e2))
            self.occ[("as",) + key].append((ii, e, v))
            return e
        n, bv, b = t.args
        if op == "sum":
            e = z3.Int("sum!%d" % t.id) if isint(b) else z3.Real("sum!%d" % t.id)
            if self.rec is not None and t.id not in self.axdone:
                self.axdone.add(t.id)
                k = pfresh("k", True)
                body = subst(b, {bv: k})
                h = [le(ZERO, k), lt(k, n)]
                if self.rec(lt(ZERO, body), h):
                    self.ax.append(e >= 0)
                    self.ax.append(z3.Implies(self.t(n) >= 1, e > 0))
                elif self.rec(le(ZERO, body), h):
                    self.ax.append(e >= 0)
            return e
        if op in ("rmax", "rmin"):
            e = z3.Real("%s!%d" % (op, t.id))
            k = var("%s_at!%d" % (op, t.id), True)
            kk = self.t(k)
            self.ax.append(z3.Implies(self.t(n) >= 1, z3.And(kk >= 0, kk < self.t(n), e == self.r(subst(b, {bv: k})))))
            self.occ.setdefault("rm", []).append((op, n, bv, b, e))
            return e
        if op == "rany":
            e = z3.Bool("rany!%d" % t.id)
            k = var("rany_at!%d" % t.id, True)
            kk = self.t(k)
            self.ax.append(z3.Implies(e, z3.And(kk >= 0, kk < self.t(n), self.t(subst(b, {bv: k})))))
            self.occ.setdefault("rm", []).append((op, n, bv, b, e))
            return e

    def range_axioms(self):
        done = set()
        while True:
            todo = [x for i, x in list(self.src.items()) if i not in done]
            if not todo:
                return
            for x in todo:
                done.add(x.id)
                f = range_fact(x)
                if f is not None:
                    self.ax.append(self.t(f))

    def instantiate(self, ints):
        """lower/upper bound axioms of max/min/any at the given integer index terms"""
        for (op, n, bv, b, e) in list(self.occ.get("rm", [])):
            for k in ints:
                kk = self.t(k)
                inr = z3.And(kk >= 0, kk < self.t(n))
                v = subst(b, {bv: k})
                if op == "rmax":
                    self.ax.append(z3.Implies(inr, self.r(v) <= e))
                elif op == "rmin":
                    self.ax.append(z3.Implies(inr, self.r(v) >= e))
                else:
                    self.ax.append(z3.Implies(inr, z3.Implies(self.t(v), e)))


def smt(goal, hyps, ms=None, depth=0, want_model=False):
    """'unsat' if hyps |= goal is valid"""
    ms = ms or Z3_MS[0]
    if NOSMT[0] and goal is not FALSE:
        return "unknown", "-"

    def rec(g, h):
        if depth > 1:
            return False
        st, _ = smt(g, list(hyps) + h, ms=1000, depth=depth + 1)
        return st == "unsat"
    try:
        tr = Tr(rec=rec)
        g = tr.t(goal)
        hs = [tr.t(h) for h in hyps]
        ints = []
        for x in list(walk(goal)) + [y for h in hyps for y in walk(h)]:
            if x.op == "v" and x.args[1] and not x.args[0].startswith("#") and all(x is not y for y in ints):
                ints.append(x)
        tr.instantiate([ZERO] + ints[:8])
        tr.range_axioms()
    except Unsupported:
        return "unknown", None
    s = z3.Solver()
    s.set("timeout", ms)
    for a in tr.ax:
        s.add(a)
    for h in hs:
        s.add(h)
    s.add(z3.Not(g))
    t0 = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    TIMES["z3"] += time.time() - t0
    if r == "unsat":
        return "unsat", "z3"
    if r == "unknown" and USE_CVC5[0] and depth == 0:
        t0 = time.time()
        q = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(q)
        try:
            o = subprocess.run(["cvc5", "--tlimit=%d" % ms, f.name], capture_output=True, text=True,
                               timeout=ms / 1000 + 5).stdout
        except Exception:
            o = ""
        os.unlink(f.name)
        TIMES["cvc5"] += time.time() - t0
        if o.startswith("unsat"):
            return "unsat", "cvc5"
    return r, None


_rows = {}
_lin = {}


def _row(c):
    """(op, polynomial) of a comparison with zero, or None"""
    r = _rows.get(c.id, 0)
    if r == 0:
        r = None
        if c.op in ("lt", "le", "eq"):
            try:
                r = (c.op, TT.padd(poly(c.args[0]), poly(c.args[1]), -1))
            except TooBig:
                pass
        _rows[c.id] = r
    return r


def _atom_facts(a):
    """comparisons that hold of an atom whatever its arguments"""
    out = []
    if a.op == "mod" and a.args[1].op == "c" and a.args[1].args[0] > 0:
        out += [le(ZERO, a), lt(a, a.args[1])]
    elif a.op in ("abs", "sqrt", "exp"):
        out.append(le(ZERO, a))
    elif a.op in ("sin", "cos"):
        out += [le(a, ONE), le(-ONE, a)]
    elif a.op == "min":
        out += [le(a, x) for x in a.args]
    elif a.op == "max":
        out += [le(x, a) for x in a.args]
    elif a.op in ("v", "app"):
        f = range_fact(a)
        if f is not None:
            out += conjuncts(f)
    return out


def linear(goal, hyps):
    """hyps |= goal by linear arithmetic over products of atoms taken as unknowns"""
    key = (goal.id, tuple(h.id for h in hyps))
    r = _lin.get(key)
    if r is None:
        t0 = time.time()
        r = _lin[key] = _linear(goal, hyps)
        TIMES["z3"] += time.time() - t0
    return r


def _linear(goal, hyps):
    rows = [_row(c) for h in hyps for c in conjuncts(h)]
    rows = [x for x in rows if x is not None]
    if goal is FALSE:
        if not rows:
            return False
        seed = rows.pop()
    else:
        seed = _row(lnot(goal))
        if seed is None:
            return False
    use, known, todo = [seed], set(), [seed]
    for _ in range(3):
        new = {m for _, p in todo for m in p if m} - known
        if not new:
            break
        known |= new
        todo = []
        for m in new:
            if len(m) == 1 and m[0][1] == 1:
                todo += [x for x in map(_row, _atom_facts(m[0][0])) if x is not None]
        rest = []
        for x in rows:
            (todo if any(m in new for m in x[1]) else rest).append(x)
        rows = rest
        use += todo
        if len(use) > 60:
            break
    v = {}
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 300)
    for op, p in use:
        e = z3.Sum([z3.Q(c.numerator, c.denominator) * (v.setdefault(m, z3.Real("l%d" % len(v))) if m else 1) for m, c in p.items()]) if p else z3.RealVal(0)
        s.add(e < 0 if op == "lt" else e <= 0 if op == "le" else e == 0)
    return s.check() == z3.unsat


# ---------------------------------------------------------------- ring / case split
def _conds(t, out, seen):
    for x in walk(t, seen):
        if x.op == "ite":
            out.append(x.args[0])


def simp_bool(g, hyps_set):
    pass


def conjuncts(h):
    if h.op == "and":
        r = []
        for a in h.args:
            r += conjuncts(a)
        return r
    return [h]


_facts = {}


def _known(c):
    """what a true conjunct decides: itself, its negation, and both in normal form"""
    key = (c.id, TT.TRIG_EXPAND[0])
    r = _facts.get(key)
    if r is None:
        m = {}
        cs = [c]
        if c.op in ("lt", "le", "eq"):
            try:
                cs.append(canonb(c))
            except TooBig:
                pass
        for x in cs:
            m[x] = TRUE
            neg = [lnot(x)]
            if x.op == "lt":      # a<b  =>  a<=b, not a==b
                m[le(*x.args)] = TRUE
                neg.append(eq(*x.args))
            for n in neg:
                m[n] = FALSE
                if len(cs) > 1:
                    m[canonb(n)] = FALSE
        r = _facts[key] = {k: v for k, v in m.items() if k.kind == "B" and k.op not in ("true", "false")}
    return r


def _assume_map(hyps):
    m = {}
    for h in hyps:
        for c in conjuncts(h):
            if c.op != "true":
                m.update(_known(c))
    return m


def simplify(t, hyps):
    """replace known boolean subterms"""
    m = _assume_map(hyps)
    if not m:
        return t
    return subst(t, m)


def eq_hyps(hyps):
    """x == e hypotheses usable as rewrites (var/app atom not occurring in e)"""
    m = {}
    for h in hyps:
        for c in conjuncts(h):
            if c.op == "eq":
                a, b = c.args
                if a.op == "c":
                    a, b = b, a
                for x, y in ((a, b), (b, a)):
                    if x.op in ("v", "app") and not any(z is x for z in walk(y)) and x not in m:
                        m[x] = y
                        break
    return m


def zero(d):
    """ring check of d == 0"""
    t0 = time.time()
    try:
        TRIG_EXPAND[0] = False
        try:
            p = poly(d)
            if pzero(p):
                return True
        except TooBig:
            pass
        try:
            TRIG_EXPAND[0] = True
            q = canon(d)
            if pzero(poly(q)):
                return True
            q2 = from_poly(poly(q))
            if q2 is not q and pzero(poly(q2)):
                return True
        except TooBig:
            pass
        return False
    finally:
        TRIG_EXPAND[0] = False
        TIMES["ring"] += time.time() - t0


def perm_sums(t):
    """sum_k body(argsort(k)) = sum_k body(k) when k occurs only through argsort(k)"""
    m = {}
    for x in walk(t):
        if x.op == "sum":
            n, bv, b = x.args
            for y in walk(b):
                if y.op == "argsort" and y.args[4] is bv and y.args[0] is n:
                    k = pfresh("k", True)
                    b2 = subst(b, {y: k})
                    if not occurs(bv, b2):
                        m[x] = bsum(n, lambda j: subst(b2, {k: j}))
                    break
    return subst(t, m) if m else t


MINMAX = {}


def minmax_to_ite(t):
    m = {}
    for x in walk(t):
        if x.op == "max":
            m[x] = mk("ite", (le(x.args[1], x.args[0]), x.args[0], x.args[1]), "N")
        elif x.op == "min":
            m[x] = mk("ite", (le(x.args[0], x.args[1]), x.args[0], x.args[1]), "N")
        elif x.op == "abs":
            m[x] = mk("ite", (le(ZERO, x.args[0]), x.args[0], -x.args[0]), "N")
    # innermost first handled by repeated substitution
    return subst(t, m) if m else t


def outer_minmax(t, hyps):
    """the same for the minima and maxima under no other function than sums and products; those the hypotheses decide are resolved"""
    memo = {}
    known = _assume_map(hyps)

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = x
            if x.op in ("min", "max"):
                a, b = x.args
                c = le(a, b) if x.op == "min" else le(b, a)
                try:
                    c = canonb(c)
                except TooBig:
                    pass
                c = known.get(c, c)
                r = mk("ite", (c, a, b), "N") if c.op not in ("true", "false") else go(a if c.op == "true" else b)
            elif x.op in ("add", "mul", "eq", "lt", "le"):
                r = TT.rebuild(x, [go(a) if isinstance(a, Term) else a for a in x.args])
            memo[x.id] = r
        return r
    return go(t)


class Budget(Exception):
    pass


def prove(goal, hyps=(), limit=60.0, depth_limit=14, refuter=None):
    t0 = time.time()
    deadline = t0 + limit
    goal = boolt(goal)
    hyps = [h for h in hyps if h is not TRUE]
    for h in list(hyps):
        for c in conjuncts(h):
            if c.op in ("lt", "le", "eq", "not"):
                try:
                    c2 = canonb(c)
                except TooBig:
                    continue
                if c2 is not c and c2 is not TRUE:
                    hyps.append(c2)
    # goals about arbitrary fields are abstracted first, others after a short direct attempt
    if not any(x.op == "app" and x.args[0].startswith("uf:") for x in walk(goal)):
        used = set()
        try:
            if _prove(goal, list(hyps), 0, depth_limit, min(deadline, t0 + 4), used):
                return Result("proved", "+".join(sorted(used)) or "trivial", time.time() - t0)
        except (Budget, Unsupported, RecursionError):
            pass
    if refuter is not None and goal is not TRUE and refuter():
        return Result("refuted", "-", time.time() - t0)
    used = set()
    BASE[0] = frozenset(h.id for h in hyps)
    if abstracted(goal, hyps, limit, depth_limit, used):
        return Result("proved", "+".join(sorted(used)) or "trivial", time.time() - t0)
    used = set()
    try:
        ok = _prove(goal, list(hyps), 0, depth_limit, deadline, used)
    except Budget:
        ok = False
    except Unsupported as e:
        return Result("unknown", "-", time.time() - t0, "unsupported: %s" % e)
    except RecursionError:
        return Result("unknown", "-", time.time() - t0, "recursion")
    be = "+".join(sorted(used)) or "trivial"
    return Result("proved" if ok else "unknown", be, time.time() - t0)


NOSMT = [False]
BASE = [frozenset()]


def abstracted(goal, hyps, limit, depth_limit, used):
    """the goal with every inverse trigonometric function and function on the sphere replaced by a fresh variable (equal arguments -
    up to ring normal form - get the same variable): a generalisation, so its validity implies that of the goal"""
    if goal.op not in ("eq", "and", "or"):
        return False
    ops = ("atan2", "acos")
    if not any(x.op in ops or x.op == "app" and x.args[0].startswith("uf:") for x in walk(goal)):
        return False
    try:
        NOSMT[0] = True
        return _abs_cases(goal, hyps, 0, depth_limit, time.time() + limit / 2, used)
    except (Budget, Unsupported, RecursionError, TooBig):
        return False
    finally:
        NOSMT[0] = False


def _abs_cases(goal, hyps, depth, dl, deadline, used):
    goal = simplify(goal, hyps)
    if goal is TRUE:
        return True
    if goal.op == "and":
        return all(_abs_cases(g, hyps, depth, dl, deadline, used) for g in goal.args)
    c = _find_cond(goal) if depth < 8 else None
    if c is None:
        return _prove(*_abstract(goal, hyps), 8, dl, deadline, used)
    for br, v in ((c, TRUE), (lnot(c), FALSE)):
        h2 = hyps + [br]
        m = {c: v, lnot(c): lnot(v)}
        if c.op == "lt" and v is TRUE:
            m[le(*c.args)] = TRUE
        g2 = simplify(subst(goal, {k: x for k, x in m.items() if k.op not in ("true", "false")}), h2)
        if g2 is TRUE or _infeasible(h2):
            continue
        if not _abs_cases(g2, h2, depth + 1, dl, deadline, used):
            return False
    return True


def _abstract(goal, hyps):
    """goal and hypotheses with the same replacement, the hypotheses also in normal form"""
    ops = ("atan2", "acos")
    memo, table = {}, {}

    def norm(a):
        old = TT.TRIG_EXPAND[0]
        try:
            TT.TRIG_EXPAND[0] = True
            return TT.canon(a)
        except TooBig:
            return a
        finally:
            TT.TRIG_EXPAND[0] = old

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        r = t
        if t.args:
            na = [go(a) if isinstance(a, Term) else a for a in t.args]
            if any(x is not y for x, y in zip(na, t.args)):
                r = TT.rebuild(t, na)
            if r.op in ops or r.op == "app" and r.args[0].startswith("uf:"):
                ov = open_order(r)
                m = {v: TT.var("&%d" % k, True) for k, v in enumerate(ov)}
                key = (r.op,) + tuple(norm(TT.subst(a, m) if m else a) if isinstance(a, Term) else a for a in r.args)
                if key not in table:
                    table[key] = "gen!%d" % len(table)
                r = TT.app(table[key], *ov) if ov else TT.var(table[key], False)
            elif r.op in ("sin", "cos") and r.args[0].op not in ("v", "app"):
                # a phase
                try:
                    p = TT.poly(r.args[0])
                except TooBig:
                    p = {}
                if len(p) > 3:
                    x = TT.from_poly(p)
                    ov = open_order(x)
                    m = {v: TT.var("&%d" % k, True) for k, v in enumerate(ov)}
                    p = TT.poly(TT.subst(x, m) if m else x)
                    neg = max(p.items(), key=lambda q: TT.mono_key(q[0]))[1] < 0
                    key = ("phase", TT.from_poly(TT.pscale(p, -1) if neg else p))
                    if key not in table:
                        table[key] = "gen!%d" % len(table)
                    x = TT.app(table[key], *ov) if ov else TT.var(table[key], False)
                    x = TT.mk(r.op, (x,), "N")
                    r = TT.mul(TT.const(-1), x) if neg and r.op == "sin" else x
        memo[t.id] = r
        return r
    g = boolt(go(goal))
    hs = list(hyps)
    if table:
        for h in hyps:
            if h.id in BASE[0]:
                continue
            h2 = boolt(go(h))
            if h2.op in ("lt", "le", "eq", "not"):
                try:
                    h2 = canonb(h2)
                except TooBig:
                    pass
            if h2 is not h and h2 is not TRUE:
                hs.append(h2)
    return g, hs


def _prove(goal, hyps, depth, dl, deadline, used):
    if time.time() > deadline:
        raise Budget()
    goal = simplify(goal, hyps)
    if goal is TRUE:
        return True
    if goal is FALSE:
        # an infeasible path
        ok = bool(hyps) and smt(FALSE, hyps, ms=4000, depth=1)[0] == "unsat"
        if ok:
            used.add("z3")
        return ok
    if goal.op == "and":
        return all(_prove(g, hyps, depth, dl, deadline, used) for g in goal.args)
    m = eq_hyps(hyps)
    if m:
        g2 = subst(goal, m)
        if g2 is not goal:
            for _ in range(3):
                g3 = subst(g2, m)
                if g3 is g2:
                    break
                g2 = g3
            goal = simplify(g2, hyps)
            if goal is TRUE:
                return True
            if goal.op == "and":
                return all(_prove(g, hyps, depth, dl, deadline, used) for g in goal.args)
    if goal.op == "or":
        # try: negations of the disjuncts as hypotheses for the last one
        eqs = [g for g in goal.args if g.op == "eq"]
        if eqs:
            g = eqs[0]
            rest = [lnot(x) for x in goal.args if x is not g]
            if _infeasible(hyps + rest):
                used.add("z3")
                return True
            return _prove(g, hyps + rest, depth, dl, deadline, used)
        st, be = smt(goal, hyps)
        if st == "unsat":
            used.add(be)
            return True
        return _split(goal, hyps, depth, dl, deadline, used)
    if goal.op == "eq":
        a, b = goal.args
        d = sub(a, b)
        if zero(d):
            used.add("ring")
            return True
        d2 = perm_sums(d)
        if d2 is not d and zero(d2):
            used.add("ring")
            return True
        if depth < dl:
            g2 = _sortcong(goal, hyps, depth, dl, deadline, used)
            if g2 is not None:
                return _prove(g2, hyps, depth + 1, dl, deadline, used)
        try:
            g2 = eq(canon(a), canon(b))
        except TooBig:
            g2 = goal
        if g2 is not goal:
            g2 = simplify(g2, hyps)
            if g2 is TRUE:
                used.add("ring")
                return True
            if g2.op == "eq":
                goal = g2
        if any(x.op == "sum" for x in walk(goal)):
            g2 = _sumlaws(goal, hyps)
            if g2 is not goal:
                return _prove(g2, hyps, depth + 1, dl, deadline, used)
        if _split_ite(goal, hyps, depth, dl, deadline, used):
            return True
        if _sumcong(d2, hyps, depth, dl, deadline, used):
            return True
        g = outer_minmax(goal, hyps)
        if g is TRUE:
            return True
        if g is not goal and g.op == "eq" and depth < dl:
            if not any(x.op == "ite" for x in walk(g)):
                return _prove(g, hyps, depth + 1, dl, deadline, used)
            return depth < dl and _split_ite(g, hyps, depth, dl, deadline, used)
        g = goal
        for _ in range(4):
            g2 = minmax_to_ite(g)
            if g2 is g:
                break
            g = g2
        if g is not goal and g.op == "eq" and _split_ite(g, hyps, depth, dl, deadline, used):
            return True
        if depth < dl:
            r = _enum_int(goal, hyps, depth, dl, deadline, used)
            if r is not None:
                return r
        st, be = smt(goal, hyps)
        if st == "unsat":
            used.add(be)
            return True
        return False
    if goal.op in ("lt", "le"):
        c = canonb(goal)
        if c is TRUE:
            used.add("ring")
            return True
        if linear(goal, hyps):
            used.add("z3")
            return True
        g = outer_minmax(goal, hyps)
        if g is not goal and g.op in ("lt", "le") and depth < dl:
            x = _find_outer(g)
            if x is not None and _case(g, x, hyps, depth, dl, deadline, used):
                return True
        st, be = smt(c, hyps)
        if st == "unsat":
            used.add(be)
            return True
        st, be = smt(goal, hyps)
        if st == "unsat":
            used.add(be)
            return True
        return _split_ite(goal, hyps, depth, dl, deadline, used)
    st, be = smt(goal, hyps)
    if st == "unsat":
        used.add(be)
        return True
    return _split(goal, hyps, depth, dl, deadline, used)


def _enum_int(goal, hyps, depth, dl, deadline, used):
    """case split on an integer term of the goal that the hypotheses confine to a few values; None: there is no such term"""
    lo, hi = {}, {}
    for h in hyps:
        for c in conjuncts(h):
            if c.op not in ("lt", "le"):
                continue
            s = 1 if c.op == "lt" else 0
            try:
                q = TT.poly(sub(*c.args))
            except TooBig:
                continue
            if len(q) > 2 or len(q) - (() in q) != 1:
                continue
            m, k = next((m, k) for m, k in q.items() if m)
            if len(m) != 1 or m[0][1] != 1 or m[0][0].op not in ("argsort", "v") or not isint(m[0][0]):
                continue
            a, v = m[0][0], -q.get((), 0) / k       # k a < k v (or <=)
            if k > 0:
                v = math.ceil(v) - 1 if s else math.floor(v)
                hi[a] = min(v, hi.get(a, v))
            else:
                v = math.floor(v) + 1 if s else math.ceil(v)
                lo[a] = max(v, lo.get(a, v))
    if not hi:
        return None
    occ = None
    for t, u in hi.items():
        l = lo.get(t, 0 if t.op == "argsort" else None)
        if l is None or u - l > 7 or open_binder(t):
            continue
        if occ is None:
            occ = set(x.id for x in walk(goal))
        if t.id not in occ:
            continue
        for k in range(l, u + 1):
            m = {t: const(k)}
            h2 = [subst(h, m) for h in hyps] + [eq(t, const(k))]
            g2 = simplify(subst(goal, m), h2)
            if g2 is TRUE or _infeasible(h2):
                continue
            if not _prove(g2, h2, depth + 1, dl, deadline, used):
                return False
        return True
    return None


_inf_memo = {}


def _infeasible(hyps):
    key = tuple(sorted(h.id for h in hyps))
    r = _inf_memo.get(key)
    if r is None:
        st, _ = smt(FALSE, hyps, ms=700, depth=2)
        r = st == "unsat"
        _inf_memo[key] = r
    return r


def _atomic(c):
    """an atomic condition inside a boolean term"""
    while c.op in ("and", "or", "not"):
        c = c.args[0]
    return c


_openm = {}


def open_vars(t):
    """ids of the bound variables of enclosing binders that occur in t"""
    r = _openm.get(t.id)
    if r is None:
        if t.op in ("v", "bv"):
            r = frozenset((t.id,)) if t.args[0].startswith("#") else frozenset()
        else:
            r = frozenset().union(*[open_vars(a) for a in t.args if isinstance(a, Term)])
            if t.op in ("sum", "rmax", "rmin", "rany", "argsort"):
                r = (r - {t.args[1].id}) | open_vars(t.args[0]) | (open_vars(t.args[4]) if t.op == "argsort" else frozenset())
        _openm[t.id] = r
    return r


def open_order(t):
    """the same variables, in the order of their first occurrence"""
    o = open_vars(t)
    out = []
    if o:
        seen = set()

        def go(x):
            if x.id in seen or len(out) == len(o):
                return
            seen.add(x.id)
            if x.id in o and x not in out:
                out.append(x)
            for a in x.args:
                if isinstance(a, Term):
                    go(a)
        go(t)
    return out


def open_binder(t):
    return bool(open_vars(t))


def _find_cond(goal):
    """an ite condition free of bound variables"""
    best = None
    for x in walk(goal):
        if x.op == "ite":
            c = _atomic(x.args[0])
            if c.op in ("true", "false"):
                continue
            if open_binder(c):
                continue
            if best is None or TT._size(c) < TT._size(best):
                best = c
    return best


def _find_outer(t):
    """the condition of an ite under no other function than sums and products"""
    if t.op == "ite":
        c = _atomic(t.args[0])
        return None if c.op in ("true", "false") or open_binder(c) else c
    if t.op in ("add", "mul", "eq", "lt", "le"):
        for a in t.args:
            c = _find_outer(a)
            if c is not None:
                return c
    return None


def _split_ite(goal, hyps, depth, dl, deadline, used):
    if depth >= dl:
        return False
    c = _find_cond(goal)
    if c is None:
        return False
    return _case(goal, c, hyps, depth, dl, deadline, used)


def _case(goal, c, hyps, depth, dl, deadline, used):
    for br, v in ((c, TRUE), (lnot(c), FALSE)):
        h2 = hyps + [br]
        m = {c: v, lnot(c): lnot(v)}
        if c.op == "lt" and v is TRUE:
            m[le(*c.args)] = TRUE
        g2 = subst(goal, {k: x for k, x in m.items() if k.op not in ("true", "false")})
        g2 = simplify(g2, h2)
        if g2 is TRUE:
            continue
        leaf = g2
        if g2.op == "eq" and not any(x.op == "ite" for x in walk(g2)):
            leaf = outer_minmax(g2, h2)
            if leaf is TRUE or leaf.op == "eq" and not any(x.op in ("ite", "sum") for x in walk(leaf)) and zero(sub(*leaf.args)):
                used.add("ring")
                continue
        if linear(g2 if g2.op in ("lt", "le") else FALSE, h2):
            used.add("z3")
            continue
        if _infeasible(h2):
            used.add("z3")
            continue
        if not _prove(g2, h2, depth + 1, dl, deadline, used):
            return False
    return True


def _split(goal, hyps, depth, dl, deadline, used):
    if depth >= dl:
        return False
    c = _find_cond(goal)
    if c is None and goal.op in ("and", "or", "not"):
        c = None
        for x in walk(goal):
            if x.kind == "B" and x.op not in ("and", "or", "not", "true", "false"):
                c = x
                break
        if c is not None and c is goal:
            c = None
    if c is None:
        return False
    return _case(goal, c, hyps, depth, dl, deadline, used)


def _sortcong(goal, hyps, depth, dl, deadline, used):
    """orders of pointwise equal sequences are the same: identify them"""
    keys = {}
    for x in walk(goal):
        if x.op == "argsort":
            keys.setdefault(x.args[0].id, {}).setdefault((x.args[2].id, x.args[3]), []).append(x)
    m = {}
    for bodies in keys.values():
        items = sorted(bodies.values(), key=lambda v: v[0].id)
        reps = []
        for v in items:
            n, bv, b, desc = v[0].args[:4]
            for (rb, rv, rd) in reps:
                if n.op == "c" and n.args[0] <= 8:
                    ks, hs = [const(k) for k in range(int(n.args[0]))], []
                else:
                    k = pfresh("k", True)
                    ks, hs = [k], [le(ZERO, k), lt(k, n)]
                if _same_order(n, b if desc == rd else mul(const(-1), b), bv, rb, rv, hyps, ks, hs, depth, dl, deadline, used):
                    for y in v:
                        m[y] = mk("argsort", (n, rv, rb, rd, y.args[4]), "N")
                    break
            else:
                reps.append((b, bv, desc))
    if not m:
        return None
    g = subst(goal, m)
    return g if g is not goal else None


_order_memo = {}


def _same_order(n, b, bv, rb, rv, hyps, ks, hs, depth, dl, deadline, used):
    """are the two sequences pointwise equal, up to a common shift (which does not change the order)?"""
    gap = lambda k: sub(subst(b, {bv: k}), subst(rb, {rv: k}))
    key = (n.id, b.id, bv.id, rb.id, rv.id)
    base = [h for h in hyps if h.id in BASE[0]]
    for hh in ([base] if len(base) == len(hyps) else [base, hyps]):
        k0 = key + (tuple(sorted(h.id for h in hh)),)
        same = _order_memo.get(k0)
        if same is None:
            d2 = min(depth + 1, 4)
            try:
                same = all(_prove(eq(gap(k), ZERO), hh + hs, d2, dl, deadline, used) for k in ks)
                if not same and len(ks) > 1:
                    same = all(_prove(eq(gap(k), gap(ks[0])), hh, d2, dl, deadline, used) for k in ks[1:])
                elif not same:
                    k2 = pfresh("k", True)
                    same = _prove(eq(gap(ks[0]), gap(k2)), hh + hs + [le(ZERO, k2), lt(k2, n)], d2, dl, deadline, used)
            except TooBig:
                same = False
            _order_memo[k0] = same
        if same:
            return True
    return False


def _sumcong(d, hyps, depth, dl, deadline, used):
    """sum_i c_i * sum(n, body_i) == 0 with equal n: prove sum_i c_i body_i == 0 pointwise"""
    try:
        p = poly(d)
    except TooBig:
        return False
    groups = {}
    for m, c in p.items():
        sums = [(at, e) for at, e in m if at.op == "sum"]
        if len(sums) != 1 or sums[0][1] != 1:
            return False
        at = sums[0][0]
        rest = tuple(x for x in m if x[0] is not at)
        groups.setdefault(at.args[0].id, (at.args[0], []))[1].append((c, rest, at))
    if not groups:
        return False
    for n, items in groups.values():
        k = pfresh("k", True)
        body = ZERO
        for c, rest, at in items:
            body = add(body, mul(from_poly({rest: c}), subst(at.args[2], {at.args[1]: k})))
        if not _prove(eq(body, ZERO), hyps + [le(ZERO, k), lt(k, n)], depth + 1, dl, deadline, used):
            return False
    return True


def _sumlaws(goal, hyps):
    """two laws of finite sums.
    cyclic reindexing: sum_{j<n} f(j) = sum_{l<n} f((l + s) mod n) for every integer s; used where f contains floor((j - s) / n).
    dropped tail:      sum_{l<n} (l < m ? f(l) : 0) = sum_{l<m} f(l) where 0 <= m <= n."""
    m = {}
    for x in walk(goal):
        if x.op != "sum" or open_binder(x):
            continue
        n, bv, body = x.args
        y = _cyclic(n, bv, body)
        if y is None:
            y = _tail(n, bv, body, hyps)
        if y is not None:
            m[x] = y
    return subst(goal, m) if m else goal


def _cyclic(n, bv, body):
    if n.op == "c":
        return None
    try:
        body = canon(body)
    except TooBig:
        return None
    for F in walk(body):
        if F.op != "floor":
            continue
        try:
            q = dict(poly(canon(mul(F.args[0], n))))
        except TooBig:
            continue
        c = q.pop(((bv, 1),), None)
        if c != 1 or any(at is bv or e < 0 or e != int(e) or not isint(at) for k in q for at, e in k) \
                or any(v.denominator != 1 for v in q.values()):
            continue
        s = from_poly(pscale(q, -1))
        if occurs(bv, s):
            continue

        def f(l):
            G = floor(div(add(l, s), n))
            return canon(subst(body, {F: sub(ZERO, G), bv: sub(add(l, s), mul(n, G))}))
        try:
            return bsum(n, f)
        except TooBig:
            return None
    return None


def _tail(n, bv, body, hyps):
    for c in walk(body):
        if c.op not in ("lt", "le") or not occurs(bv, c):
            continue
        try:
            q = dict(poly(sub(*c.args)))
        except TooBig:
            continue
        k = q.pop(((bv, 1),), None)
        if k not in (1, -1):
            continue
        m = from_poly(pscale(q, -k))
        if not isint(m) or occurs(bv, m):
            continue
        # bv < m (k = 1, lt) or bv <= m; m < bv or m <= bv (k = -1)
        if (c.op == "lt") != (k == 1):
            m = add(m, ONE)
        if m is n:
            continue
        inn = TRUE if k == 1 else FALSE
        if not zero(subst(body, {c: lnot(inn), lnot(c): inn})):
            continue
        if not (_infeasible(hyps + [lt(m, ZERO)]) and _infeasible(hyps + [lt(n, m)])):
            continue
        on = subst(body, {c: inn, lnot(c): lnot(inn)})
        return bsum(m, lambda l: subst(on, {bv: l}))
    return None


_sym = {}


def symbols(t):
    r = _sym.get(t.id)
    if r is None:
        r = frozenset(x.args[0] for x in walk(t) if x.op in ("v", "bv", "app") and not x.args[0].startswith("#"))
        _sym[t.id] = r
    return r


def enum_values(t, hyps, limit):
    """all integer values of t consistent with hyps (complete), or None"""
    tr = Tr(rec=None)
    e = tr.t(t)
    hs = [tr.t(h) for h in hyps if symbols(h) & symbols(t)]
    tr.range_axioms()
    s = z3.Solver()
    s.set("timeout", 5000)
    for a in tr.ax + hs:
        s.add(a)
    out = []
    while True:
        r = s.check()
        if r == z3.unsat:
            return sorted(out)
        if r != z3.sat or len(out) >= limit:
            return None
        m = s.model()
        v = m.eval(e, model_completion=True)
        f = Fraction(str(v)) if not z3.is_int_value(v) else Fraction(v.as_long())
        out.append(f)
        s.add(e != v)
