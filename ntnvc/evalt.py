"""Numeric valuation of terms: used to refute verification conditions."""
import math
import random
from .terms import *


class Reject(Exception):
    pass


class Bad(Exception):
    """undefined value (domain error)"""


def _floor(v):
    """rounding of a quotient must not push it across an integer"""
    r = round(v)
    return r if abs(v - r) <= 1e-11 * max(1.0, abs(r)) else math.floor(v)


class Val:
    def __init__(self, seed, ranges, dims, sample=None, special=None):
        """ranges: app/var name -> (lo, hi, kind) ; dims: var term -> (lo, hi)"""
        self.rng = random.Random(seed)
        self.seed = seed
        self.ranges = ranges
        self.vars = {}
        self.apps = {}
        self.dims = dims
        self.sample = sample or {}
        self.special = special or {}

    def pick(self, name):
        rg = self.ranges.get(name, (None, None, "r"))
        lo, hi, kind = rg[:3]
        lop, hop = (rg[3], rg[4]) if len(rg) > 3 else (False, False)
        smp = self.sample.get(name)
        sp = self.special.get(name)
        if sp and kind == "r" and self.rng.random() < .4:
            # at, next to and between the values the condition compares with
            k = self.rng.randrange(len(sp))
            v = sp[k]
            q = self.rng.random()
            if q < .3 and k + 1 < len(sp):
                v = self.rng.uniform(v, sp[k + 1])
            elif q < .7:
                v += self.rng.choice((-1, 1)) * self.rng.choice((1e-4, .03)) * (abs(v) or 1)
            l, h = (self.ev(x, {}) if isinstance(x, Term) else x for x in (lo, hi))
            if (l is None or l <= v and not (lop and l == v)) and (h is None or v <= h and not (hop and h == v)):
                return v
        if isinstance(smp, list):
            smp = self.rng.choice(smp)
        if smp is not None:
            lo, hi = smp
        lo = self.ev(lo, {}) if isinstance(lo, Term) else lo
        hi = self.ev(hi, {}) if isinstance(hi, Term) else hi
        if kind == "b":
            return self.rng.random() < 0.5
        if kind == "i":
            lo = -20 if lo is None else int(lo)
            hi = lo + 20 if hi is None else int(hi)
            return self.rng.randint(lo, hi)
        if lo is None and hi is None:
            return self.rng.choice([self.rng.gauss(0, 1), self.rng.gauss(0, 10), self.rng.uniform(-3, 3)])
        if lo is None:
            lo = hi - 100
        if hi is None:
            hi = lo + 100
        lo, hi = float(lo), float(hi)
        r = self.rng.random()
        if r < 0.06 and not lop and smp is None:
            return lo
        if r < 0.12 and not hop and smp is None:
            return hi
        if lo > 0 and hi / lo > 1e4:
            return math.exp(self.rng.uniform(math.log(lo), math.log(hi)))
        return self.rng.uniform(lo, hi)

    def ev(self, t, env):
        t = const(t)
        op = t.op
        A = t.args
        if op == "c":
            return float(A[0]) if A[0].denominator != 1 else int(A[0])
        if op == "pi":
            return math.pi
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "inf":
            return A[0] * math.inf
        if op in ("v", "bv"):
            if A[0] in env:
                return env[A[0]]
            v = self.vars.get(A[0])
            if v is None:
                if t in self.dims:
                    lo, hi = self.dims[t]
                    lo = int(self.ev(lo, {})) if isinstance(lo, Term) else lo
                    hi = int(self.ev(hi, {})) if isinstance(hi, Term) else hi
                    if hi < lo:
                        raise Reject()
                    v = self.rng.randint(lo, hi)
                elif op == "bv":
                    v = self.rng.random() < .5
                else:
                    v = self.pick(A[0])
                self.vars[A[0]] = v
            return v
        if op == "app":
            key = (A[0],) + tuple(self.ev(a, env) for a in A[1:])
            if A[0].startswith("uf:"):
                from .env import uf_coeff
                c = uf_coeff(A[0])
                return c[0] + c[1] * math.cos(key[1]) + math.sin(key[1]) * (c[2] * math.cos(key[2]) + c[3] * math.sin(key[2]))
            v = self.apps.get(key)
            if v is None:
                v = self.pick(A[0])
                if t.kind == "B":
                    v = bool(self.rng.random() < .5)
                self.apps[key] = v
            return v
        if op == "ite":
            return self.ev(A[1] if self.ev(A[0], env) else A[2], env)
        if op == "and":
            return all(self.ev(a, env) for a in A)
        if op == "or":
            return any(self.ev(a, env) for a in A)
        if op == "not":
            return not self.ev(A[0], env)
        if op in ("sum", "rmax", "rmin", "rany"):
            n = int(self.ev(A[0], env))
            vs = []
            for k in range(n):
                e2 = dict(env)
                e2[A[1].args[0]] = k
                vs.append(self.ev(A[2], e2))
            if op == "sum":
                return math.fsum(vs)
            if op == "rany":
                return any(vs)
            if not vs:
                raise Bad()
            return max(vs) if op == "rmax" else min(vs)
        if op == "argsort":
            n = int(self.ev(A[0], env))
            vs = []
            for k in range(n):
                e2 = dict(env)
                e2[A[1].args[0]] = k
                vs.append(self.ev(A[2], e2))
            i = int(self.ev(A[4], env))
            if not 0 <= i < n:
                raise Bad()
            order = sorted(range(n), key=lambda k: -vs[k] if A[3] else vs[k])
            return order[i]
        xs = [self.ev(a, env) for a in A]
        try:
            return self.f(op, xs)
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Bad()

    def f(self, op, x):
        if op == "add":
            return math.fsum(x) if any(isinstance(v, float) for v in x) else sum(x)
        if op == "mul":
            r = 1
            for v in x:
                r = r * v
            return r
        if op == "div":
            return x[0] / x[1]
        if op == "pow":
            return math.pow(x[0], x[1])
        if op == "ipow":
            return x[0] ** x[1]
        if op == "sqrt":
            return math.sqrt(x[0])
        if op == "exp":
            return math.exp(x[0])
        if op == "ln":
            return math.log(x[0])
        if op in ("sin", "cos", "atan", "acos"):
            return getattr(math, op)(x[0])
        if op == "atan2":
            return math.atan2(x[0], x[1])
        if op == "j1":
            return bessel(x[0])
        if op == "abs":
            return abs(x[0])
        if op == "floor":
            return _floor(x[0])
        if op == "rnd":
            return round(x[0])
        if op == "mod":
            return x[0] - x[1] * _floor(x[0] / x[1])
        if op == "max":
            return max(x)
        if op == "min":
            return min(x)
        if op == "lt":
            return x[0] < x[1]
        if op == "le":
            return x[0] <= x[1]
        if op == "eq":
            return x[0] == x[1]
        raise Unsupported("eval " + op)


def bessel(x):
    # J1 by its integral representation (Simpson)
    n = 400
    h = math.pi / n
    s = 0.0
    for i in range(n + 1):
        th = i * h
        w = 1 if i in (0, n) else (4 if i % 2 else 2)
        s += w * math.cos(th - x * math.sin(th))
    return s * h / 3 / math.pi


def violated(goal, val, tol=1e-7):
    """True when the goal is false with a margin that floating error cannot explain"""
    goal = boolt(goal)
    if goal.op == "and":
        return any(violated(g, val, tol) for g in goal.args)
    if goal.op == "or":
        return all(violated(g, val, tol) for g in goal.args)
    if goal.op in ("lt", "le", "eq"):
        a, b = val.ev(goal.args[0], {}), val.ev(goal.args[1], {})
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            raise Bad()
        s = tol * (1 + max(abs(a), abs(b)))
        if goal.op == "eq":
            return abs(a - b) > s
        return a > b + s if goal.op == "le" else (a > b + s or (isinstance(a, int) and isinstance(b, int) and a >= b))
    if goal.op == "not":
        return holds(goal.args[0], val, tol)
    return not val.ev(goal, {})


def holds(h, val, tol=1e-7):
    h = boolt(h)
    if h.op == "and":
        return all(holds(g, val, tol) for g in h.args)
    if h.op == "or":
        return any(holds(g, val, tol) for g in h.args)
    if h.op == "eq":
        a, b = val.ev(h.args[0], {}), val.ev(h.args[1], {})
        return abs(a - b) <= 1e-12 * (1 + abs(a) + abs(b))
    return bool(val.ev(h, {}))


def specials(terms):
    """variable or tensor -> sorted constants it is compared with"""
    out = {}
    for t in terms:
        for x in walk(t):
            if x.op not in ("lt", "le", "eq"):
                continue
            try:
                p = poly(sub(*x.args))
            except (TooBig, Unsupported):
                continue
            if len(p) > 2 or len(p) - (() in p) != 1:
                continue
            m, k = next((m, k) for m, k in p.items() if m)
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("app", "v"):
                out.setdefault(m[0][0].args[0], set()).add(float(-p.get((), 0) / k))
    return {n: sorted(v) for n, v in out.items()}


def refute(goal, hyps, ranges, dims, tries=200, seed=0, budget=10.0, sample=None):
    """(valuation, samples): a valuation satisfying hyps and violating goal, or None"""
    import time
    t0 = time.time()
    n = 0
    special = specials([goal] + list(hyps))
    for i in range(tries * 30):
        if n >= tries or time.time() - t0 > budget:
            break
        val = Val(seed * 7919 + i, ranges, dims, sample, special)
        try:
            if not all(holds(h, val) for h in hyps):
                continue
            n += 1
            if violated(goal, val):
                return val, n
        except (Reject, Bad, RecursionError):
            continue
        except Unsupported:
            return None, n
    return None, n
