"""Hash-consed terms over the reals / integers / booleans and their ring normal form.

A Term is what the symbolic TensorFlow stub computes with: every scalar of the
program under verification (a tensor element, a dimension, a Python number) is
either a Python constant or a Term.  Reals are mathematical reals (assumption:
machine floats are treated as reals; the literals of the source denote the
simplest rational that rounds to them).
"""
from fractions import Fraction
import math

_table = {}
_ctr = [0]


class Unsupported(Exception):
    """The verifier cannot express this; the obligation is undecided (never a violation)."""


class PathEnd(Exception):
    """Infeasible path."""


class Term:
    __slots__ = ("op", "args", "kind", "id", "_poly", "_canon", "_bv", "depth")
    __hash__ = object.__hash__

    # ---- arithmetic (so that program code can compute with Terms) ----
    def __add__(s, o): return _bin(add, s, o)
    def __radd__(s, o): return _bin(add, o, s)
    def __sub__(s, o): return _bin(sub, s, o)
    def __rsub__(s, o): return _bin(sub, o, s)
    def __mul__(s, o): return _bin(mul, s, o)
    def __rmul__(s, o): return _bin(mul, o, s)
    def __truediv__(s, o): return _bin(div, s, o)
    def __rtruediv__(s, o): return _bin(div, o, s)
    def __pow__(s, o): return _bin(power, s, o)
    def __rpow__(s, o): return _bin(power, o, s)
    def __mod__(s, o): return _bin(mod, s, o)
    def __rmod__(s, o): return _bin(mod, o, s)
    def __floordiv__(s, o): return _bin(lambda a, b: floor(div(a, b)), s, o)
    def __rfloordiv__(s, o): return _bin(lambda a, b: floor(div(a, b)), o, s)
    def __neg__(s): return mul(const(-1), s)
    def __pos__(s): return s
    def __abs__(s): return absv(s)
    def __lt__(s, o): return _bin(lt, s, o)
    def __le__(s, o): return _bin(le, s, o)
    def __gt__(s, o): return _bin(lt, o, s)
    def __ge__(s, o): return _bin(le, o, s)

    def __eq__(s, o):
        if s is o and s.kind != "B":
            return TRUE
        r = _bin(eq, s, o)
        return r

    def __ne__(s, o):
        r = _bin(eq, s, o)
        return r if r is NotImplemented else lnot(r)

    def __and__(s, o): return land(s, boolt(o))
    def __rand__(s, o): return land(boolt(o), s)
    def __or__(s, o): return lor(s, boolt(o))
    def __ror__(s, o): return lor(boolt(o), s)
    def __invert__(s): return lnot(s)

    def __bool__(s):
        if s.kind != "B":
            return bool(ne0(s))
        if s is TRUE:
            return True
        if s is FALSE:
            return False
        if PATHS[0] is None:
            raise Unsupported("symbolic truth value outside a path: %s" % show(s))
        return PATHS[0].decide(s)

    def _concrete(s):
        if s.op == "c":
            return s.args[0]
        if PATHS[0] is None:
            raise Unsupported("concrete value needed: %s" % show(s))
        return PATHS[0].concretise(s)

    def __index__(s):
        v = s._concrete()
        if v.denominator != 1:
            raise TypeError("not an integer")
        return int(v)

    def __int__(s):
        if s.op == "c":
            return int(s.args[0])
        if isint(s):
            return int(s._concrete())
        raise Unsupported("int() of a symbolic real")

    def __float__(s):
        if s.op == "c":
            return float(s.args[0])
        raise Unsupported("float() of symbolic %s" % show(s))

    def __round__(s, n=None):
        if n is not None:
            raise Unsupported("round with digits")
        return rnd(s)

    def __str__(s):
        if s.op == "c" and s.args[0].denominator == 1:
            return str(int(s.args[0]))
        if s.kind == "N" and isint(s) and PATHS[0] is not None:
            return str(int(PATHS[0].concretise(s)))
        return show(s)

    def __format__(s, spec):
        return str(s)

    def __repr__(s): return show(s)

    def numpy(s): return s

    @property
    def real_dtype(s):
        raise AttributeError


class KeepSym(Exception):
    def __init__(self, t):
        self.t = t


PATHS = [None]


def mk(op, args, kind):
    key = (op, kind) + tuple(a.id if isinstance(a, Term) else ("#", a) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.kind = kind
        _ctr[0] += 1
        t.id = _ctr[0]
        t._poly = t._canon = None
        t.depth = 0
        d = 0
        for a in args:
            if isinstance(a, Term) and a.depth > d:
                d = a.depth
        if op in BINDERS:
            d += 1
        t.depth = d
        _table[key] = t
    return t


BINDERS = {"sum", "rmax", "rmin", "argsort", "rany"}


def to_frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if x != x:
        raise Unsupported("NaN constant")
    f = Fraction(x)
    g = f.limit_denominator(100000)
    if abs(float(g) - x) <= 4e-16 * abs(x):
        return g
    return Fraction("%.15g" % x)        # float noise of constant arithmetic is not significant


NINF = None
_const_cache = {}


def const(x):
    if isinstance(x, Term):
        return x
    try:
        r = _const_cache.get((type(x), x))
    except TypeError:
        r = None
    if r is not None:
        return r
    if hasattr(x, "dtype") and hasattr(x, "item"):
        return const(x.item())
    if isinstance(x, float) and x in (float("inf"), float("-inf")):
        r = mk("inf", (1 if x > 0 else -1,), "N")
    else:
        r = mk("c", (to_frac(x),), "N")
    _const_cache[(type(x), x)] = r
    return r


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
ZERO = const(0)
ONE = const(1)
PI_T = mk("pi", (), "N")
LN10 = mk("ln", (const(10),), "N")


def isnum(x):
    return isinstance(x, (int, float, Fraction)) or type(x).__name__ in (
        "float64", "float32", "int64", "int32", "intc")


def _bin(f, a, b):
    a = _coerce(a)
    b = _coerce(b)
    if a is None or b is None:
        return NotImplemented
    return f(a, b)


def _coerce(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isnum(x):
        return const(x)
    return None


def boolt(x):
    if isinstance(x, Term):
        return x if x.kind == "B" else ne0(x)
    return TRUE if x else FALSE


def var(name, integer=False):
    return mk("v", (name, bool(integer)), "N")


def bvar(name):
    return mk("bv", (name,), "B")


_fresh = [0]


def fresh(prefix, integer=False):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), integer)


def isint(t):
    if t.op == "c":
        return t.args[0].denominator == 1
    if t.op == "v":
        return t.args[1]
    if t.op in ("add", "mul"):
        return all(isint(a) for a in t.args)
    if t.op in ("floor", "argsort"):
        return True
    if t.op == "app":
        return t.args[0] in INT_FUNS
    if t.op == "ite":
        return isint(t.args[1]) and isint(t.args[2])
    if t.op in ("max", "min", "mod"):
        return isint(t.args[0]) and isint(t.args[1])
    if t.op == "rnd":
        return True
    if t.op == "sum":
        return isint(t.args[2])
    return False


INT_FUNS = set()
NONNEG = set()      # names of functions known to be >= 0 (unused hint)


def num(t):
    """bool -> number"""
    if t.kind == "B":
        return ite(t, ONE, ZERO)
    return t


def add(*ts):
    out = []
    c = Fraction(0)
    inf = None
    for t in ts:
        t = num(t)
        if t.op == "c":
            c += t.args[0]
        elif t.op == "inf":
            inf = t
        elif t.op == "add":
            for a in t.args:
                if a.op == "c":
                    c += a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    if inf is not None:
        return inf
    if not out:
        return const(c)
    if c != 0:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out), "N")


def sub(a, b):
    return add(a, mul(const(-1), b))


def mul(*ts):
    out = []
    c = Fraction(1)
    inf = 0
    for t in ts:
        t = num(t)
        if t.op == "c":
            c *= t.args[0]
        elif t.op == "inf":
            inf = t.args[0]
        elif t.op == "mul":
            for a in t.args:
                if a.op == "c":
                    c *= a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    if inf:
        if out or c == 0:
            raise Unsupported("infinity times symbolic value")
        return mk("inf", (inf if c > 0 else -inf,), "N")
    if c == 0:
        return ZERO
    if not out:
        return const(c)
    if c != 1:
        out.insert(0, const(c))
    if len(out) == 1:
        return out[0]
    return mk("mul", tuple(out), "N")


def div(a, b):
    a = num(a)
    b = num(b)
    if b.op == "c":
        if b.args[0] == 0:
            if a.op == "c" and a.args[0] == 0:
                raise Unsupported("0/0")
            return mk("div", (a, b), "N")
        return mul(const(1 / b.args[0]), a)
    if a is ZERO and b.op != "c":
        return mk("div", (a, b), "N")   # keeps the definedness obligation
    return mk("div", (a, b), "N")


def power(a, b):
    a = num(a)
    b = num(b)
    if b.op == "c":
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        if a.op == "c" and e.denominator == 1:
            if a.args[0] != 0 or e > 0:
                return const(a.args[0] ** int(e))
        if a.op == "c" and a.args[0] == 1:
            return ONE
        if e == Fraction(1, 2):
            return sqrt(a)
        if e == -1:
            return div(ONE, a)
        return mk("pow", (a, b), "N")
    if b.op == "inf":
        if a.op == "c" and a.args[0] > 1 and b.args[0] < 0:
            return ZERO
        raise Unsupported("power with infinite exponent")
    return mk("pow", (a, b), "N")


def sqrt(a):
    a = num(a)
    if a.op == "c" and a.args[0] >= 0:
        f = a.args[0]
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return const(Fraction(n, d))
    return mk("sqrt", (a,), "N")


def exp(a):
    a = num(a)
    if a is ZERO:
        return ONE
    if a.op == "inf":
        if a.args[0] < 0:
            return ZERO
        raise Unsupported("exp(inf)")
    return mk("exp", (a,), "N")


def ln(a):
    a = num(a)
    if a is ONE:
        return ZERO
    if a.op == "c" and a.args[0] > 0 and a.args[0] != 10:
        k = _pow10(a.args[0])
        if k is not None:
            return mul(const(k), LN10)
    return mk("ln", (a,), "N")


def _pow10(f):
    """k with f = 10**k, or None"""
    if f < 1:
        k = _pow10(1 / f)
        return None if k is None else -k
    if f.denominator != 1:
        return None
    n, k = f.numerator, 0
    while n % 10 == 0:
        n //= 10
        k += 1
    return k if n == 1 else None


def log10(a):
    a = num(a)
    if a.op == "c" and a.args[0] > 0:
        k = _pow10(a.args[0])
        if k is not None:
            return const(k)
    return div(ln(a), LN10)


def fn1(name):
    def f(a):
        return mk(name, (num(a),), "N")
    f.__name__ = name
    return f


def sin(a):
    a = num(a)
    return ZERO if a is ZERO else mk("sin", (a,), "N")


def cos(a):
    a = num(a)
    return ONE if a is ZERO else mk("cos", (a,), "N")


def tan(a): return div(sin(a), cos(a))


def atan(a):
    a = num(a)
    return ZERO if a is ZERO else mk("atan", (a,), "N")


def acos(a): return mk("acos", (num(a),), "N")
def atan2(y, x): return mk("atan2", (num(y), num(x)), "N")
def bessel_j1(a): return mk("j1", (num(a),), "N")


def absv(a):
    a = num(a)
    if a.op == "c":
        return const(abs(a.args[0]))
    return mk("abs", (a,), "N")


def floor(a):
    a = num(a)
    if a.op == "c":
        return const(math.floor(a.args[0]))
    if isint(a):
        return a
    return mk("floor", (a,), "N")


def ceil(a):
    return -floor(-num(a)) if num(a).op != "c" else const(math.ceil(num(a).args[0]))


def rnd(a):
    """Python's round(): nearest integer, ties to even."""
    a = num(a)
    if a.op == "c":
        return const(round(a.args[0]))
    if isint(a):
        return a
    return mk("rnd", (a,), "N")


def mod(a, b):
    a = num(a)
    b = num(b)
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return const(a.args[0] - b.args[0] * math.floor(a.args[0] / b.args[0]))
    if a is ZERO:
        return ZERO
    return mk("mod", (a, b), "N")


def idiv(a, b):
    return floor(div(a, b))


def maxv(a, b):
    a = num(a)
    b = num(b)
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.args[0] >= b.args[0] else b
    if a.op == "inf":
        return a if a.args[0] > 0 else b
    if b.op == "inf":
        return b if b.args[0] > 0 else a
    return mk("max", (a, b), "N")


def minv(a, b):
    a = num(a)
    b = num(b)
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.args[0] <= b.args[0] else b
    if a.op == "inf":
        return b if a.args[0] > 0 else a
    if b.op == "inf":
        return a if b.args[0] > 0 else b
    return mk("min", (a, b), "N")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.kind == "B" and b.kind == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return lnot(c)
        return lor(land(c, a), land(lnot(c), b))
    if a.kind == "B":
        a = num(a)
    if b.kind == "B":
        b = num(b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", (c, a, b), "N")


def app(name, *idx, kind="N"):
    return mk("app", (name,) + tuple(const(i) for i in idx), kind)


# ---- booleans ----
def lnot(a):
    a = boolt(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def land(*ts):
    out = []
    seen = set()
    for t in ts:
        t = boolt(t)
        for a in (t.args if t.op == "and" else (t,)):
            if a is FALSE:
                return FALSE
            if a is TRUE or a.id in seen:
                continue
            seen.add(a.id)
            out.append(a)
    for a in out:
        if lnot(a).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda x: x.id)), "B")


def lor(*ts):
    out = []
    seen = set()
    for t in ts:
        t = boolt(t)
        for a in (t.args if t.op == "or" else (t,)):
            if a is TRUE:
                return TRUE
            if a is FALSE or a.id in seen:
                continue
            seen.add(a.id)
            out.append(a)
    for a in out:
        if lnot(a).id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda x: x.id)), "B")


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    a = boolt(a)
    b = boolt(b)
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return lnot(b)
    if b is FALSE:
        return lnot(a)
    return lor(land(a, b), land(lnot(a), lnot(b)))


def _cmp_inf(a, b):
    # returns -1/0/1 comparison of possibly infinite operands or None
    if a.op == "inf" or b.op == "inf":
        va = a.args[0] if a.op == "inf" else 0
        vb = b.args[0] if b.op == "inf" else 0
        return (va > vb) - (va < vb)
    return None


def lt(a, b):
    a = num(a)
    b = num(b)
    c = _cmp_inf(a, b)
    if c is not None:
        return TRUE if c < 0 else FALSE
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] < b.args[0] else FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    a = num(a)
    b = num(b)
    c = _cmp_inf(a, b)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] <= b.args[0] else FALSE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a.kind == "B" and b.kind == "B":
        return iff(a, b)
    a = num(a)
    b = num(b)
    c = _cmp_inf(a, b)
    if c is not None:
        return TRUE if c == 0 else FALSE
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if same(a, b):
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def ne0(a):
    return lnot(eq(a, ZERO))


# ---- binders ----
def close(fv, body):
    """Replace the free variable fv by the canonical bound variable of its depth."""
    d = body.depth + 1
    bv = mk("v", ("#%d" % d, True), "N")
    return bv, subst(body, {fv: bv})


def bsum(n, f):
    """sum_{0<=k<n} f(k)"""
    n = const(n)
    if n.op == "c" and n.args[0] <= 64:
        return add(*[const(f(const(k))) for k in range(int(n.args[0]))]) if n.args[0] > 0 else ZERO
    k = fresh("k", True)
    body = num(const(f(k)))
    if body is ZERO:
        return ZERO
    bv, b = close(k, body)
    return mk("sum", (n, bv, b), "N")


def bmax(n, f, op="rmax"):
    n = const(n)
    if n.op == "c" and n.args[0] <= 64:
        r = None
        for k in range(int(n.args[0])):
            v = const(f(const(k)))
            r = v if r is None else (maxv if op == "rmax" else minv)(r, v)
        return r
    k = fresh("k", True)
    body = num(const(f(k)))
    if not occurs(k, body):
        return body
    bv, b = close(k, body)
    return mk(op, (n, bv, b), "N")


def bmin(n, f):
    return bmax(n, f, "rmin")


def bany(n, f):
    n = const(n)
    if n.op == "c" and n.args[0] <= 64:
        return lor(*[boolt(f(const(k))) for k in range(int(n.args[0]))])
    k = fresh("k", True)
    body = boolt(f(k))
    if not occurs(k, body):
        return body
    bv, b = close(k, body)
    return mk("rany", (n, bv, b), "B")


def argsort(n, f, desc, i):
    """index of the i-th element of f(0..n-1) in ascending (descending) order (stable)"""
    n = const(n)
    k = fresh("k", True)
    body = num(const(f(k)))
    if body.op == "add":
        # an offset common to all does not change the order
        body = add(*[x for x in body.args if occurs(k, x)])
    if body.op == "mul" and body.args[0].op == "c" and body.args[0].args[0] != 0:
        # neither does a positive factor; the order of -x is the reverse order of x, with the same treatment of ties
        c = body.args[0].args[0]
        body, desc = mul(const(1 / c), body), bool(desc) != (c < 0)
    bv, b = close(k, body)
    return mk("argsort", (n, bv, b, bool(desc), const(i)), "N")


def pick_at(f, i):
    """f(i); where i is the first or last of an order by f, the minimum or maximum"""
    if i.op == "argsort" and i.args[4].op == "c":
        n, bv, b, desc, j = i.args
        j = j.args[0]
        last = n.op == "c" and j == n.args[0] - 1
        if j == 0 or last:
            k = fresh("k", True)
            body = num(const(f(k)))
            fixed = [x for x in body.args if not occurs(k, x)] if body.op == "add" else []
            if fixed:
                body = add(*[x for x in body.args if occurs(k, x)])
            c = Fraction(1)
            if body.op == "mul" and body.args[0].op == "c":
                c = body.args[0].args[0]
                body = mul(const(1 / c), body) if c else body
            if c and occurs(k, body) and close(k, body)[1] is b:
                least = (j == 0) != bool(desc)
                r = (bmin if least == (c > 0) else bmax)(n, lambda q: subst(mul(const(c), body), {k: const(q)}))
                return add(r, *fixed)
    return f(i)


_occ = {}


def free_ids(t):
    """ids of the variables occurring in t (bound ones included)"""
    r = _occ.get(t.id)
    if r is None:
        if t.op == "v" or t.op == "bv":
            r = frozenset((t.id,))
        else:
            s = set()
            for a in t.args:
                if isinstance(a, Term):
                    s |= free_ids(a)
            r = frozenset(s)
        _occ[t.id] = r
    return r


def occurs(v, t):
    return v.id in free_ids(t)


REB = {}


def rebuild(t, args):
    """Term like t with new args, through the simplifying constructors."""
    op = t.op
    f = REB.get(op)
    if f is not None:
        return f(*args)
    if op in ("sum", "rmax", "rmin", "rany"):
        n, bv, b = args
        if n.op == "c" and n.args[0] <= 64:
            g = lambda k: subst(b, {bv: k})
            return {"sum": bsum, "rmax": bmax, "rmin": bmin, "rany": bany}[op](n, g)
        if op == "sum" and b is ZERO:
            return ZERO
        if op in ("rmax", "rmin") and not occurs(bv, b):
            return b
        nb = mk("v", ("#%d" % (b.depth + 1), True), "N")
        if nb is not bv:
            b = subst(b, {bv: nb})
            bv = nb
        return mk(op, (n, bv, b), t.kind)
    if op == "argsort":
        n, bv, b, d, i = args
        nb = mk("v", ("#%d" % (b.depth + 1), True), "N")
        if nb is not bv:
            b = subst(b, {bv: nb})
            bv = nb
        return mk(op, (n, bv, b, d, i), "N")
    return mk(op, tuple(args), t.kind)


REB.update({"add": add, "mul": mul, "div": div, "pow": power, "sqrt": sqrt, "exp": exp, "ln": ln,
            "sin": sin, "cos": cos, "atan": atan, "abs": absv, "floor": floor, "rnd": rnd, "mod": mod,
            "max": maxv, "min": minv, "ite": ite, "not": lnot, "and": land, "or": lor,
            "lt": lt, "le": le, "eq": eq})


def subst(t, m, memo=None):
    """m: {Term: Term}; replaces whole subterms."""
    if memo is None:
        memo = {k.id: v for k, v in m.items()}
        varsonly = all(k.op in ("v", "bv") for k in m)
        ids = frozenset(k.id for k in m)
        return _subst(t, memo, ids if varsonly else None)
    return _subst(t, memo, None)


def _subst(t, memo, ids):
    r = memo.get(t.id)
    if r is not None:
        return r
    if ids is not None and not (free_ids(t) & ids):
        return t
    if not t.args:
        return t
    ch = False
    na = []
    for a in t.args:
        if isinstance(a, Term):
            b = _subst(a, memo, ids)
            ch |= b is not a
            na.append(b)
        else:
            na.append(a)
    r = rebuild(t, na) if ch else t
    memo[t.id] = r
    return r


def walk(t, seen=None):
    """all subterms, each once"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, Term):
                st.append(a)


# =====================================================================
# Ring normal form.  Polynomial: dict monomial -> Fraction
# monomial: tuple of (atom Term, int exponent) sorted by atom id
# =====================================================================
TRIG_EXPAND = [False]
POLY_LIMIT = 20000


class TooBig(Exception):
    pass


_npoly = {}


# names of variables and functions with positive values (declared ranges), for ln of a product
POS = {}


def set_positive(name, flag):
    old = POS.get(name)
    if old is not None and old != flag:
        _npoly.clear()
    POS[name] = flag


def _pos_atom(at):
    """positive wherever the logarithm of a product with this factor is defined"""
    return at.op in ("sqrt", "exp") or at is PI_T or at is LN10 or (at.op in ("v", "app") and POS.get(at.args[0], False))


def _ln_atom(at):
    if at.op == "sqrt":
        return pscale(poly(ln(at.args[0])), Fraction(1, 2))
    return atom(mk("ln", (at,), "N"))


def poly(t):
    key = (t.id, TRIG_EXPAND[0])
    p = _npoly.get(key)
    if p is None:
        p = _poly(num(t))
        _npoly[key] = p
    return p


def pconst(c):
    return {(): Fraction(c)} if c else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def mono_mul(a, b):
    """product of two monomials as a polynomial (rewriting sqrt^2, cos^2, exp*exp)"""
    if not a:
        return {b: Fraction(1)}
    if not b:
        return {a: Fraction(1)}
    d = {}
    for m in (a, b):
        for at, e in m:
            if at in d:
                d[at][1] += e
            else:
                d[at] = [at, e]
    return mono_norm([(at, e) for at, e in d.values() if e])


class _ById:
    pass


def mono_norm(items):
    """items: list of (atom, exp), atoms distinct"""
    exps = [(at, e) for at, e in items if at.op == "exp"]
    rest = [(at, e) for at, e in items if at.op != "exp"]
    extra = []
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        arg = {}
        for at, e in exps:
            arg = padd(arg, poly(at.args[0]), e)
        extra.append(_exp_poly(arg))
    elif exps:
        rest.append(exps[0])
    out = []
    for at, e in rest:
        if at.op == "sqrt" and not (0 <= e <= 1):
            h, r = divmod(e, 2)
            extra.append(ppow(poly(at.args[0]), h))
            if r:
                out.append((at, 1))
        elif at.op == "cos" and e >= 2:
            h, r = divmod(e, 2)
            s = sin(at.args[0])
            s2 = {((s, 2),): Fraction(-1), (): Fraction(1)}
            extra.append(ppow(s2, h))
            if r:
                out.append((at, 1))
        elif at.op == "poly" and e > 0:
            extra.append(ppow(poly(at.args[0]), e))
        elif at.op == "abs" and e >= 2:
            h, r = divmod(e, 2)
            extra.append(ppow(pmul(poly(at.args[0]), poly(at.args[0])), h))
            if r:
                out.append((at, 1))
        else:
            out.append((at, e))
    out.sort(key=lambda x: x[0].id)
    r = {tuple(out): Fraction(1)}
    for p in extra:
        r = pmul(r, p)
    return r


def pmul(p, q):
    if len(p) * len(q) > POLY_LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in mono_mul(m1, m2).items():
                v = r.get(m, 0) + c * c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    return r


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def pinv(p):
    if not p:
        # 1/0: keep an opaque atom so that nothing is proved from it
        return {((mk("undef", (fresh("u"),), "N"), 1),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        r = mono_norm([(at, -e) for at, e in m])
        return pscale(r, 1 / c)
    # factor out content: common monomial and leading coefficient
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for at in list(common):
                e = d.get(at, 0)
                common[at] = min(common[at], e)
                if common[at] <= 0:
                    del common[at]
    for at in list(common or {}):
        if common[at] <= 0 or at.op in ("exp",):
            del common[at]
    if common:
        cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
        inv = mono_norm([(at, -e) for at, e in cm])
        q = pmul(p, inv)
        return pmul(inv, pinv(q))
    lead = max(p.items(), key=lambda x: mono_key(x[0]))[1]
    q = pscale(p, 1 / lead)
    at = mk("poly", (from_poly(q),), "N")
    return {((at, -1),): 1 / lead}


def mono_key(m):
    return tuple((at.id, e) for at, e in m)


def from_poly(p):
    """canonical Term of a polynomial"""
    ts = []
    for m in sorted(p, key=mono_key):
        fs = []
        for at, e in m:
            if at.op == "poly":
                fs.append(mk("ipow", (at.args[0], const(e)), "N"))
            elif e == 1:
                fs.append(at)
            else:
                fs.append(mk("ipow", (at, const(e)), "N"))
        c = p[m]
        if not fs:
            ts.append(const(c))
        else:
            if c != 1:
                fs.insert(0, const(c))
            ts.append(fs[0] if len(fs) == 1 else mk("mul", tuple(fs), "N"))
    if not ts:
        return ZERO
    return ts[0] if len(ts) == 1 else mk("add", tuple(ts), "N")


def canon(t):
    """canonical form of a term"""
    if t.kind == "B":
        return canonb(t)
    return from_poly(poly(t))


_cb = {}


def canonb(t):
    key = (t.id, TRIG_EXPAND[0])
    r = _cb.get(key)
    if r is not None:
        return r
    if t.op in ("lt", "le", "eq"):
        p = padd(poly(t.args[0]), poly(t.args[1]), -1)
        if not p or (len(p) == 1 and () in p):
            c = p.get((), 0)
            v = {"lt": c < 0, "le": c <= 0, "eq": c == 0}[t.op]
            r = TRUE if v else FALSE
        else:
            z = _cmp_rules(t.op, p)
            if z is not None:
                r = canonb(z)
                _cb[key] = r
                return r
            lead = max(p.items(), key=lambda x: mono_key(x[0]))[1]
            if t.op == "eq":
                p = pscale(p, 1 / lead)
            else:
                p = pscale(p, 1 / abs(lead))
            r = mk(t.op, (from_poly(p), ZERO), "B")
    elif t.op == "not":
        r = lnot(canonb(t.args[0]))
    elif t.op == "and":
        r = land(*[canonb(a) for a in t.args])
    elif t.op == "or":
        r = lor(*[canonb(a) for a in t.args])
    elif t.op == "app":
        r = mk("app", (t.args[0],) + tuple(canon(a) for a in t.args[1:]), "B")
    elif t.op == "rany":
        n, bv, b = t.args
        r = mk("rany", (canon(n), bv, canonb(b)), "B")
    else:
        r = t
    _cb[key] = r
    return r


_COS = {Fraction(0): Fraction(1), Fraction(1, 3): Fraction(1, 2), Fraction(1, 2): Fraction(0), Fraction(2, 3): Fraction(-1, 2), Fraction(1): Fraction(-1)}


def _cmp_rules(op, p):
    """simpler equivalent of (p op 0), by monotonicity of acos and exp; None if no rule applies"""
    if len(p) > 2:
        return None
    ms = sorted(p.items(), key=lambda x: mono_key(x[0]))
    # acos(x) against a multiple of pi
    ac = [(m, c) for m, c in ms if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "acos"]
    if len(ac) == 1:
        (m, c), = ac
        rest = [x for x in ms if x[0] is not m]
        if not rest or (len(rest[0][0]) == 1 and rest[0][0][0][0] is PI_T and rest[0][0][0][1] == 1):
            q = -rest[0][1] / c if rest else Fraction(0)
            x = m[0][0].args[0]
            if q in _COS:
                v = const(_COS[q])
                if op == "eq":
                    return eq(x, v)
                f = lt if op == "lt" else le
                return f(v, x) if c > 0 else f(x, v)
            if q < 0 or q > 1:
                if op == "eq":
                    return FALSE
                return TRUE if (q > 1) == (c > 0) else FALSE
    # exp(u) against exp(v) or a power of ten
    def arg(m):
        if m == ():
            return ZERO
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "exp":
            return m[0][0].args[0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "pow" and m[0][0].args[0].op == "c" and m[0][0].args[0].args[0] == 10:
            return mul(m[0][0].args[1], LN10)
        return None
    if len(ms) == 2 and op in ("lt", "le", "eq") and (ms[0][1] > 0) != (ms[1][1] > 0):
        (m1, c1), (m2, c2) = ms if ms[0][1] > 0 else ms[::-1]
        u, v = arg(m1), arg(m2)
        if u is not None and v is not None:
            k = _pow10(-c2 / c1)
            if k is not None:
                d = sub(u, add(v, mul(const(k), LN10)))
                q = poly(d)
                is_ln = lambda x: x[0] is LN10 and x[1] == 1
                if q and all(any(is_ln(x) for x in m) for m in q):
                    d = from_poly({tuple(x for x in m if not is_ln(x)): c for m, c in q.items()})
                return mk(op, (d, ZERO), "B")
    return None


def atom(t):
    return {((t, 1),): Fraction(1)}


def _exp_poly(arg):
    """polynomial of exp(arg)"""
    if not arg:
        return pconst(1)
    # exp(c * ln x) -> x^c  (x > 0 is a definedness obligation of ln)
    if len(arg) == 1:
        (m, c), = arg.items()
        if len(m) == 1 and m[0][0].op == "ln" and m[0][1] == 1:
            x = m[0][0].args[0]
            if c.denominator == 1 and abs(c) < 50:
                return ppow(poly(x), int(c))
            if c.denominator == 2 and abs(c) < 50:
                s = poly(sqrt(x))
                return ppow(s, int(c * 2))
    # split off the integer multiples of ln(const) so that 10^(a+1) = 10*10^a
    out = pconst(1)
    rest = {}
    for m, c in arg.items():
        if len(m) == 1 and m[0][0].op == "ln" and m[0][1] == 1 and c.denominator == 1 \
                and m[0][0].args[0].op == "c" and abs(c) < 400:
            out = pscale(out, m[0][0].args[0].args[0] ** int(c))
        elif len(m) == 1 and m[0][0].op == "ln" and m[0][1] == 1 and c.denominator in (1, 2) and abs(c) < 50 and m[0][0].args[0].op in ("v", "app"):
            x = m[0][0].args[0]
            out = pmul(out, ppow(poly(x), int(c)) if c.denominator == 1 else ppow(poly(sqrt(x)), int(c * 2)))
        else:
            rest[m] = c
    if not rest:
        return out
    return pmul(out, atom(mk("exp", (from_poly(rest),), "N")))


def _trig(op, arg):
    """polynomial of sin/cos(arg), arg polynomial"""
    arg = dict(arg)
    # multiples of pi/2
    pm = ((PI_T, 1),)
    c = arg.get(pm, Fraction(0))
    if c:
        q2 = c * 2
        k = math.floor(q2)
        # reduce by k*pi/2
        arg = padd(arg, {pm: Fraction(k, 2)}, -1)
        k %= 4
        # sin(x + k pi/2), cos(x + k pi/2)
        if op == "sin":
            op, s = [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)][k]
        else:
            op, s = [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)][k]
    else:
        s = 1
    # integer multiples of 2 pi
    for m, c in list(arg.items()):
        if len(m) > 1 and c.denominator == 1 and c % 2 == 0 and any(at is PI_T and e == 1 for at, e in m) and all(
                at is PI_T or (isint(at) and e == int(e) and e > 0) for at, e in m):
            del arg[m]
    if not arg:
        return pconst(s if op == "cos" else 0)
    # inverse functions
    if len(arg) == 1:
        (m, c), = arg.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            at = m[0][0]
            if at.op == "acos":
                x = poly(at.args[0])
                if op == "cos":
                    return pscale(x, s)
                return pscale(poly(sqrt(sub(ONE, mul(at.args[0], at.args[0])))), s * c)
            if at.op == "atan2":
                y, x = at.args
                r = sqrt(add(mul(x, x), mul(y, y)))
                # r > 0 is a side condition, registered as an atom axiom in the prover
                if op == "cos":
                    return pscale(pmul(poly(x), pinv(poly(r))), s)
                return pscale(pmul(poly(y), pinv(poly(r))), s * c)
            if at.op == "atan":
                r = sqrt(add(ONE, mul(at.args[0], at.args[0])))
                if op == "cos":
                    return pscale(pinv(poly(r)), s)
                return pscale(pmul(poly(at.args[0]), pinv(poly(r))), s * c)
    if TRIG_EXPAND[0] and len(arg) > 1:
        ms = sorted(arg, key=mono_key)
        a = {ms[0]: arg[ms[0]]}
        b = {m: arg[m] for m in ms[1:]}
        sa, ca, sb, cb = _trig("sin", a), _trig("cos", a), _trig("sin", b), _trig("cos", b)
        if op == "sin":
            r = padd(pmul(sa, cb), pmul(ca, sb))
        else:
            r = padd(pmul(ca, cb), pmul(sa, sb), -1)
        return pscale(r, s)
    if TRIG_EXPAND[0] and len(arg) == 1:
        (m, c), = arg.items()
        if c.denominator == 1 and 1 < abs(c) <= 6 and m:
            a = {m: Fraction(1) if c > 0 else Fraction(-1)}
            b = padd(arg, a, -1)
            sa, ca, sb, cb = _trig("sin", a), _trig("cos", a), _trig("sin", b), _trig("cos", b)
            r = padd(pmul(sa, cb), pmul(ca, sb)) if op == "sin" else padd(pmul(ca, cb), pmul(sa, sb), -1)
            return pscale(r, s)
    # parity: make the leading coefficient positive
    lead = max(arg.items(), key=lambda x: mono_key(x[0]))[1]
    if lead < 0:
        arg = pscale(arg, -1)
        if op == "sin":
            s = -s
    return pscale(atom(mk(op, (from_poly(arg),), "N")), s)


def _poly(t):
    op = t.op
    if op == "c":
        return pconst(t.args[0])
    if op in ("v", "pi", "undef", "inf"):
        return atom(t)
    if op == "add":
        r = {}
        for a in t.args:
            r = padd(r, poly(a))
        if len(r) > POLY_LIMIT:
            raise TooBig()
        return r
    if op == "mul":
        r = pconst(1)
        for a in t.args:
            r = pmul(r, poly(a))
        return r
    if op == "div":
        return pmul(poly(t.args[0]), pinv(poly(t.args[1])))
    if op == "ipow":
        return ppow(poly(t.args[0]), int(t.args[1].args[0]))
    if op == "poly":
        return poly(t.args[0])
    if op == "pow":
        a, b = t.args
        pb = poly(b)
        pa = poly(a)
        if not pb:
            return pconst(1)
        if len(pb) == 1 and () in pb:
            e = pb[()]
            if e.denominator == 1:
                if abs(e) <= 16:
                    return ppow(pa, int(e))
                return atom(mk("pow", (from_poly(pa), const(e)), "N"))
            if e.denominator == 2:
                return ppow(poly(sqrt(a)), int(e * 2))
            if len(pa) == 1 and () in pa and pa[()] == 1:
                return pconst(1)
            if len(pa) == 1:
                (m, c), = pa.items()
                if len(m) == 1 and m[0][0].op == "exp" and c == 1:
                    return _exp_poly(pscale(poly(m[0][0].args[0]), e * m[0][1]))
            return atom(mk("pow", (from_poly(pa), const(e)), "N"))
        if len(pa) == 1 and () in pa and pa[()] > 0:
            return _exp_poly(pmul(pb, poly(ln(const(pa[()])))))
        return atom(mk("pow", (from_poly(pa), from_poly(pb)), "N"))
    if op == "sqrt":
        p = poly(t.args[0])
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            f = Fraction(c)
            if f > 0:
                if not m:
                    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                    if n * n == f.numerator and d * d == f.denominator:
                        return pconst(Fraction(n, d))
                if m and all(at.op == "exp" for at, e in m):
                    s = poly(sqrt(const(f)))
                    for at, e in m:
                        s = pmul(s, _exp_poly(pscale(poly(at.args[0]), Fraction(e, 2))))
                    return s
                if len(m) == 1 and m[0][1] < 0 and m[0][1] % 2:
                    # sqrt(c/x^(2h-1)) = sqrt(c x)/x^h: both sides are defined for x > 0 only
                    at, e = m[0]
                    x = poly(at.args[0]) if at.op == "poly" else {((at, 1),): Fraction(1)}
                    return pmul(poly(mk("sqrt", (from_poly(pscale(x, f)),), "N")), mono_norm([(at, (e - 1) // 2)]))
                # pull out the rational square and even powers of nonneg atoms only
                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if m and f != 1 and n * n == f.numerator and d * d == f.denominator:
                    inner = from_poly({m: Fraction(1)})
                    return pscale(atom(mk("sqrt", (inner,), "N")), Fraction(n, d))
        return atom(mk("sqrt", (from_poly(p),), "N"))
    if op == "exp":
        return _exp_poly(poly(t.args[0]))
    if op == "ln":
        p = poly(t.args[0])
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                if c == 1:
                    return {}
                return atom(mk("ln", (const(c),), "N"))
            if len(m) == 1 and m[0][0].op == "exp" and c == 1:
                return pscale(poly(m[0][0].args[0]), m[0][1])
            if (len(m) > 1 or c != 1 or m[0][1] != 1) and c > 0 and all(_pos_atom(at) for at, k in m):
                out = poly(ln(const(c)))
                for at, k in m:
                    out = padd(out, pscale(poly(at.args[0]) if at.op == "exp" else _ln_atom(at), k))
                return out
            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].op == "sqrt":
                return _ln_atom(m[0][0])
        else:
            common = None
            for m in p:
                k = {at: e for at, e in m if at.op in ("v", "app") and POS.get(at.args[0], False)}
                common = k if common is None else {at: min(e, k[at]) for at, e in common.items() if at in k}
                if not common:
                    break
            common = {at: e for at, e in (common or {}).items() if e > 0}
            if common:
                den = math.lcm(*(c.denominator for c in p.values()))
                con = Fraction(math.gcd(*(int(c * den) for c in p.values())), den)
                rest = {tuple((at, e - common.get(at, 0)) for at, e in m if e != common.get(at, 0)): c / con for m, c in p.items()}
                out = padd(poly(ln(const(con))), atom(mk("ln", (from_poly(rest),), "N")))
                for at, e in common.items():
                    out = padd(out, pscale(_ln_atom(at), e))
                return out
        return atom(mk("ln", (from_poly(p),), "N"))
    if op in ("sin", "cos"):
        return _trig(op, poly(t.args[0]))
    if op == "abs":
        p = poly(t.args[0])
        if not p:
            return {}
        if len(p) == 1 and () in p:
            return pconst(abs(p[()]))
        if len(p) == 1:
            (m, c), = p.items()
            if all(a.op in ("acos", "sqrt", "exp") or a is PI_T or a is LN10 for a, k in m):
                return {m: abs(c)}
        lead = max(p.items(), key=lambda x: mono_key(x[0]))[1]
        return pscale(atom(mk("abs", (from_poly(pscale(p, 1 / lead)),), "N")), abs(lead))
    if op in ("atan", "acos", "floor", "rnd", "j1"):
        p = poly(t.args[0])
        if len(p) == 1 and () in p and op == "floor":
            return pconst(math.floor(p[()]))
        if len(p) == 1 and () in p and op == "rnd":
            return pconst(round(p[()]))
        if op == "floor":
            # pull integer constants out: floor(x + n) = floor(x) + n
            c = p.get((), Fraction(0))
            n = math.floor(c)
            if n:
                q = padd(p, pconst(n), -1)
                return padd(poly(floor(from_poly(q))), pconst(n))
            if isint(from_poly(p)):
                return p
        if op == "atan" and not p:
            return {}
        return atom(mk(op, (from_poly(p),), "N"))
    if op == "atan2":
        return atom(mk(op, (canon(t.args[0]), canon(t.args[1])), "N"))
    if op == "mod":
        a, b = poly(t.args[0]), poly(t.args[1])
        fa, fb = from_poly(a), from_poly(b)
        if fa.op == "c" and fb.op == "c":
            return poly(mod(fa, fb))
        return atom(mk("mod", (fa, fb), "N"))
    if op in ("max", "min"):
        a, b = canon(t.args[0]), canon(t.args[1])
        if a is b:
            return poly(a)
        d = padd(poly(a), poly(b), -1)
        if len(d) == 1 and () in d:
            big = d[()] > 0
            return poly(a if big == (op == "max") else b)
        # min(max(x, l), h) = max(min(x, h), l) for constants l <= h
        for x, y in ((a, b), (b, a)):
            if op == "min" and x.op == "c" and y.op == "max":
                for l, z in (y.args, y.args[::-1]):
                    if l.op == "c" and l.args[0] <= x.args[0]:
                        return poly(mk("max", (l, mk("min", (x, z), "N")), "N"))
        if a.id > b.id:
            a, b = b, a
        return atom(mk(op, (a, b), "N"))
    if op == "ite":
        c = canonb(t.args[0])
        if c is TRUE:
            return poly(t.args[1])
        if c is FALSE:
            return poly(t.args[2])
        a, b = canon(t.args[1]), canon(t.args[2])
        if a is b:
            return poly(a)
        if c.op == "not":
            c, a, b = c.args[0], b, a
        if a.op == "ite" and a.args[0] is c:
            a = a.args[1]
        if b.op == "ite" and b.args[0] is c:
            b = b.args[2]
        if a is b:
            return poly(a)
        return atom(mk("ite", (c, a, b), "N"))
    if op == "app":
        return atom(mk("app", (t.args[0],) + tuple(canon(a) for a in t.args[1:]), "N"))
    if op == "sum":
        n, bv, b = t.args
        p = poly(b)
        r = {}
        for m, c in p.items():
            dep = tuple(x for x in m if occurs(bv, x[0]))
            ind = tuple(x for x in m if not occurs(bv, x[0]))
            if not dep:
                q = pmul({ind: c}, poly(n))
            else:
                body = from_poly({dep: Fraction(1)})
                nb = mk("v", ("#%d" % (body.depth + 1), True), "N")
                if nb is not bv:
                    body = canon(subst(body, {bv: nb}))
                q = {}
                at = mk("sum", (canon(n), nb, body), "N")
                q = pmul({ind: c}, atom(at))
            r = padd(r, q)
        return r
    if op in ("rmax", "rmin"):
        n, bv, b = t.args
        b = canon(b)
        if not occurs(bv, b):
            return poly(b)
        nb = mk("v", ("#%d" % (b.depth + 1), True), "N")
        if nb is not bv:
            b = canon(subst(b, {bv: nb}))
        return atom(mk(op, (canon(n), nb, b), "N"))
    if op == "argsort":
        n, bv, b, d, i = t.args
        b = canon(b)
        nb = mk("v", ("#%d" % (b.depth + 1), True), "N")
        if nb is not bv:
            b = canon(subst(b, {bv: nb}))
        return atom(mk(op, (canon(n), nb, b, d, canon(i)), "N"))
    raise Unsupported("poly of " + op)


def is_zero(t):
    """ring zero test, clearing denominators"""
    p = poly(t)
    return pzero(p)


def pzero(p, lim=12):
    for _ in range(lim):
        if not p:
            return True
        # find an atom with negative exponent
        neg = {}
        for m in p:
            for at, e in m:
                if e < 0:
                    neg[at] = min(neg.get(at, 0), e)
        if not neg:
            return False
        at, e = sorted(neg.items(), key=lambda x: -x[0].id)[0]
        base = poly(at.args[0]) if at.op == "poly" else None
        r = {}
        for m, c in p.items():
            d = dict(m)
            ee = d.pop(at, 0) - e
            rest = tuple(sorted(d.items(), key=lambda x: x[0].id))
            q = {rest: c}
            if ee:
                q = pmul(q, ppow(base, ee)) if base is not None else pmul(q, mono_norm([(at, ee)]))
            r = padd(r, q)
        p = r
    return False


def same(a, b):
    """cheap syntactic/ring equality"""
    if a is b:
        return True
    if (a.depth == 0 and b.depth == 0) or True:
        try:
            if _size_small(a) and _size_small(b):
                return not padd(poly(a), poly(b), -1)
        except TooBig:
            return False
    return False


_szc = {}


def _size(t):
    r = _szc.get(t.id)
    if r is None:
        r = 1 + sum(_size(a) for a in t.args if isinstance(a, Term))
        _szc[t.id] = r
    return r


def _size_small(t):
    return _size(t) < 60


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 12:
        return "..."
    op = t.op
    if op == "c":
        return str(t.args[0])
    if op == "v" or op == "bv":
        return t.args[0]
    if op in ("true", "false", "pi"):
        return op
    if op == "app":
        return "%s[%s]" % (t.args[0], ",".join(show(a, d + 1) for a in t.args[1:]))
    if op in ("add", "mul", "and", "or"):
        s = {"add": " + ", "mul": "*", "and": " & ", "or": " | "}[op]
        return "(" + s.join(show(a, d + 1) for a in t.args) + ")"
    if op in ("lt", "le", "eq", "div"):
        s = {"lt": "<", "le": "<=", "eq": "==", "div": "/"}[op]
        return "(%s %s %s)" % (show(t.args[0], d + 1), s, show(t.args[1], d + 1))
    return "%s(%s)" % (op, ", ".join(show(a, d + 1) for a in t.args))
