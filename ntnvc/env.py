"""The two interpretations of a contract.

SymEnv   - inputs are universally quantified symbols; the real source is executed by the symbolic
           TensorFlow stand-in; every `ensure` is a verification condition discharged by prover.py.
ConcEnv  - inputs are random (or a counterexample's) values; the real source runs on real TensorFlow;
           every `ensure` is evaluated.  Used for replay of refutations and as conformance check.
"""
import inspect
import math
import itertools
import time

from . import drawmap


class Reject(Exception):
    """the sampled input violates the precondition"""


class Skip(Exception):
    """contract not applicable in this mode"""


def uf_coeff(name):
    import zlib
    h = zlib.crc32(name.encode())
    return [((h >> (8 * k)) & 255) / 128. - 1. for k in range(4)]


class Base:
    def close(self):
        while self.undo:
            obj, attr, had, old = self.undo.pop()
            if had:
                object.__setattr__(obj, attr, old)
            else:
                object.__delattr__(obj, attr)

    def cast(self, t, precision):
        return self.tf.cast(t, self.tf.float64 if precision == "double" else self.tf.float32)

    symbolic = False

    # ---------- shared helpers over numbers ----------
    def rot(self, axis, a):
        """rotation matrix about an axis, right handed"""
        c, s = self.cos(a), self.sin(a)
        if axis == "z":
            return [[c, -s, 0], [s, c, 0], [0, 0, 1]]
        if axis == "y":
            return [[c, 0, s], [0, 1, 0], [-s, 0, c]]
        return [[1, 0, 0], [0, c, -s], [0, s, c]]

    def matmul(self, a, b):
        return [[sum((a[i][k] * b[k][j] for k in range(len(b))), 0) for j in range(len(b[0]))] for i in range(len(a))]

    def matvec(self, a, v):
        return [sum((a[i][k] * v[k] for k in range(len(v))), 0) for i in range(len(a))]

    def dot(self, a, b):
        return sum((x * y for x, y in zip(a, b)), 0)

    def deg(self, x):
        """degrees -> radians"""
        return x * self.pi / 180

    def pow10(self, x):
        return self.pow(10, x)


# =========================================================================== symbolic
class SymEnv(Base):
    symbolic = True

    def __init__(self, paths, opts):
        from . import terms as T, symtf as S, prover as P, loader as L
        self.T, self.S, self.P, self.L = T, S, P, L
        self.paths = paths
        self.opts = opts
        self.undo = []
        self.pi = T.PI_T
        self.records = []           # obligations of this path
        self.choices = []
        self._names = {}
        S.reset_log()
        P.RANGES.clear()
        S.LOG["ranges"] = P.RANGES
        T._fresh[0] = 0
        self.loader = opts["loader"]
        L.CONFIG.precision = "double"
        self.memo = opts.setdefault("memo", {})
        self.nested = None
        self.soft = False

    # ---- access to the code under verification ----
    @property
    def pkg(self): return self.loader.get(self.L.PKG)
    def mod(self, name): return self.loader.get(self.L.PKG + "." + name)
    @property
    def tf(self): return self.loader.tf
    @property
    def rdtype(self): return self.L.DTYPES[self.L.CONFIG.precision]["tf"]["rdtype"]
    @property
    def cdtype(self): return self.L.DTYPES[self.L.CONFIG.precision]["tf"]["cdtype"]
    def precision(self, p): self.L.CONFIG.precision = p

    # ---- inputs ----
    def dim(self, name, lo=1, hi=None, sample=3):
        if self.opts.get("bounded"):
            v = max(lo, 2 + sum(map(ord, name)) % 2)
            return self.T.const(v if hi is None else min(v, hi))
        v = self.T.var(name, True)
        self.P.RANGES[name] = (self.T.const(lo), self.T.const(hi) if hi is not None else None, "i")
        self.opts["sample"][name] = (lo, min(hi, sample) if hi is not None else sample)
        self.paths.assume(self.T.le(self.T.const(lo), v))
        if hi is not None:
            self.paths.assume(self.T.le(v, self.T.const(hi)))
        return v

    def scalar(self, name, lo=None, hi=None, lo_open=False, hi_open=False, kind="r", sample=None):
        v = self.T.var(name, kind == "i")
        self._range(name, lo, hi, kind, lo_open, hi_open, sample)
        f = self.P.range_fact(v)
        if f is not None:
            self.paths.assume(f)
        return v

    def flag(self, name):
        return bool(self.choose(name, [False, True]))

    def _range(self, name, lo, hi, kind, lo_open, hi_open, sample):
        c = lambda x: None if x is None else self.T.const(x)
        self.P.RANGES[name] = (c(lo), c(hi), kind, lo_open, hi_open)
        lo = c(lo)
        self.T.set_positive(name, lo is not None and lo.op == "c" and (lo.args[0] > 0 or (lo.args[0] == 0 and lo_open)))
        if sample is not None:
            self.opts["sample"][name] = sample

    def tensor(self, name, dims, lo=None, hi=None, lo_open=False, hi_open=False, kind="r", sample=None, gen=None,
               dtype=None):
        T, S = self.T, self.S
        dims = tuple(S.dim(d) for d in dims)
        if kind == "c":
            self._range(name + ".re", lo, hi, "r", lo_open, hi_open, sample)
            self._range(name + ".im", lo, hi, "r", lo_open, hi_open, sample)
            return S.STensor(dtype or self.cdtype, dims, lambda i: S.Cx(T.app(name + ".re", *i), T.app(name + ".im", *i)))
        self._range(name, lo, hi, kind, lo_open, hi_open, sample)
        if kind == "i":
            T.INT_FUNS.add(name)
            return S.STensor(dtype or S.int32, dims, lambda i: T.app(name, *i))
        if kind == "b":
            return S.STensor(S.bool_, dims, lambda i: T.app(name, *i, kind="B"))
        return S.STensor(dtype or self.rdtype, dims, lambda i: T.app(name, *i))

    def const(self, values, kind="r"):
        """a constant tensor from nested python values"""
        return self.S.convert(values, self.rdtype if kind == "r" else self.cdtype)

    def tscalar(self, v, kind="r"):
        return self.S.convert(v, {"r": self.rdtype, "i": self.S.int32, "b": self.S.bool_}[kind])

    def build(self, dims, f, kind="r"):
        """tensor given element-wise by f(*index)"""
        dims = tuple(self.S.dim(d) for d in dims)
        dt = {"r": self.rdtype, "c": self.cdtype, "b": self.S.bool_, "i": self.S.int32}[kind]
        return self.S.STensor(dt, dims, lambda i: f(*i))

    def choose(self, name, options):
        options = list(options)
        v = options[0] if len(options) == 1 else options[self.paths.choose(list(range(len(options))))]
        self.choices.append((name, v))
        return v

    def stub(self, obj, attr, value, calls):
        """replaces a method by its contract's arbitrary result, and records its arguments by name"""
        sig = inspect.signature(getattr(obj, attr))

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls[attr] = b.arguments
            return value
        self.havoc(obj, attr, f)

    def havoc(self, obj, attr, value):
        """replaces an attribute until the end of the path"""
        d = vars(obj)
        self.undo.append((obj, attr, attr in d, d.get(attr)))
        object.__setattr__(obj, attr, value)

    def assume(self, c):
        c = self.T.boolt(c)
        s = self.T.canonb(c)
        if s is self.T.FALSE:
            raise Reject()
        self.paths.assume(c)

    # ---- an arbitrary function on the sphere ----
    def ufun(self, name, a, b): return self.T.app("uf:" + name, self.T.const(a), self.T.const(b))

    def ufield(self, name, a, b):
        a, b = self.tf.broadcast_to(a, self.tf.shape(a + b)), self.tf.broadcast_to(b, self.tf.shape(a + b))
        return self.S.STensor(self.rdtype, a.dims, lambda i: self.T.app("uf:" + name, a.elem(i), b.elem(i)))

    # ---- numbers ----
    def num(self, x): return self.T.const(x)
    def sqrt(self, x): return self.T.sqrt(self.T.const(x))
    def exp(self, x): return self.T.exp(self.T.const(x))
    def ln(self, x): return self.T.ln(self.T.const(x))
    def log10(self, x): return self.T.log10(self.T.const(x))
    def sin(self, x): return self.T.sin(self.T.const(x))
    def cos(self, x): return self.T.cos(self.T.const(x))
    def atan(self, x): return self.T.atan(self.T.const(x))
    def acos(self, x): return self.T.acos(self.T.const(x))
    def atan2(self, y, x): return self.T.atan2(self.T.const(y), self.T.const(x))

    def evalint(self, i): return int(i.args[0])
    def j1(self, x): return self.T.bessel_j1(self.T.const(x))
    def floor(self, x): return self.T.floor(self.T.const(x))
    def mod(self, *a):
        if len(a) == 1:
            return self.loader.get(self.L.PKG + "." + a[0])
        return self.T.mod(self.T.const(a[0]), self.T.const(a[1]))
    def idiv(self, a, b): return self.S.divmod_t(self.T.const(a), self.T.const(b))[0]
    def imod(self, a, b): return self.S.divmod_t(self.T.const(a), self.T.const(b))[1]
    def pow(self, a, b): return self.T.power(self.T.const(a), self.T.const(b))
    def abs(self, x): return self.T.absv(self.T.const(x))
    def max2(self, a, b): return self.T.maxv(self.T.const(a), self.T.const(b))
    def min2(self, a, b): return self.T.minv(self.T.const(a), self.T.const(b))
    def div(self, a, b): return self.T.div(self.T.const(a), self.T.const(b))
    def cx(self, re, im): return self.S.Cx(re, im)
    def re(self, x): return self.S.cx(x).re
    def im(self, x): return self.S.cx(x).im
    def cis(self, a):
        a = self.T.const(a)
        return self.S.cis(a)

    def ite(self, c, a, b):
        return self.S.sel(self.T.boolt(c), a, b)

    def and_(self, *a): return self.T.land(*a)
    def or_(self, *a): return self.T.lor(*a)
    def not_(self, a): return self.T.lnot(self.T.boolt(a))
    def implies(self, a, b): return self.T.implies(self.T.boolt(a), self.T.boolt(b))
    def iff(self, a, b): return self.T.iff(a, b)
    def lt(self, a, b): return self.T.lt(self.T.const(a), self.T.const(b))
    def le(self, a, b, tol=None): return self.T.le(self.T.const(a), self.T.const(b))

    def eq(self, a, b, tol=None):
        if isinstance(a, self.S.Cx) or isinstance(b, self.S.Cx):
            a, b = self.S.cx(a), self.S.cx(b)
            return self.T.land(self.T.eq(a.re, b.re), self.T.eq(a.im, b.im))
        a, b = self.T.const(a) if not isinstance(a, bool) else self.T.boolt(a), \
            self.T.const(b) if not isinstance(b, bool) else self.T.boolt(b)
        return self.T.eq(a, b)

    def same(self, a, b):
        """exact index/boolean equality used inside a specification"""
        return self.eq(a, b)

    def eq_mod(self, a, b, m, tol=None):
        """a = b modulo m"""
        return self._eqmod(self.T.const(a), self.T.const(b), self.T.const(m))

    def _eqmod(self, a, b, m):
        d = self.T.div(self.T.sub(a, b), m)
        d = self.T.canon(d)
        return self.T.eq(d, self.T.floor(self.T.add(d, self.T.div(self.T.ONE, self.T.const(2)))))

    def sum(self, n, f):
        n = self.T.const(n)
        probe = f(self.T.ZERO)
        if isinstance(probe, self.S.Cx):
            return self.S.csum(n, f)
        return self.T.bsum(n, f)

    def max(self, n, f): return self.T.bmax(n, f)
    def min(self, n, f): return self.T.bmin(n, f)
    def any(self, n, f): return self.T.bany(n, f)
    def sorted(self, n, f, i, desc=False):
        """the i-th element of f(0..n-1) in ascending (descending) order"""
        return self.T.pick_at(f, self.order(n, f, i, desc))
    def order(self, n, f, i, desc=False):
        """the index of that element"""
        return self.T.argsort(self.T.const(n), f, desc, self.T.const(i))

    # ---- tensors ----
    def at(self, t, *idx):
        if isinstance(t, self.S.STensor):
            if len(idx) != t.rank:
                raise ShapeMismatch("rank %d, specification indexes %d" % (t.rank, len(idx)))
            return t.elem(tuple(self.T.const(i) for i in idx))
        if not idx:
            return self.T.const(t)
        return self.at(self.S.convert(t), *idx)

    def dims(self, t):
        return tuple(t.dims)

    def value(self, t):
        """number held by a scalar (tensor or python)"""
        return self.at(t) if isinstance(t, self.S.STensor) else (t if isinstance(t, (bool, str)) else self.T.const(t))

    # ---- obligations ----
    def forall(self, name, dims, f, hyp=None, tol=None):
        """for all indices within dims: f(*idx)"""
        T = self.T
        dims = [self.S.dim(d) for d in dims]
        conc = [k for k, d in enumerate(dims) if isinstance(d, int)]
        tot = 1
        for k in conc:
            tot *= dims[k]
        if tot > 4096 or (tot > 64 and len(conc) == len(dims) and False):
            conc = []
        syms = {}
        hyps = []
        for k, d in enumerate(dims):
            if k not in conc:
                v = T.var("%s.i%d" % (name, k), True)
                syms[k] = v
                hyps += [T.le(T.ZERO, v), T.lt(v, T.const(d))]
                self.P.RANGES[v.args[0]] = (T.ZERO, T.sub(T.const(d), T.ONE), "i")
        for combo in itertools.product(*[range(dims[k]) for k in conc]):
            idx = [None] * len(dims)
            for k, v in zip(conc, combo):
                idx[k] = T.const(v)
            for k, v in syms.items():
                idx[k] = v
            n = name + ("[%s]" % ",".join(map(str, combo)) if conc else "")
            self._ob(n, lambda: f(*idx), hyps, (lambda: hyp(*idx)) if hyp else None)

    def ensure(self, name, goal):
        self._ob(name, (lambda: goal) if not callable(goal) else goal, [], None)

    def ensure_all(self, name, goals):
        for k, g in enumerate(goals):
            self.ensure("%s.%d" % (name, k), g)

    def shape_is(self, name, t, dims):
        want = tuple(self.S.dim(d) for d in dims)
        have = tuple(t.dims)
        if len(want) != len(have):
            return self._ob("shape:" + name, lambda: self.T.FALSE, [], None, note="rank %d, expected %d" % (len(have), len(want)))
        g = self.T.land(*[self.T.eq(self.T.const(a), self.T.const(b)) for a, b in zip(have, want)])
        self._ob("shape:" + name, lambda: g, [], None)

    def dtype_is(self, name, t, kind):
        want = {"r": self.rdtype, "c": self.cdtype, "b": self.S.bool_, "i": self.S.int32}[kind]
        ok = t.dtype is want
        self._ob("dtype:" + name, lambda: self.T.TRUE if ok else self.T.FALSE, [], None,
                 note="%s, expected %s" % (t.dtype.name, want.name))

    def defined(self, name, dims, t_or_f):
        """no division by zero / root or log outside its domain in the elements of the tensor"""
        f = (lambda *i: self.at(t_or_f, *i)) if isinstance(t_or_f, self.S.STensor) else t_or_f

        def goal(*i):
            v = f(*i)
            parts = [v.re, v.im] if isinstance(v, self.S.Cx) else [v]
            return self.T.land(*[definedness(self.T, p) for p in parts])
        self.forall("defined:" + name, dims, goal)

    def _ob(self, name, thunk, hyps, hyp, note=""):
        T = self.T
        t0 = time.time()
        hs = list(self.paths.hyps) + list(hyps)
        if hyp is not None:
            hs += self.P.conjuncts(T.boolt(hyp()))
        hs = [h for h in hs if h is not T.TRUE]
        g = T.boolt(thunk())
        if any(h is T.FALSE for h in hs):
            g = T.TRUE
        rec = {"name": name, "goal": g, "hyps": hs, "note": note, "choices": list(self.choices)}
        if self.nested is not None:
            self.nested.append(rec)
            return
        self._solve(rec)
        rec["time"] = time.time() - t0
        self.records.append(rec)

    def _solve(self, rec):
        """goal must be provable under rec['hyps'] + ranges"""
        T = self.T
        key = (rec["goal"].id, tuple(sorted(h.id for h in rec["hyps"])))
        r = self.memo.get(key)
        if r is None:
            # only hypotheses that share symbols with the goal are relevant (plus closure)
            hs = rec["hyps"] if rec["goal"] is T.FALSE else relevant(self.P, T, rec["goal"], rec["hyps"])
            late = self.opts["late"]()
            r = self.P.Result("unknown", "-", 0, "not attempted after refutations") if self.opts["nref"] >= 4 else \
                self.P.Result(late, "-", 0, "effort of the check used up") if late else \
                self.P.prove(rec["goal"], hs, limit=self.opts["limit"], refuter=lambda: self.opts["refute"](rec["goal"], rec["hyps"], 1.5)[0])
            if r.status == "refuted" and not self.soft:
                self.opts["nref"] += 1
            self.memo[key] = r
        rec["status"], rec["backend"], rec["detail"] = r.status, r.backend, r.detail

    def some(self, name, candidates, f):
        """the obligations generated by f(c) hold for at least one candidate c"""
        cands = list(candidates)
        first, best, shaped = None, -1, 0
        self.soft = len(cands) > 1
        for c in cands:
            self.nested = []
            try:
                f(c)
                recs, self.nested = self.nested, None
            except Exception:
                self.nested = None
                if c is cands[-1] and first is None:
                    raise
                continue
            ok, n = True, 0
            for r in recs:
                self._solve(r)
                if r["status"] != "proved":
                    ok = False
                    shaped += r["name"].startswith("shape:")
                    break
                n += 1
            if ok:
                self.records += recs
                self.soft = False
                return
            if n > best:
                first, best = recs, n
        for r in first or ():
            if "status" not in r:
                self._solve(r)
        self.soft = False
        if first is None:
            g = self.T.FALSE
            self._ob(name, lambda: g, [], None, note="no random draw has the form the specification needs")
            return
        # refutation of an obligation under one candidate only is not a refutation
        if len(cands) > 1 + shaped:
            for r in first:
                r["norefute"] = True
        self.records += first

    # ---- randomness ----
    def mark(self): return len(self.S.LOG["draws"])

    def draws(self, mark=0): return self.S.LOG["draws"][mark:]

    def assign_draws(self, mark, specs, exact=True):
        """all ways to match the logged draws with specs = [(kind, dims), ...]"""
        S, T, D = self.S, self.T, self.S.Draw

        class Ops:
            @staticmethod
            def eq(a, b): return S.dim_eq(S.dim(a), S.dim(b))

            @staticmethod
            def size(n):
                n = S.dim(n)
                return n if isinstance(n, int) else None

            @staticmethod
            def remap(t, rank, dims, f):
                return S.STensor(t.dtype, dims, lambda idx: t.elem(f(idx))) if t.rank == rank else t

            @classmethod
            def view(cls, d, dims, m):
                dims = tuple(S.dim(x) for x in dims)
                n = len(d.dims)
                if list(m) == list(range(n)):
                    return d

                def f(idx):
                    out = [T.ZERO] * n
                    for i, j in enumerate(m):
                        if j is not None:
                            out[j] = idx[i]
                    return tuple(out)
                return D(d.kind, dims, cls.remap(d.raw, n, dims, f), cls.remap(d.value, n, dims, f), **d.par)

            @classmethod
            def part(cls, d, ax, i):
                dims = d.dims[:ax] + d.dims[ax + 1:]
                f = lambda idx: idx[:ax] + (T.const(i),) + idx[ax:]
                return D(d.kind, dims, cls.remap(d.raw, len(d.dims), dims, f), cls.remap(d.value, len(d.dims), dims, f), **d.par)

            @classmethod
            def stack(cls, ds, ax, dims):
                return D(ds[0].kind, tuple(S.dim(x) for x in dims), S.stack([d.raw for d in ds], axis=ax), S.stack([d.value for d in ds], axis=ax), **ds[0].par)
        return drawmap.assign(self.draws(mark), specs, exact, Ops)

    def chol(self): return self.S.LOG["chol"]

    def raises(self, fn, exc=(AssertionError,)):
        try:
            fn()
            return False
        except exc:
            return True

    def real_exception(self):
        return (AssertionError, ValueError, TypeError, self.S.InvalidArgumentError)


class ShapeMismatch(Exception):
    pass


def relevant(P, T, goal, hyps):
    ids = set(P.symbols(goal))
    rest = [(h, P.symbols(h)) for h in hyps]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for h, s in rest:
            if not s or (s & ids):
                out.append(h)
                ids |= s
                ch = True
            else:
                nr.append((h, s))
        rest = nr
    return out


def definedness(T, t):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op == "ite":
            c, a, b = x.args
            r = T.land(go(c), T.implies(c, go(a)), T.implies(T.lnot(c), go(b)))
        elif op in ("sum", "rmax", "rmin", "rany"):
            n, bv, b = x.args
            k = T.fresh("d", True)
            body = go(T.subst(b, {bv: k}))
            if body is T.TRUE:
                r = T.TRUE
            elif not T.occurs(k, body):
                r = T.implies(T.lt(T.ZERO, n), body)
            else:
                r = T.lnot(T.bany(n, lambda j: T.lnot(T.subst(body, {k: j}))))
        else:
            ps = [go(a) for a in x.args if isinstance(a, T.Term)]
            if op == "div":
                ps.append(T.lnot(T.eq(x.args[1], T.ZERO)))
            elif op == "sqrt":
                ps.append(T.le(T.ZERO, x.args[0]))
            elif op == "ln":
                ps.append(T.lt(T.ZERO, x.args[0]))
            elif op == "acos":
                ps += [T.le(T.const(-1), x.args[0]), T.le(x.args[0], T.ONE)]
            elif op == "pow" and not (x.args[1].op == "c" and x.args[1].args[0].denominator == 1 and x.args[1].args[0] > 0):
                a = x.args[0]
                if not (a.op == "c" and a.args[0] > 0):
                    ps.append(T.lt(T.ZERO, a))
            elif op == "mod":
                ps.append(T.lnot(T.eq(x.args[1], T.ZERO)))
            r = T.land(*ps)
        memo[x.id] = r
        return r
    return go(t)


# =========================================================================== concrete
class ConcEnv(Base):
    symbolic = False

    def __init__(self, seed, ctx, overrides=None):
        import random
        import numpy as np
        self.np = np
        self.ctx = ctx              # real modules (see conc.py)
        self.rng = random.Random(seed)
        self.nrng = np.random.default_rng(abs(hash(("ntn", seed))) % (2 ** 32) if False else seed & 0xffffffff)
        self.seed = seed
        self.pi = math.pi
        self.failures = []
        self.checked = 0
        self.choices = []
        self.ov = overrides or {}
        self.undo = []
        self.inputs = {}
        self.log = []
        self.chols = []
        ctx.begin(self)
        self._cache = {}
        self.nested = None

    @property
    def pkg(self): return self.ctx.pkg
    @property
    def tf(self): return self.ctx.tf
    @property
    def rdtype(self): return self.ctx.rdtype()
    @property
    def cdtype(self): return self.ctx.cdtype()
    def precision(self, p): self.ctx.set_precision(p)

    def dim(self, name, lo=1, hi=None, sample=3):
        hi2 = min(hi, sample) if hi is not None else sample
        v = self.ov.get("vars", {}).get(name)
        if v is None or v > 64:
            v = self.rng.randint(lo, max(lo, hi2))
        self.inputs[name] = v
        return int(v)

    def _num(self, lo, hi, lo_open, hi_open, sample):
        if isinstance(sample, list):
            sample = self.rng.choice(sample)
        if sample is not None:
            lo, hi = sample
        if lo is None and hi is None:
            lo, hi = -10., 10.
        elif lo is None:
            lo = hi - 100.
        elif hi is None:
            hi = lo + 100.
        return float(lo), float(hi)

    def scalar(self, name, lo=None, hi=None, lo_open=False, hi_open=False, kind="r", sample=None):
        v = self.ov.get("vars", {}).get(name)
        if v is None:
            a, b = self._num(lo, hi, lo_open, hi_open, sample)
            if kind == "i":
                v = self.rng.randint(int(a), int(b))
            else:
                r = self.rng.random()
                if r < .05 and not lo_open:
                    v = a
                elif r < .1 and not hi_open:
                    v = b
                elif a > 0 and b / a > 1e4:
                    v = math.exp(self.rng.uniform(math.log(a), math.log(b)))
                else:
                    v = self.rng.uniform(a, b)
        self.inputs[name] = v
        return v

    def flag(self, name):
        return bool(self.choose(name, [False, True]))

    def tensor(self, name, dims, lo=None, hi=None, lo_open=False, hi_open=False, kind="r", sample=None, gen=None,
               dtype=None):
        np = self.np
        dims = tuple(int(d) for d in dims)
        if kind == "c":
            a, b = self._num(lo, hi, lo_open, hi_open, sample)
            v = self.nrng.uniform(a, b, dims) + 1j * self.nrng.uniform(a, b, dims)
            for part, nm in ((0, name + ".re"), (1, name + ".im")):
                for idx, x in self.ov.get("apps", {}).get(nm, []):
                    if all(0 <= i < d for i, d in zip(idx, dims)):
                        c = v[tuple(idx)]
                        v[tuple(idx)] = complex(x, c.imag) if part == 0 else complex(c.real, x)
            self.inputs[name] = v
            return self.tf.constant(v, dtype or self.cdtype)
        if gen is not None:
            v = np.array(gen(self.nrng, dims))
        elif kind == "b":
            v = self.nrng.random(dims) < self.rng.choice([0.2, .5, .8, 0., 1.])
        elif kind == "i":
            a, b = self._num(lo, hi, lo_open, hi_open, sample)
            v = self.nrng.integers(int(a), int(b) + 1, dims)
        else:
            a, b = self._num(lo, hi, lo_open, hi_open, sample)
            if a > 0 and b / a > 1e4:
                v = np.exp(self.nrng.uniform(math.log(a), math.log(b), dims))
            else:
                v = self.nrng.uniform(a, b, dims)
            if self.rng.random() < .15 and not lo_open and not hi_open:
                m = self.nrng.random(dims)
                v = np.where(m < .1, a, np.where(m > .9, b, v))
        for idx, x in self.ov.get("apps", {}).get(name, []):
            if len(idx) == len(dims) and all(0 <= i < d for i, d in zip(idx, dims)):
                v[tuple(idx)] = x
        self.inputs[name] = v
        if kind == "b":
            return self.tf.constant(v.astype(bool), self.tf.bool)
        if kind == "i":
            return self.tf.constant(v, dtype or self.tf.int32)
        return self.tf.constant(v, dtype or self.rdtype)

    def const(self, values, kind="r"):
        return self.tf.constant(values, self.rdtype if kind == "r" else self.cdtype)

    def tscalar(self, v, kind="r"):
        return self.tf.constant(v, {"r": self.rdtype, "i": self.tf.int32, "b": self.tf.bool}[kind])

    def build(self, dims, f, kind="r"):
        np = self.np
        dims = tuple(int(d) for d in dims)
        dt = {"r": float, "c": complex, "b": bool, "i": int}[kind]
        v = np.empty(dims, dtype=dt)
        for i in np.ndindex(*dims):
            v[i] = f(*i)
        return self.tf.constant(v, {"r": self.rdtype, "c": self.cdtype, "b": self.tf.bool, "i": self.tf.int32}[kind])

    def choose(self, name, options):
        options = list(options)
        ch = self.ov.get("choices", {})
        if name in ch and ch[name] in options:
            v = ch[name]
        else:
            v = options[self.rng.randrange(len(options))]
        self.choices.append((name, v))
        self.inputs["choice:" + name] = v
        return v

    def stub(self, obj, attr, value, calls):
        """replaces a method by its contract's arbitrary result, and records its arguments by name"""
        sig = inspect.signature(getattr(obj, attr))

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls[attr] = b.arguments
            return value
        self.havoc(obj, attr, f)

    def havoc(self, obj, attr, value):
        """replaces an attribute until the end of the path"""
        d = vars(obj)
        self.undo.append((obj, attr, attr in d, d.get(attr)))
        object.__setattr__(obj, attr, value)

    def assume(self, c):
        if not c:
            raise Reject()

    # numbers
    def ufun(self, name, a, b):
        c = uf_coeff("uf:" + name)
        return c[0] + c[1] * math.cos(a) + math.sin(a) * (c[2] * math.cos(b) + c[3] * math.sin(b))

    def ufield(self, name, a, b):
        c, t = uf_coeff("uf:" + name), self.tf
        return c[0] + c[1] * t.cos(a) + t.sin(a) * (c[2] * t.cos(b) + c[3] * t.sin(b))

    def num(self, x): return float(x)

    def _guard(self, f, *a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return float("nan")

    def sqrt(self, x): return self._guard(math.sqrt, x)
    def exp(self, x): return self._guard(math.exp, x)
    def ln(self, x): return self._guard(math.log, x)
    def log10(self, x): return self._guard(math.log10, x)
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def atan(self, x): return math.atan(x)
    def acos(self, x): return self._guard(math.acos, x)
    def atan2(self, y, x): return math.atan2(y, x)
    def evalint(self, i): return int(i)
    def j1(self, x):
        from .evalt import bessel
        return bessel(x)
    def floor(self, x): return math.floor(x)
    def mod(self, *a):
        if len(a) == 1:
            return self.ctx.module(a[0])
        return a[0] - a[1] * math.floor(a[0] / a[1])
    def idiv(self, a, b): return int(a) // int(b)
    def imod(self, a, b): return int(a) % int(b)
    def pow(self, a, b): return self._guard(math.pow, a, b)
    def abs(self, x): return abs(x)
    def max2(self, a, b): return max(a, b)
    def min2(self, a, b): return min(a, b)
    def div(self, a, b): return a / b if b else float("nan")
    def cx(self, re, im): return complex(re, im)
    def re(self, x): return complex(x).real
    def im(self, x): return complex(x).imag
    def cis(self, a): return complex(math.cos(a), math.sin(a))
    def ite(self, c, a, b): return a if c else b
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def lt(self, a, b): return a < b

    TOL = 1e-6

    def le(self, a, b, tol=None):
        t = tol or self.TOL
        return a <= b + t * (1 + max(abs(a), abs(b)))

    def eq(self, a, b, tol=None):
        if isinstance(a, (bool, self.np.bool_)) or isinstance(b, (bool, self.np.bool_)):
            return bool(a) == bool(b)
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        t = tol or self.TOL
        if a == b:
            return True
        d = abs(a - b)
        return bool(d <= t * (abs(a) + abs(b)) or d <= t * 1e-3)

    def same(self, a, b): return a == b

    def eq_mod(self, a, b, m, tol=None):
        t = tol or self.TOL
        d = (a - b) / m
        return bool(abs(d - round(d)) * m <= t * (1 + abs(a) + abs(b)))

    def sum(self, n, f):
        r = 0.0
        for k in range(int(n)):
            r = r + f(k)
        return r

    def max(self, n, f): return max(f(k) for k in range(int(n)))
    def min(self, n, f): return min(f(k) for k in range(int(n)))
    def any(self, n, f): return any(f(k) for k in range(int(n)))
    def sorted(self, n, f, i, desc=False): return sorted((f(k) for k in range(int(n))), reverse=desc)[int(i)]
    def order(self, n, f, i, desc=False):
        v = [f(k) for k in range(int(n))]
        return sorted(range(int(n)), key=lambda k: -v[k] if desc else v[k])[int(i)]

    def _np(self, t):
        r = self._cache.get(id(t))
        if r is None or r[0] is not t:
            r = (t, self.np.asarray(t.numpy() if hasattr(t, "numpy") else t))
            self._cache[id(t)] = r
        return r[1]

    def at(self, t, *idx):
        a = self._np(t)
        if a.ndim != len(idx):
            raise ShapeMismatch("rank %d, specification indexes %d" % (a.ndim, len(idx)))
        v = a[tuple(int(i) for i in idx)]
        if a.dtype.kind == "c":
            return complex(v)
        if a.dtype.kind == "b":
            return bool(v)
        if a.dtype.kind in "iu":
            return int(v)
        return float(v)

    def dims(self, t): return tuple(int(d) for d in t.shape)

    def value(self, t):
        if isinstance(t, (str, bool)):
            return t
        a = self.np.asarray(t.numpy() if hasattr(t, "numpy") else t)
        return a.item()

    def forall(self, name, dims, f, hyp=None, tol=None):
        dims = [int(d) for d in dims]
        tot = 1
        for d in dims:
            tot *= d
        if tot <= 300:
            it = itertools.product(*[range(d) for d in dims])
        else:
            it = (tuple(self.rng.randrange(d) for d in dims) for _ in range(300))
        for idx in it:
            if hyp is not None and not hyp(*idx):
                continue
            self._chk("%s" % name, f(*idx), "at index %s" % (tuple(idx),))

    def _chk(self, name, ok, note=""):
        if self.nested is not None:
            self.nested.append((name, bool(ok), note))
            return
        self.checked += 1
        if not ok:
            self.failures.append((name, note))

    def ensure(self, name, goal): self._chk(name, goal() if callable(goal) else goal)

    def ensure_all(self, name, goals):
        for k, g in enumerate(goals):
            self.ensure("%s.%d" % (name, k), g)

    def shape_is(self, name, t, dims):
        have, want = tuple(int(d) for d in t.shape), tuple(int(d) for d in dims)
        self._chk("shape:" + name, have == want, "shape %s, expected %s" % (have, want))

    def dtype_is(self, name, t, kind):
        want = {"r": self.rdtype, "c": self.cdtype, "b": self.tf.bool, "i": self.tf.int32}[kind]
        self._chk("dtype:" + name, t.dtype == want, "%s, expected %s" % (t.dtype, want))

    def defined(self, name, dims, t_or_f):
        if callable(t_or_f) and not hasattr(t_or_f, "shape"):
            def g(*i):
                v = t_or_f(*i)
                return v == v and abs(v) != float("inf")
        else:
            def g(*i):
                v = self.at(t_or_f, *i)
                return v == v and abs(v) != float("inf")
        self.forall("defined:" + name, dims, g)

    def some(self, name, candidates, f):
        cands = list(candidates)
        first = None
        for c in cands:
            self.nested = []
            try:
                f(c)
            except Exception:
                self.nested = None
                if c is cands[-1] and first is None:
                    raise
                continue
            recs, self.nested = self.nested, None
            if first is None or sum(ok for _, ok, _ in recs) > sum(ok for _, ok, _ in first):
                first = recs
            if all(ok for _, ok, _ in recs):
                first = recs
                break
        if first is None:
            self._chk(name, False, "no random draw has the form the specification needs")
            return
        for n, ok, note in first:
            self._chk(n, ok, note)

    def mark(self): return len(self.log)
    def draws(self, mark=0): return self.log[mark:]

    def assign_draws(self, mark, specs, exact=True):
        tf, D = self.tf, drawmap.Draw

        class Ops:
            @staticmethod
            def eq(a, b): return int(a) == int(b)

            @staticmethod
            def size(n): return int(n)

            @classmethod
            def view(cls, d, dims, m):
                n = len(d.dims)
                if list(m) == list(range(n)):
                    return d

                def f(t):
                    if len(t.shape) != n:
                        return t
                    perm = [j for j in m if j is not None]
                    perm += [j for j in range(n) if j not in perm]
                    return tf.reshape(tf.transpose(t, perm), [int(x) for x in dims])
                return D(d.kind, tuple(int(x) for x in dims), f(d.raw), f(d.value), **d.par)

            @classmethod
            def part(cls, d, ax, i):
                f = lambda t: tf.gather(t, i, axis=ax) if len(t.shape) == len(d.dims) else t
                return D(d.kind, tuple(d.dims[:ax]) + tuple(d.dims[ax + 1:]), f(d.raw), f(d.value), **d.par)

            @classmethod
            def stack(cls, ds, ax, dims):
                return D(ds[0].kind, tuple(int(x) for x in dims), tf.stack([d.raw for d in ds], ax), tf.stack([d.value for d in ds], ax), **ds[0].par)
        return drawmap.assign(self.draws(mark), specs, exact, Ops)

    def chol(self): return self.chols

    def raises(self, fn, exc=(AssertionError,)):
        try:
            fn()
            return False
        except exc:
            return True

    def real_exception(self):
        return (AssertionError, ValueError, TypeError, self.tf.errors.InvalidArgumentError)
