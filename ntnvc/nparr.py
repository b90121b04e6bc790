"""numpy arrays of symbolic size, and `for ... in range(n)` with symbolic n.

A loop is summarised by its own inferred invariant, checked for an arbitrary iteration:
  1. the body is run once for an arbitrary index i (0 <= i < n); what it adds to each scalar local is recorded and its array writes discarded;
  2. every such local is set to its value at the start of iteration i (initial value + i times the increment, or + sum of the increments),
     every other local that the body assigns is made unusable, and the body is run again; the increment must be the same (invariant is
     inductive), no branch may depend on i, and arrays from outside may only be written, at addresses that no two iterations share;
  3. afterwards element x of a written array is the value written by the one iteration whose address is x (solved by division with
     remainder), or the old value where there is none.
The body must consist of assignments to names and array elements, nested loops and conditionals; anything else leaves the subset."""
import ast
import builtins
import ctypes
import sys
import numpy as rnp
from .terms import *
from . import terms as TT
from . import symtf
from .symtf import STensor, Unsupported, PATHS, dim, dim_eq, dim_known, convert, getitem, divmod_t

LOOPS = symtf.LOOPS          # active symbolic loops, outermost first


class Loop:
    def __init__(self, var, lo, hi):
        self.var, self.lo, self.hi = var, lo, hi
        self.writes = []            # (array, [per axis: ("i", address) | ("s", start, size)], value tensor, [loops])


class Poison:
    """the value of a local at the start of an arbitrary iteration, where it is not known"""
    def _no(self, *a, **k):
        raise Unsupported("a value carried from one iteration of a symbolic loop to the next")
    __getattr__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __getitem__ = __setitem__ = __iter__ = _no
    __len__ = __bool__ = __index__ = __int__ = __float__ = __call__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __neg__ = _no
    __floordiv__ = __mod__ = __pow__ = __array__ = __contains__ = __iadd__ = _no
    __hash__ = object.__hash__


def loop_free(t):
    return not any(x.op == "v" and x.args[0].startswith("loop$") for x in walk(t))


# ------------------------------------------------------------------ loops
_trees = {}
_CALLS = {"range", "int", "float", "len", "abs", "min", "max", "round", "sum", "list", "tuple", "bool"}
_METHODS = {"copy", "reshape", "astype", "get_shape", "numpy"}


def _for_node(frame, sources):
    code = frame.f_code
    src = sources.get(code.co_filename)
    if src is None:
        raise Unsupported("symbolic range outside the package: " + code.co_filename)
    pos = list(code.co_positions())[frame.f_lasti // 2]
    t = _trees.get(src)
    if t is None:
        t = _trees[src] = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, ast.For) and any((x.lineno, x.end_lineno, x.col_offset, x.end_col_offset) == tuple(pos) for x in (n, n.iter)):
            c = n.iter
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range":
                return n
    raise Unsupported("symbolic range outside a plain for loop %s" % (pos,))


def _names(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            _names(x, out)
    else:
        raise Unsupported("target in a symbolic loop")


def _scan(body, stored, indexed):
    for s in body:
        tg = []
        if isinstance(s, ast.Assign):
            tg = s.targets
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            tg = [s.target]
        elif isinstance(s, ast.For):
            if s.orelse:
                raise Unsupported("for/else in a symbolic loop")
            _names(s.target, stored)
            _scan(s.body, stored, indexed)
        elif isinstance(s, ast.If):
            _scan(s.body, stored, indexed)
            _scan(s.orelse, stored, indexed)
        elif isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            pass
        else:
            raise Unsupported("%s in a symbolic loop" % type(s).__name__)
        for t in tg:
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                indexed.add(t.value.id)
            else:
                _names(t, stored)
        for n in ([s] if not isinstance(s, (ast.For, ast.If)) else [s.iter] if isinstance(s, ast.For) else [s.test]):
            for x in ast.walk(n):
                if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda)):
                    raise Unsupported("%s in a symbolic loop" % type(x).__name__)
                if isinstance(x, ast.Call):
                    f = x.func
                    if isinstance(f, ast.Name) and f.id in _CALLS:
                        continue
                    if isinstance(f, ast.Attribute) and f.attr in _METHODS:
                        continue
                    r = f
                    while isinstance(r, ast.Attribute):
                        r = r.value
                    if isinstance(r, ast.Name) and r.id in ("np", "tf", "math", "numpy", "tensorflow"):
                        continue
                    raise Unsupported("call in a symbolic loop")


def _setlocals(frame, m):
    loc = frame.f_locals
    for k, v in m.items():
        loc[k] = v
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def _number(v):
    """the Term of a scalar, or None"""
    if isinstance(v, STensor):
        return v.elem(()) if v.rank == 0 and v.dtype.kind in "if" else None
    if isinstance(v, (bool, str, type(None))):
        return None
    if isinstance(v, (int, float, Term)):
        t = const(v)
        return t if isinstance(t, Term) else None
    return None


def _like(old, t):
    if isinstance(old, STensor):
        return STensor(old.dtype, (), lambda i: t)
    t = canon(t)
    return int(t.args[0]) if t.op == "c" and t.args[0].denominator == 1 else t


class SRange:
    def __init__(self, lo, hi, sources):
        self.lo, self.hi, self.sources = lo, hi, sources

    def __iter__(self):
        return SIter(self)

    def __len__(self):
        raise Unsupported("length of a symbolic range")


def make_range(sources):
    def s_range(*a):
        v = []
        for x in a:
            if isinstance(x, STensor):
                x = x._scalar()
            if isinstance(x, Term):
                x = canon(x)
                if x.op == "c":
                    x = int(x.args[0])
            v.append(x)
        if not any(isinstance(x, Term) for x in v):
            return builtins.range(*v)
        if len(v) == 3 and not (isinstance(v[2], int) and v[2] == 1):
            raise Unsupported("symbolic range with a step")
        lo, hi = (ZERO, const(v[0])) if len(v) == 1 else (const(v[0]), const(v[1]))
        return SRange(lo, hi, sources)
    return s_range


class SIter:
    def __init__(self, r):
        self.r, self.phase = r, 0

    def __iter__(self):
        return self

    def __next__(self):
        f = sys._getframe(1)
        lo, hi = self.r.lo, self.r.hi
        if self.phase == 0:
            node = _for_node(f, self.r.sources)
            if not isinstance(node.target, ast.Name) or node.orelse:
                raise Unsupported("target of a symbolic loop")
            if not dim_known(lt(lo, hi)) and not PATHS[0].decide(lt(lo, hi)):
                self.phase = 3
        if self.phase == 3:
            raise StopIteration
        if self.phase == 0:
            stored, indexed = set(), set()
            _scan(node.body, stored, indexed)
            self.target = node.target.id
            if self.target in stored:
                raise Unsupported("assignment to a loop variable")
            self.stored, self.indexed = stored, indexed
            self.code, self.line = f.f_code, node.lineno
            loc = f.f_locals
            self.old = {k: loc[k] for k in stored if k in loc}
            for k in indexed:
                if k in loc and k not in stored and not isinstance(loc[k], SArr):
                    raise Unsupported("element assignment in a symbolic loop")
            self.var = fresh("loop$", True)
            PATHS[0].assume(le(lo, self.var))
            PATHS[0].assume(lt(self.var, hi))
            self.loop = Loop(self.var, lo, hi)
            LOOPS.append(self.loop)
            self.phase = 1
            return self.var
        if LOOPS[-1] is not self.loop:
            raise Unsupported("interleaved symbolic loops")
        if self.phase == 1:
            loc = f.f_locals
            self._arrays(loc)
            self.ind = {}
            new = {k: POISON for k in self.stored}
            for k, o in self.old.items():
                a, b = _number(o), _number(loc[k])
                if a is None or b is None:
                    continue
                d = canon(sub(b, a))
                self.ind[k] = (a, d)
                new[k] = _like(o, self._at(a, d, self.var))
            self.loop.writes = []
            _setlocals(f, new)
            self.phase = 2
            return self.var
        loc = f.f_locals
        self._arrays(loc)
        fin = {k: POISON for k in self.stored}
        for k, (a, d) in self.ind.items():
            b = _number(loc[k])
            if b is None or not is_zero(sub(sub(b, self._at(a, d, self.var)), d)):
                raise Unsupported("local %s in a symbolic loop" % k)
            fin[k] = _like(self.old[k], self._at(a, d, hi))
        fin[self.target] = _like(0, sub(hi, ONE))
        LOOPS.pop()
        for arr, axes, val, loops in self.loop.writes:
            loops = loops + [self.loop]
            if LOOPS and arr.depth < len(LOOPS):
                LOOPS[-1].writes.append((arr, axes, val, loops))
            else:
                arr.pending.append((axes, val, loops))
        for arr in {id(w[0]): w[0] for w in self.loop.writes}.values():
            if arr.pending:
                arr.commit()
        _setlocals(f, fin)
        self.phase = 3
        raise StopIteration

    def _arrays(self, loc):
        for k in self.indexed:
            if not isinstance(loc.get(k), SArr):
                raise Unsupported("element assignment in a symbolic loop")

    def _at(self, a, d, i):
        """the local at the start of iteration i"""
        n = canon(sub(i, self.r.lo))
        if not occurs(self.var, d):
            return canon(add(a, mul(d, n)))
        return canon(add(a, bsum(n, lambda k: subst(d, {self.var: add(self.r.lo, k)}))))


# ------------------------------------------------------------------ arrays
def is_sym(x):
    if isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    return False


def sym_dims(shape):
    """the dims when one of them is symbolic, else None"""
    shape = shape if isinstance(shape, (list, tuple, symtf.SShape)) else [shape]
    try:
        d = [dim(s) if isinstance(s, (STensor, Term)) else s for s in shape]
    except Unsupported:
        return None
    return d if any(isinstance(x, Term) for x in d) else None


def ten(x):
    if isinstance(x, SArr):
        return x.read()
    return convert(x)


def _kind(x):
    return x.dtype.kind


_DT = {"f": symtf.float64, "i": symtf.int64}


class SArr:
    __array_priority__ = 1000

    def __init__(self, t, base=None):
        self.t = t if t.dtype.kind not in "fi" or t.dtype is _DT[t.dtype.kind] else STensor(_DT[t.dtype.kind], t.dims, t.elem)
        self.depth = len(LOOPS)
        self.pending = []
        self.version = 0
        self.base = base            # (array, version, key or None): numpy would share the memory

    def read(self):
        if self.base is not None and self.base[0].version != self.base[1]:
            raise Unsupported("a view of an array that was written since")
        if self.pending or any(w[0] is self for l in LOOPS for w in l.writes):
            raise Unsupported("reading an array in the loop that writes it")
        return self.t

    _stensor = read
    shape = property(lambda s: tuple(s.t.dims))
    ndim = property(lambda s: len(s.t.dims))
    dtype = property(lambda s: s.t.dtype)
    T = property(lambda s: SArr(symtf.transpose(s.read())))

    def __len__(self):
        return len(self.t)

    def __iter__(self):
        return iter([SArr(x) for x in self.read()])

    def copy(self): return SArr(self.read())
    def reshape(self, *s): return SArr(symtf.reshape(self.read(), list(s[0]) if len(s) == 1 and isinstance(s[0], (list, tuple)) else list(s)), (self, self.version, None))
    def astype(self, *a): return self.copy()
    def ravel(self): return self.reshape(-1)
    flatten = ravel

    def __getitem__(self, key):
        return SArr(getitem(self.read(), _key(key)), (self, self.version, key))

    def __setitem__(self, key, val):
        if self.base is not None:
            raise Unsupported("writing through a view")
        v = ten(val)
        axes, region = [], []
        key = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (len(self.t.dims) - len(key) + 1) + key[i + 1:]
        key = key + (slice(None),) * (len(self.t.dims) - len(key))
        for k, d in zip(key, self.t.dims):
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    axes.append(("s", ZERO, const(d)))
                    region.append(d)
                    continue
                if k.step is not None:
                    raise Unsupported("strided write")
                a = ZERO if k.start is None else _idx(k.start, d)
                b = const(d) if k.stop is None else _idx(k.stop, d)
                n = canon(sub(b, a))
                if not dim_known(le(ZERO, n)):
                    raise Unsupported("write to a region of unknown size")
                axes.append(("s", a, n))
                region.append(dim(n))
            else:
                axes.append(("i", _idx(k, d)))
        v = symtf.broadcast_to(v, region)
        if self.depth < len(LOOPS):
            LOOPS[-1].writes.append((self, axes, v, []))
            return
        self.read()
        self.pending.append((axes, v, []))
        self.commit()

    def commit(self):
        solved = [self._solve(axes, val, loops) for axes, val, loops in self.pending]
        if len(solved) > 1:
            xs = tuple(fresh("x", True) for _ in self.t.dims)
            hyp = land(*[land(le(ZERO, x), lt(x, const(d))) for x, d in zip(xs, self.t.dims)])
            for a in range(len(solved)):
                for b in range(a):
                    if not dim_known(lnot(land(hyp, solved[a](xs)[0], solved[b](xs)[0]))):
                        raise Unsupported("two writes of a symbolic loop may meet")
        old = self.t
        memo = {}

        def f(idx):
            r = old
            out = None
            for s in reversed(solved):
                c, v = s(idx)
                if dim_known(c):
                    out = v if out is None else out
                    return v if out is v else out
                c = canonb(c)
                if c is FALSE:
                    continue
                out = ite(c, v, old.elem(idx) if out is None else out)
            return old.elem(idx) if out is None else out
        self.t = STensor(old.dtype, old.dims, f)
        self.pending = []
        self.version += 1

    def _solve(self, axes, val, loops):
        """for an index: the condition that it was written and the value written there"""
        used = set()
        plans = []
        for (a, d) in zip(axes, self.t.dims):
            addr = a[1]
            p = dict(poly(addr))
            digits = []
            for l in loops:
                c = [(m, k) for m, k in p.items() if any(at is l.var for at, _ in m)]
                if not c:
                    continue
                if any(sum(e for at, e in m if at is l.var) != 1 for m, _ in c) or l in used:
                    raise Unsupported("address in a symbolic loop")
                used.add(l)
                for m, _ in c:
                    p.pop(m)
                co = from_poly({tuple(x for x in m if x[0] is not l.var): k for m, k in c})
                if not loop_free(co):
                    raise Unsupported("address in a symbolic loop")
                digits.append((co, l))
            base = from_poly(p)
            size = a[2] if a[0] == "s" else ONE
            plans.append((a[0], base, size, digits, d))
        for l in loops:
            if l not in used:
                raise Unsupported("iterations of a symbolic loop write the same element")
        out = []
        for kind, base, size, digits, d in plans:
            for _, l in digits:
                base = add(base, mul(_, l.lo))
            # mixed radix: local offset first, then the loop whose stride is what has been covered so far
            unit, order, rest = canon(size), [], list(digits)
            if kind == "i" and rest:
                pass
            while rest:
                k = next((j for j, (co, _) in enumerate(rest) if is_zero(sub(co, unit))), None)
                if k is None:
                    raise Unsupported("addresses of a symbolic loop")
                co, l = rest.pop(k)
                n = canon(sub(l.hi, l.lo))
                order.append((l, co, n))
                unit = canon(mul(unit, n))
            if not (dim_known(le(ZERO, base)) and dim_known(le(add(base, unit), const(d)))):
                raise Unsupported("write outside an array")
            out.append((kind, canon(base), unit, canon(size), order))

        def at(idx):
            m, loc, conds = {}, [], []
            for x, (kind, base, unit, size, order) in zip(idx, out):
                y = canon(sub(x, base))
                conds += [le(ZERO, y), lt(y, unit)]
                if kind == "s" and not order:
                    loc.append(y)
                    continue
                q, r = (y, None) if size is ONE else divmod_t(y, size)
                if kind == "s":
                    loc.append(ZERO if r is None else r)
                for j, (l, co, n) in enumerate(order):
                    if j == len(order) - 1:
                        m[l.var] = canon(add(q, l.lo))
                    else:
                        q, r = divmod_t(q, n)
                        m[l.var] = canon(add(r, l.lo))
            v = val.elem(tuple(fix(loc, val)))
            return land(*conds), subst(v, m)

        def fix(loc, v):
            return [ZERO if isinstance(d, int) and d == 1 else i for i, d in zip(loc, v.dims)]
        return at

    # arithmetic
    def _bin(self, f, o, rev=False, real=False):
        a, b = self.read(), ten(o)
        if rev:
            a, b = b, a
        k = "f" if real or "f" in (_kind(a), _kind(b)) else "i"
        return SArr(symtf.elementwise(_DT[k], f, a, b))

    def _inp(self, f, o, real=False):
        if self.depth < len(LOOPS):
            raise Unsupported("updating an array in a symbolic loop")
        r = self._bin(f, o, real=real)
        if len(r.t.dims) != len(self.t.dims) or not all(dim_eq(a, b) for a, b in zip(r.t.dims, self.t.dims)):
            raise ValueError("non-broadcastable output operand")
        if self.base is not None:
            b, v, key = self.base
            if key is None or b.base is not None:
                raise Unsupported("writing through a view")
            self.read()
            b[key] = r
            self.base = (b, b.version, key)
        self.t = r.t
        self.version += 1
        return self

    def __add__(s, o): return s._bin(add, o)
    def __radd__(s, o): return s._bin(add, o, True)
    def __sub__(s, o): return s._bin(sub, o)
    def __rsub__(s, o): return s._bin(sub, o, True)
    def __mul__(s, o): return s._bin(mul, o)
    def __rmul__(s, o): return s._bin(mul, o, True)
    def __truediv__(s, o): return s._bin(div, o, real=True)
    def __rtruediv__(s, o): return s._bin(div, o, True, real=True)
    def __floordiv__(s, o): return s._bin(lambda a, b: divmod_t(a, b)[0], o)
    def __mod__(s, o): return s._bin(lambda a, b: divmod_t(a, b)[1], o)
    def __iadd__(s, o): return s._inp(add, o)
    def __isub__(s, o): return s._inp(sub, o)
    def __imul__(s, o): return s._inp(mul, o)
    def __itruediv__(s, o): return s._inp(div, o, real=True)
    def __neg__(s): return SArr(symtf.elementwise(s.t.dtype, lambda a: sub(ZERO, a), s.read()))
    def __pow__(s, o): return s._bin(power, o)
    def __array__(s, *a, **k): raise Unsupported("numpy operation on an array of symbolic size")


POISON = Poison()


def _idx(k, d):
    if isinstance(k, STensor):
        k = k._scalar()
    t = canon(const(k))
    if t.op == "c" and t.args[0] < 0:
        t = canon(add(const(d), t))
    return t


def _key(k):
    if isinstance(k, tuple):
        return tuple(_key(x) for x in k)
    if isinstance(k, (SArr, rnp.ndarray, list)):
        raise Unsupported("fancy indexing of an array of symbolic size")
    return k


def zeros(dims, v=ZERO):
    dims = tuple(dims)
    return SArr(STensor(symtf.float64, dims, lambda idx: v))


def arange(*a):
    a = [x._scalar() if isinstance(x, STensor) else x for x in a]
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) == 3 and const(a[2]) is not ONE:
        raise Unsupported("arange of symbolic size with a step")
    lo, hi = const(lo), const(hi)
    return SArr(STensor(symtf.int64, (dim(sub(hi, lo)),), lambda idx: canon(add(lo, idx[0]))))


def call(name, a, k):
    """numpy functions on arrays of symbolic size"""
    v = [ten(x) if isinstance(x, SArr) else [ten(y) for y in x] if isinstance(x, (list, tuple)) and is_sym(x) else x for x in a]
    fs = {"reshape": symtf.reshape, "concatenate": symtf.concat, "stack": symtf.stack, "tile": symtf.tile, "repeat": symtf.repeat,
          "transpose": symtf.transpose, "expand_dims": symtf.expand_dims, "squeeze": symtf.squeeze}
    if name == "concatenate":
        return SArr(symtf.concat(v[0], *(v[1:] or [k.get("axis", 0)])))
    if name in ("zeros_like", "ones_like"):
        return zeros(v[0].dims, ZERO if name == "zeros_like" else ONE)
    if name in ("array", "asarray", "copy"):
        return SArr(v[0]) if isinstance(v[0], STensor) else SArr(convert(v[0]))
    if name in fs:
        r = SArr(fs[name](*v, **k))
        if name in ("reshape", "transpose", "expand_dims", "squeeze") and isinstance(a[0], SArr):
            r.base = (a[0], a[0].version, None)
        return r
    raise Unsupported("numpy.%s of an array of symbolic size" % name)
