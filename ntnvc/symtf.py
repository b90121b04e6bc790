"""Symbolic stand-in for the parts of TensorFlow (eager) that OpenNTN uses.

A STensor is a dtype, a tuple of dimensions (python ints or integer Terms) and a function
from index Terms to the element (a Term, or a Cx pair for complex dtypes).  Executing the real
source of OpenNTN against this module yields, for arbitrary dimensions and contents, the exact
expression of every output element: the strongest postcondition of the executed path.
Shape or dtype misuse raises, as it does in TensorFlow.
"""
import math as _math
import types
import sys
import numpy as rnp
from .terms import *
from . import terms as TT


class InvalidArgumentError(Exception):
    pass


class DType:
    def __init__(self, name, kind, real=None):
        self.name, self.kind = name, kind
        self._real = real

    @property
    def real_dtype(self):
        return self._real or self

    @property
    def is_complex(self): return self.kind == "c"
    @property
    def is_floating(self): return self.kind == "f"
    @property
    def is_integer(self): return self.kind == "i"
    @property
    def base_dtype(self): return self
    @property
    def as_numpy_dtype(self): return {"f": float, "i": int, "b": bool, "c": complex}[self.kind]

    def __repr__(self): return "tf." + self.name


float32 = DType("float32", "f")
float64 = DType("float64", "f")
int32 = DType("int32", "i")
int64 = DType("int64", "i")
bool_ = DType("bool", "b")
complex64 = DType("complex64", "c", float32)
complex128 = DType("complex128", "c", float64)


class Cx:
    """complex scalar: a sum of parts (re + j im) cis(phase), the phase None standing for 0.  Products of phase factors are kept as
    one factor of the summed phase, so that the order in which factors are collected does not matter"""
    __slots__ = ("parts", "_re", "_im")

    def __init__(self, re, im, parts=None):
        self.parts = parts
        if parts is None:
            self._re, self._im = const(re), const(im)
            self.parts = ((self._re, self._im, None),)
        else:
            self._re = self._im = None

    @staticmethod
    def of(parts):
        d = {}
        for a, b, p in parts:
            if a is ZERO and b is ZERO:
                continue
            if p in d:
                a, b = add(d[p][0], a), add(d[p][1], b)
            d[p] = (a, b)
        if not d:
            return Cx(ZERO, ZERO)
        if len(d) == 1 and None in d:
            return Cx(*d[None])
        r = Cx(None, None, tuple((a, b, p) for p, (a, b) in d.items()))
        if len(d) > 24:
            return Cx(r.re, r.im)
        return r

    @property
    def re(s):
        if s._re is None:
            s._re = add(*[a if p is None else sub(mul(a, cos(p)), mul(b, sin(p))) for a, b, p in s.parts])
        return s._re

    @property
    def im(s):
        if s._im is None:
            s._im = add(*[b if p is None else add(mul(a, sin(p)), mul(b, cos(p))) for a, b, p in s.parts])
        return s._im

    @property
    def plain(s): return len(s.parts) == 1 and s.parts[0][2] is None
    @property
    def real(s): return s.re
    @property
    def imag(s): return s.im

    def map(s, f):
        """f applied to the coefficients (f linear over the reals)"""
        return Cx.of([(f(a), f(b), p) for a, b, p in s.parts])

    def __add__(s, o):
        o = cx(o)
        if s.plain and o.plain:
            return Cx(add(s.re, o.re), add(s.im, o.im))
        return Cx.of(s.parts + o.parts)

    def __neg__(s): return s.map(lambda x: mul(const(-1), x))
    def __sub__(s, o):
        o = cx(o)
        if s.plain and o.plain:
            return Cx(sub(s.re, o.re), sub(s.im, o.im))
        return s + (-o)

    def __radd__(s, o): return cx(o) + s
    def __rsub__(s, o): return cx(o) - s
    def __rmul__(s, o): return cx(o) * s
    def conjugate(s): return Cx.of([(a, mul(const(-1), b), None if p is None else mul(const(-1), p)) for a, b, p in s.parts])

    def __mul__(s, o):
        o = cx(o)
        if s.plain and o.plain:
            return Cx(sub(mul(s.re, o.re), mul(s.im, o.im)), add(mul(s.re, o.im), mul(s.im, o.re)))
        out = []
        for a, b, p in s.parts:
            for c, d, q in o.parts:
                out.append((sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c)), q if p is None else p if q is None else add(p, q)))
        return Cx.of(out)

    def __truediv__(s, o):
        o = cx(o)
        if o.plain and o.im is ZERO:
            return s.map(lambda x: div(x, o.re))
        if len(o.parts) == 1:
            a, b, p = o.parts[0]
            if p is not None:
                return (s * Cx.of([(ONE, ZERO, mul(const(-1), p))])) / Cx(a, b)
        d = add(mul(o.re, o.re), mul(o.im, o.im))
        n = s * Cx(o.re, mul(const(-1), o.im))
        return n.map(lambda x: div(x, d))

    def __repr__(s): return "Cx(%r,%r)" % (s.re, s.im)


def cis(a):
    """exp(j a)"""
    a = const(a)
    return Cx.of([(ONE, ZERO, a)]) if a is not ZERO else Cx(ONE, ZERO)


def polar(re, im):
    """re + j im, recognising R cos(p) + j R sin(p) as R cis(p)"""
    fr = re.args if re.op == "mul" else (re,)
    fi = im.args if im.op == "mul" else (im,)
    for t in fr:
        if t.op != "cos":
            continue
        for u in fi:
            if u.op == "sin" and u.args[0] is t.args[0]:
                a = mul(*[x for x in fr if x is not t])
                b = mul(*[x for x in fi if x is not u])
                if a is b:
                    return Cx.of([(a, ZERO, t.args[0])])
                if mul(const(-1), a) is b:
                    return Cx.of([(a, ZERO, mul(const(-1), t.args[0]))])
    return Cx(re, im)


def cx(x):
    if isinstance(x, Cx):
        return x
    if isinstance(x, complex):
        return Cx(x.real, x.imag)
    return Cx(x, ZERO)


def _map2(f, a, b):
    """apply a scalar operation to elements that may be Cx"""
    return f(a, b)


# ------------------------------------------------------------------ dims
def dim(d):
    if isinstance(d, STensor):
        d = d.elem(())
    if isinstance(d, Term):
        if d.op == "c":
            return int(d.args[0])
        c = canon(d)
        if c.op == "c":
            return int(c.args[0])
        return c
    if d is None:
        raise ValueError("unknown dimension")
    if isinstance(d, float):
        raise TypeError("float dimension")
    return int(d)


def dterm(d):
    return const(d)


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    d = canon(sub(const(a), const(b)))
    if d.op == "c":
        return d.args[0] == 0
    # dimensions equal on this path?
    if PATHS[0] is not None and PATHS[0].known(eq(const(a), const(b))):
        return True
    return False


def dim_known(cond):
    c = canonb(cond)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return PATHS[0] is not None and PATHS[0].known(c)


class SShape:
    def __init__(self, dims):
        self.dims = tuple(dims)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SShape(self.dims[i])
        return self.dims[int(i)]

    def __len__(self): return len(self.dims)
    def __iter__(self): return iter(self.dims)
    @property
    def rank(self): return len(self.dims)
    @property
    def ndims(self): return len(self.dims)
    def as_list(self): return list(self.dims)

    def __add__(self, o): return SShape(self.dims + tuple(o))
    def __radd__(self, o): return SShape(tuple(o) + self.dims)

    def __eq__(self, o):
        o = tuple(o)
        return len(o) == len(self.dims) and all(dim_eq(dim(a), dim(b)) for a, b in zip(self.dims, o))

    def __ne__(self, o): return not self == o
    def __repr__(self): return repr(self.dims)

    def num_elements(self):
        r = 1
        for d in self.dims:
            r = r * d
        return r


TensorShape = SShape


def as_shape(s):
    if isinstance(s, SShape):
        return tuple(s.dims)
    if isinstance(s, STensor):
        if s.rank == 0:
            return (dim(s),)
        n = s.dims[0]
        if not isinstance(n, int):
            raise Unsupported("shape of unknown rank")
        return tuple(dim(s.elem((const(i),))) for i in range(n))
    if isinstance(s, (int, Term)):
        return (dim(s),)
    if isinstance(s, rnp.ndarray):
        return tuple(int(x) for x in s)
    return tuple(dim(x) for x in s)


# ------------------------------------------------------------------ tensor
class STensor:
    __slots__ = ("dtype", "dims", "fn", "memo", "tag", "__weakref__")
    __array_priority__ = 100

    def __init__(self, dtype, dims, fn, tag=None):
        self.dtype = dtype
        self.dims = tuple(dims)
        self.fn = fn
        self.memo = {}
        self.tag = tag

    @property
    def rank(self): return len(self.dims)
    @property
    def shape(self): return SShape(self.dims)
    @property
    def ndim(self): return len(self.dims)
    def get_shape(self): return SShape(self.dims)
    @property
    def name(self): return "t"

    def elem(self, idx):
        k = tuple(i.id for i in idx)
        r = self.memo.get(k)
        if r is None:
            r = self.fn(idx)
            if self.dtype.kind == "c":
                r = cx(r)
            elif self.dtype.kind == "b":
                r = boolt(r)
            else:
                r = const(r)
                if r.kind == "B":
                    r = num(r)
            self.memo[k] = r
        return r

    def numpy(self):
        if self.rank == 0:
            return self.elem(())
        return self.__array__()

    def __array__(self, dtype=None, copy=None):
        if not all(isinstance(d, int) for d in self.dims):
            raise Unsupported("numpy array of symbolic shape")
        out = rnp.empty(self.dims, dtype=object)
        for i in rnp.ndindex(*self.dims):
            out[i] = self.elem(tuple(const(k) for k in i))
        return out

    def __getitem__(self, key): return getitem(self, key)

    def __iter__(self):
        if self.rank == 0:
            raise TypeError("Cannot iterate over a scalar tensor.")
        n = self.dims[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over a symbolic dimension")
        return iter([self[i] for i in range(n)])

    def __len__(self):
        n = self.dims[0]
        if not isinstance(n, int):
            raise Unsupported("len of a symbolic dimension")
        return n

    def _scalar(self):
        if self.rank and not all(dim_eq(d, 1) for d in self.dims):
            if any(isinstance(d, int) and d != 1 for d in self.dims) or True:
                raise ValueError("The truth value of an array with more than one element is ambiguous")
        return self.elem(tuple(ZERO for _ in self.dims))

    def __bool__(self): return bool(self._scalar())
    def __index__(self):
        if self.dtype.kind != "i":
            raise TypeError("only integer tensors can be converted to an index")
        return self._scalar().__index__()

    def __int__(self): return int(self._scalar())
    def __float__(self): return float(self._scalar())
    def __round__(self, n=None): return rnd(self._scalar())
    def __format__(self, s): return str(self._scalar())
    def __str__(self): return "STensor(%s,%s)" % (self.dtype.name, list(self.dims))
    __repr__ = __str__
    __hash__ = object.__hash__

    def __add__(s, o): return _arith("add", s, o)
    def __radd__(s, o): return _arith("add", o, s)
    def __sub__(s, o): return _arith("sub", s, o)
    def __rsub__(s, o): return _arith("sub", o, s)
    def __mul__(s, o): return _arith("mul", s, o)
    def __rmul__(s, o): return _arith("mul", o, s)
    def __truediv__(s, o): return _arith("div", s, o)
    def __rtruediv__(s, o): return _arith("div", o, s)
    def __floordiv__(s, o): return _arith("idiv", s, o)
    def __rfloordiv__(s, o): return _arith("idiv", o, s)
    def __mod__(s, o): return _arith("mod", s, o)
    def __rmod__(s, o): return _arith("mod", o, s)
    def __pow__(s, o): return _arith("pow", s, o)
    def __rpow__(s, o): return _arith("pow", o, s)
    def __neg__(s): return _neg(s)
    def __pos__(s): return s
    def __abs__(s): return abs_(s)
    def __lt__(s, o): return _cmp("lt", s, o)
    def __le__(s, o): return _cmp("le", s, o)
    def __gt__(s, o): return _cmp("gt", s, o)
    def __ge__(s, o): return _cmp("ge", s, o)
    def __eq__(s, o): return _cmp("eq", s, o)
    def __ne__(s, o): return _cmp("ne", s, o)
    def __and__(s, o): return logical_and(s, o)
    def __or__(s, o): return logical_or(s, o)
    def __invert__(s): return logical_not(s)
    def __matmul__(s, o): return matmul(s, o)
    def __array_ufunc__(self, ufunc, method, *ins, **kw):
        f = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div",
             "power": "pow"}.get(ufunc.__name__)
        if f and method == "__call__" and len(ins) == 2 and kw.get("out") is None:
            return _arith(f, ins[0], ins[1])
        # in-place on a numpy object array: convert the tensor to an object array
        ins = [x.__array__() if isinstance(x, STensor) else x for x in ins]
        out = kw.get("out")
        return getattr(ufunc, method)(*ins, **kw)


def _isweak(x):
    return not isinstance(x, STensor)


def pyconst(v):
    """python scalar -> element"""
    if isinstance(v, Cx):
        return v
    if isinstance(v, (complex, rnp.complexfloating)):
        return Cx(float(v.real), float(v.imag))
    if isinstance(v, (bool, rnp.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, Term):
        return v
    return const(v)


def _pykind(v):
    if isinstance(v, (bool, rnp.bool_)):
        return "b"
    if isinstance(v, (complex, rnp.complexfloating, Cx)):
        return "c"
    if isinstance(v, (int, rnp.integer)):
        return "i"
    if isinstance(v, Term):
        return "b" if v.kind == "B" else ("i" if isint(v) and v.op != "c" else "t")
    return "f"


def _nest(v):
    """nested python structure -> (dims, getter(idx ints)->leaf)"""
    if isinstance(v, STensor):
        return ("T", v)
    if isinstance(v, rnp.ndarray):
        return ("A", v)
    if isinstance(v, SShape):
        v = list(v.dims)
    if isinstance(v, (list, tuple)):
        return ("L", [_nest(x) for x in v])
    return ("S", v)


def _nest_kind(n):
    k, v = n
    if k == "T":
        return {"f": "F" + v.dtype.name, "c": "C" + v.dtype.name, "i": "I" + v.dtype.name, "b": "b"}[v.dtype.kind]
    if k == "A":
        if v.dtype == object:
            return "t"
        return {"f": "f", "i": "i", "u": "i", "b": "b", "c": "c"}[v.dtype.kind]
    if k == "L":
        ks = [_nest_kind(x) for x in v]
        if not ks:
            return "f"
        for pref in ("C", "F", "I"):
            for x in ks:
                if x[0] == pref:
                    return x
        for pref in "cftib":
            if pref in ks:
                return pref
        return ks[0]
    return _pykind(v)


def _nest_dims(n):
    k, v = n
    if k == "T":
        return v.dims
    if k == "A":
        return tuple(v.shape)
    if k == "L":
        if not v:
            return (0,)
        ds = [_nest_dims(x) for x in v]
        for d in ds[1:]:
            if len(d) != len(ds[0]) or not all(dim_eq(a, b) for a, b in zip(d, ds[0])):
                raise ValueError("ragged nested value")
        return (len(v),) + tuple(ds[0])
    return ()


def _nest_get(n, idx):
    k, v = n
    if k == "T":
        return v.elem(idx)
    if k == "A":
        if v.ndim == 0:
            return pyconst(v.item() if v.dtype != object else v[()])
        flat = _nest(list(v))
        return _nest_get(flat, idx)
    if k == "L":
        i = idx[0]
        if i.op == "c":
            return _nest_get(v[int(i.args[0])], idx[1:])
        r = _nest_get(v[-1], idx[1:])
        for j in range(len(v) - 2, -1, -1):
            r = sel(eq(i, const(j)), _nest_get(v[j], idx[1:]), r)
        return r
    return pyconst(v)


def sel(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        if a.plain and b.plain or len(a.parts) + len(b.parts) > 12:
            return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
        pa, pb = {p: (x, y) for x, y, p in a.parts}, {p: (x, y) for x, y, p in b.parts}
        out = []
        for p in list(pa) + [q for q in pb if q not in pa]:
            x, y = pa.get(p, (ZERO, ZERO)), pb.get(p, (ZERO, ZERO))
            out.append((ite(c, x[0], y[0]), ite(c, x[1], y[1]), p))
        return Cx.of(out)
    return ite(c, const(a), const(b))


def _default_dtype(kind):
    if kind[0] in "FCI" and len(kind) > 1:
        return NAMES[kind[1:]]
    return {"b": bool_, "c": complex128, "i": int32, "f": float32, "t": float32}[kind]


NAMES = {d.name: d for d in (float32, float64, int32, int64, bool_, complex64, complex128)}


def _check_pyval(kind, dtype):
    k = kind[0]
    if len(kind) > 1 and NAMES[kind[1:]] is not dtype:
        raise TypeError("Cannot convert a tensor of dtype %s to dtype %s" % (kind[1:], dtype.name))
    if dtype.kind == "i" and k in "fc":
        raise TypeError("Cannot convert a floating point value to %s" % dtype.name)
    if dtype.kind == "f" and k == "c":
        raise TypeError("Cannot convert a complex value to %s" % dtype.name)
    if dtype.kind == "b" and k in "fci":
        raise TypeError("Cannot convert a number to bool")
    if dtype.kind != "b" and k == "b":
        raise TypeError("Cannot convert bool to %s" % dtype.name)


def as_dtype(d):
    if d is None or isinstance(d, DType):
        return d
    if isinstance(d, str):
        return NAMES[d]
    n = getattr(d, "__name__", None) or getattr(d, "name", str(d))
    return NAMES[n]


def convert(v, dtype=None, hint=None):
    dtype = as_dtype(dtype)
    if isinstance(v, STensor):
        if dtype is not None and v.dtype is not dtype:
            raise InvalidArgumentError("cannot compute as expected a %s tensor but is a %s tensor"
                                       % (dtype.name, v.dtype.name))
        return v
    if hasattr(v, "_stensor"):
        t = v._stensor()
        if dtype is None:
            dtype = hint if hint is not None and t.dtype.kind == hint.kind else t.dtype
        if t.dtype.kind == "f" and dtype.kind == "i":
            raise TypeError("Cannot convert float array to int")
        return t if t.dtype is dtype else STensor(dtype, t.dims, t.elem)
    n = _nest(v)
    kind = _nest_kind(n)
    if dtype is None:
        dtype = _default_dtype(kind)
        if hint is not None and not (len(kind) > 1):
            dtype = hint
    if n[0] == "A" and dtype.kind == "i" and kind == "f":
        raise TypeError("Cannot convert float array to int")
    _check_pyval(kind, dtype)
    dims = _nest_dims(n)
    if n[0] == "S":
        e = pyconst(v)
        return STensor(dtype, (), lambda idx: e)
    return STensor(dtype, dims, lambda idx: _nest_get(n, idx))


def constant(value, dtype=None, shape=None, name=None):
    dtype = as_dtype(dtype)
    if isinstance(value, rnp.ndarray) and dtype is not None and value.dtype != object:
        if value.dtype.kind == "f" and dtype.kind == "i":
            if value.size == 0:
                return STensor(dtype, value.shape, lambda idx: ZERO)
            raise TypeError("float array to int tensor")
    t = convert(value, dtype)
    if shape is not None:
        sh = as_shape(shape)
        if t.rank == 0:
            return STensor(t.dtype, sh, lambda idx: t.elem(()))
        return reshape(t, sh)
    return t


convert_to_tensor = constant
Tensor = STensor
Variable = constant


def pair(a, b):
    """binary-op conversion with TF's dtype rules"""
    if _isweak(a) and _isweak(b):
        a, b = convert(a), convert(b)
        if a.dtype is not b.dtype:
            ks = {a.dtype.kind, b.dtype.kind}
            d = a.dtype if a.dtype.kind in "fc" else b.dtype
            a, b = (STensor(d, x.dims, x.fn) if x.dtype is not d else x for x in (a, b))
        return a, b
    if _isweak(a):
        return _weak(a, b.dtype), b
    if _isweak(b):
        return a, _weak(b, a.dtype)
    if a.dtype is not b.dtype:
        raise InvalidArgumentError("cannot compute: expected %s but got %s" % (a.dtype.name, b.dtype.name))
    return a, b


def _weak(v, dtype):
    n = _nest(v)
    k = _nest_kind(n)
    if len(k) > 1 and NAMES[k[1:]] is not dtype:
        raise InvalidArgumentError("list of %s with %s" % (k, dtype.name))
    if dtype.kind == "i" and k == "t":
        pass
    else:
        _check_pyval(k, dtype)
    if n[0] == "S":
        e = pyconst(v)
        return STensor(dtype, (), lambda idx: e)
    return STensor(dtype, _nest_dims(n), lambda idx: _nest_get(n, idx))


def bshape(*shapes):
    r = max(len(s) for s in shapes)
    out = []
    for k in range(r):
        cur = 1
        for s in shapes:
            j = k - (r - len(s))
            if j < 0:
                continue
            d = s[j]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif not dim_eq(cur, d):
                raise InvalidArgumentError("Incompatible shapes: %s" % (shapes,))
        out.append(cur)
    return tuple(out)


def bidx(idx, dims):
    """index of an operand of shape dims inside a broadcast result index"""
    off = len(idx) - len(dims)
    return tuple(ZERO if (isinstance(d, int) and d == 1) else idx[off + j] for j, d in enumerate(dims))


def elementwise(dtype, f, *ts):
    dims = bshape(*[t.dims for t in ts])
    if len(ts) == 1:
        a = ts[0]
        return STensor(dtype, dims, lambda idx: f(a.elem(idx)))
    return STensor(dtype, dims, lambda idx: f(*[t.elem(bidx(idx, t.dims)) for t in ts]))


def cpow(a, b):
    """complex power with a real non-negative exponent part (principal branch)"""
    if b.im is not ZERO:
        raise Unsupported("complex exponent")
    k = b.re
    if k.op == "c" and k.args[0].denominator == 1 and 0 <= k.args[0] <= 8:
        r = Cx(ONE, ZERO)
        for _ in range(int(k.args[0])):
            r = r * a
        return r
    mod_ = power(sqrt(add(mul(a.re, a.re), mul(a.im, a.im))), k)
    ang = mul(k, atan2(a.im, a.re))
    return cis(ang) * Cx(mod_, ZERO)


def _arith(op, a, b):
    a, b = pair(a, b)
    k = a.dtype.kind
    if k == "b":
        raise TypeError("arithmetic on bool tensors")
    if k == "c":
        f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
             "div": lambda x, y: x / y, "pow": cpow}[op]
    else:
        f = {"add": add, "sub": sub, "mul": mul, "div": div, "idiv": idiv, "mod": mod, "pow": power}[op]
    dt = a.dtype
    if op == "div" and k == "i":
        dt = float64
    return elementwise(dt, f, a, b)


def _neg(a):
    a = convert(a)
    if a.dtype.kind == "c":
        return elementwise(a.dtype, lambda x: -x, a)
    return elementwise(a.dtype, lambda x: mul(const(-1), x), a)


def _cmp(op, a, b):
    if op in ("eq", "ne") and (b is None or a is None):
        return op == "ne"
    if isinstance(b, str) or isinstance(a, str):
        return op == "ne"
    a, b = pair(a, b)
    if a.dtype.kind == "c":
        f = lambda x, y: land(eq(x.re, y.re), eq(x.im, y.im))
        g = f if op == "eq" else (lambda x, y: lnot(f(x, y)))
        return elementwise(bool_, g, a, b)
    f = {"lt": lt, "le": le, "gt": lambda x, y: lt(y, x), "ge": lambda x, y: le(y, x),
         "eq": eq, "ne": lambda x, y: lnot(eq(x, y))}[op]
    return elementwise(bool_, f, a, b)


def _unary(f, cf=None, outreal=False):
    def g(x, name=None):
        x = convert(x)
        if x.dtype.kind == "c":
            if cf is None:
                raise Unsupported("complex unary")
            return elementwise(x.dtype.real_dtype if outreal else x.dtype, cf, x)
        if x.dtype.kind != "f":
            if x.dtype.kind == "i" and f in (absv, _sq):
                return elementwise(x.dtype, f, x)
            raise InvalidArgumentError("Value for attr 'T' of %s is not in the list of allowed values" % x.dtype.name)
        return elementwise(x.dtype, f, x)
    return g


def _sq(x): return mul(x, x)


def _csqrt(x):
    if x.im is ZERO or canon(x.im) is ZERO:
        return Cx(sqrt(x.re), ZERO)
    raise Unsupported("complex sqrt")


exp_ = _unary(exp, lambda x: cis(x.im) * Cx(exp(x.re), ZERO))
log_ = _unary(ln)
sin_ = _unary(sin)
cos_ = _unary(cos)
tan_ = _unary(tan)
acos_ = _unary(acos)
asin_ = _unary(lambda x: sub(mul(const(Fraction(1, 2)), PI_T), acos(x)))
atan_ = _unary(atan)
sqrt_ = _unary(sqrt, _csqrt)
square_ = _unary(_sq, lambda x: x * x)
ceil_ = _unary(ceil)
floor_ = _unary(floor)
j1_ = _unary(bessel_j1)
abs_ = _unary(absv, lambda x: sqrt(add(mul(x.re, x.re), mul(x.im, x.im))), outreal=True)
conj_ = _unary(lambda x: x, lambda x: x.conjugate())
rsqrt_ = _unary(lambda x: div(ONE, sqrt(x)))


def real_(x, name=None):
    x = convert(x)
    if x.dtype.kind != "c":
        return x
    return elementwise(x.dtype.real_dtype, lambda v: v.re, x)


def imag_(x, name=None):
    x = convert(x)
    return elementwise(x.dtype.real_dtype, lambda v: v.im, x)


def angle_(x, name=None):
    x = convert(x)
    if x.dtype.kind != "c":
        return elementwise(x.dtype, lambda v: ite(lt(v, ZERO), PI_T, ZERO), x)
    return elementwise(x.dtype.real_dtype, lambda v: atan2(v.im, v.re), x)


def complex_(re, im, name=None):
    re, im = pair(re, im)
    if re.dtype.kind != "f":
        raise TypeError("complex parts must be floating")
    dt = complex64 if re.dtype is float32 else complex128
    return elementwise(dt, polar, re, im)


def atan2_(y, x, name=None):
    y, x = pair(y, x)
    return elementwise(y.dtype, atan2, y, x)


def maximum(x, y, name=None):
    x, y = pair(x, y)
    return elementwise(x.dtype, maxv, x, y)


def minimum(x, y, name=None):
    x, y = pair(x, y)
    return elementwise(x.dtype, minv, x, y)


def clip_by_value(t, lo, hi, name=None):
    t = convert(t)
    return maximum(minimum(t, hi), lo)


def pow_(x, y, name=None):
    return _arith("pow", convert(x) if _isweak(x) and _isweak(y) else x, y)


def divide_no_nan(x, y, name=None):
    x, y = pair(x, y)
    if x.dtype.kind == "c":
        return elementwise(x.dtype, lambda a, b: sel(land(eq(b.re, ZERO), eq(b.im, ZERO)), Cx(ZERO, ZERO), a / b), x, y)
    return elementwise(x.dtype, lambda a, b: ite(eq(b, ZERO), ZERO, div(a, b)), x, y)


def cast(x, dtype, name=None):
    dtype = as_dtype(dtype)
    if _isweak(x):
        n = _nest(x)
        x = STensor(_default_dtype(_nest_kind(n)), _nest_dims(n), lambda idx: _nest_get(n, idx))
    if x.dtype is dtype:
        return x
    k, d = x.dtype.kind, dtype.kind
    if d == "b":
        if k == "c":
            raise Unsupported("complex to bool")
        return elementwise(dtype, lambda v: ne0(v) if v.kind != "B" else v, x)
    if d == "c":
        if k == "c":
            return elementwise(dtype, lambda v: v, x)
        return elementwise(dtype, lambda v: Cx(num(v), ZERO), x)
    if k == "c":
        return elementwise(dtype, lambda v: v.re, x)
    if d == "i" and k == "f":
        return elementwise(dtype, lambda v: v if isint(v) else ite(le(ZERO, v), floor(v), -floor(-v)), x)
    return elementwise(dtype, num, x)


def shape(x, out_type=None, name=None):
    x = convert(x)
    ds = [const(d) for d in x.dims]
    t = as_dtype(out_type or int32)
    return convert(ds, t) if ds else STensor(t, (0,), lambda idx: ZERO)


def rank(x, name=None):
    r = len(convert(x).dims)
    return STensor(int32, (), lambda idx: const(r))


def size(x, out_type=None, name=None):
    r = ONE
    for d in convert(x).dims:
        r = mul(r, const(d))
    return STensor(as_dtype(out_type or int32), (), lambda idx: r)


def zeros(shape, dtype=float32, name=None):
    dtype = as_dtype(dtype)
    sh = as_shape(shape)
    z = {"b": FALSE, "c": Cx(ZERO, ZERO)}.get(dtype.kind, ZERO)
    return STensor(dtype, sh, lambda idx: z)


def ones(shape, dtype=float32, name=None):
    dtype = as_dtype(dtype)
    sh = as_shape(shape)
    z = {"b": TRUE, "c": Cx(ONE, ZERO)}.get(dtype.kind, ONE)
    return STensor(dtype, sh, lambda idx: z)


def zeros_like(x, dtype=None, name=None):
    x = convert(x)
    return zeros(SShape(x.dims), dtype or x.dtype)


def ones_like(x, dtype=None, name=None):
    x = convert(x)
    return ones(SShape(x.dims), dtype or x.dtype)


def fill(dims, value, name=None):
    v = convert(value)
    if v.rank != 0:
        raise InvalidArgumentError("fill value must be a scalar")
    return STensor(v.dtype, as_shape(dims), lambda idx: v.elem(()))


def eye(num_rows, num_columns=None, batch_shape=None, dtype=float32, name=None):
    n = dim(num_rows)
    m = dim(num_columns) if num_columns is not None else n
    bs = as_shape(batch_shape) if batch_shape is not None else ()
    dtype = as_dtype(dtype)
    return STensor(dtype, tuple(bs) + (n, m), lambda idx: ite(eq(idx[-2], idx[-1]), ONE, ZERO))


def _axis(a, r):
    if isinstance(a, STensor):
        a = a.__index__()
    a = int(a)
    if not -r <= a < r:
        raise InvalidArgumentError("axis %d out of range for rank %d" % (a, r))
    return a % r


def expand_dims(x, axis, name=None):
    x = convert(x)
    if isinstance(axis, (list, tuple)):
        (axis,) = axis
    if isinstance(axis, STensor) and axis.rank == 1:
        axis = axis[0]
    a = _axis(axis, x.rank + 1)
    return STensor(x.dtype, x.dims[:a] + (1,) + x.dims[a:], lambda idx: x.elem(idx[:a] + idx[a + 1:]))


def squeeze(x, axis=None, name=None):
    x = convert(x)
    if axis is None:
        axs = [k for k, d in enumerate(x.dims) if isinstance(d, int) and d == 1]
    else:
        if not isinstance(axis, (list, tuple)):
            axis = [axis]
        axs = [_axis(a, x.rank) for a in axis]
    for a in axs:
        if not dim_eq(x.dims[a], 1):
            raise InvalidArgumentError("Can not squeeze dim[%d]" % a)
    keep = [k for k in range(x.rank) if k not in axs]

    def f(idx):
        full = [ZERO] * x.rank
        for j, k in enumerate(keep):
            full[k] = idx[j]
        return x.elem(tuple(full))
    return STensor(x.dtype, tuple(x.dims[k] for k in keep), f)


def _unify_list(vals):
    dt = None
    for v in vals:
        if isinstance(v, STensor):
            dt = v.dtype
            break
    if dt is None:
        for v in vals:
            k = _nest_kind(_nest(v))
            if len(k) > 1:
                dt = NAMES[k[1:]]
                break
    if dt is None:
        ks = [_nest_kind(_nest(v)) for v in vals]
        dt = _default_dtype("f" if any(k in "ft" for k in ks) else ks[0])
        return [convert(v, None, hint=dt) for v in vals]
    return [(v if isinstance(v, STensor) else _weak(v, dt)) for v in vals]


def stack(values, axis=0, name=None):
    if isinstance(values, STensor):
        values = list(values)
    vs = _unify_list(list(values))
    for v in vs:
        if v.dtype is not vs[0].dtype:
            raise InvalidArgumentError("stack of different dtypes")
        if v.rank != vs[0].rank or not all(dim_eq(a, b) for a, b in zip(v.dims, vs[0].dims)):
            raise InvalidArgumentError("Shapes of all inputs must match: %s vs %s" % (v.dims, vs[0].dims))
    a = _axis(axis, vs[0].rank + 1)
    d = vs[0].dims

    def f(idx):
        i = idx[a]
        rest = idx[:a] + idx[a + 1:]
        return pick(i, [lambda v=v: v.elem(rest) for v in vs])
    return STensor(vs[0].dtype, d[:a] + (len(vs),) + d[a:], f)


def pick(i, thunks):
    if i.op == "c":
        k = int(i.args[0])
        return thunks[k]()
    r = thunks[-1]()
    for j in range(len(thunks) - 2, -1, -1):
        r = sel(eq(i, const(j)), thunks[j](), r)
    return r


def concat(values, axis, name=None):
    if isinstance(values, STensor):
        values = list(values)
    vs = _unify_list(list(values))
    for v in vs:
        if v.dtype is not vs[0].dtype:
            raise InvalidArgumentError("concat of different dtypes")
        if v.rank != vs[0].rank:
            raise InvalidArgumentError("Ranks of all input tensors should match")
    a = _axis(axis, vs[0].rank)
    d = vs[0].dims
    for v in vs[1:]:
        for k in range(len(d)):
            if k != a and not dim_eq(v.dims[k], d[k]):
                raise InvalidArgumentError("Dimensions of inputs should match: %s vs %s" % (d, v.dims))
    offs = [ZERO]
    for v in vs:
        offs.append(const(dim(add(offs[-1], const(v.dims[a])))))

    def f(idx):
        i = idx[a]
        cand = []
        for v, o, o2 in zip(vs, offs, offs[1:]):
            if canon(sub(o2, o)) is ZERO:
                continue
            cand.append((v, o, o2))
        r = None
        for v, o, o2 in reversed(cand):
            j = i if o is ZERO else canon(sub(i, o))
            e = lambda v=v, j=j: v.elem(idx[:a] + (j,) + idx[a + 1:])
            if r is None:
                r = e
            else:
                c = canonb(lt(i, o2))
                if c is TRUE:
                    r = e
                elif c is FALSE:
                    pass
                elif dim_known(c):
                    r = e
                elif dim_known(lnot(c)):
                    pass
                else:
                    r = (lambda c=c, e=e, r=r: sel(c, e(), r()))
        return r()
    return STensor(vs[0].dtype, d[:a] + (dim(offs[-1]),) + d[a + 1:], f)


def transpose(x, perm=None, conjugate=False, name=None):
    x = convert(x)
    if perm is None:
        perm = list(range(x.rank))[::-1]
    p = [int(k) for k in as_shape(perm)]
    if sorted(k % max(x.rank, 1) for k in p) != list(range(x.rank)) or len(p) != x.rank:
        raise InvalidArgumentError("transpose expects a permutation of rank %d" % x.rank)
    p = [k % x.rank for k in p]

    def f(idx):
        src = [None] * x.rank
        for j, k in enumerate(p):
            src[k] = idx[j]
        return x.elem(tuple(src))
    return STensor(x.dtype, tuple(x.dims[k] for k in p), f)


def matrix_transpose(x, name=None, conjugate=False):
    x = convert(x)
    r = x.rank
    return transpose(x, list(range(r - 2)) + [r - 1, r - 2])


def _prod(ds):
    r = ONE
    for d in ds:
        r = mul(r, const(d))
    return canon(r)


def reshape(x, shape, name=None):
    x = convert(x)
    raw = shape
    if isinstance(raw, SShape):
        raw = raw.dims
    if isinstance(raw, STensor) or isinstance(raw, (int, Term)):
        new = list(as_shape(raw))
    else:
        new = [dim(d) for d in raw]
    old = list(x.dims)
    if -1 in [d for d in new if isinstance(d, int)]:
        k = new.index(-1)
        tot = list(old)
        rest = new[:k] + new[k + 1:]
        # cancel equal dims
        rem = []
        for d in tot:
            for e in rest:
                if dim_eq(d, e):
                    rest.remove(e)
                    break
            else:
                rem.append(d)
        q = div(_prod(rem), _prod(rest))
        q = canon(q)
        if q.op == "c" and q.args[0].denominator != 1:
            raise InvalidArgumentError("cannot reshape %s to %s" % (old, new))
        new[k] = dim(q)
    if canon(sub(_prod(old), _prod(new))) is not ZERO:
        raise InvalidArgumentError("cannot reshape a tensor with shape %s to shape %s" % (old, new))
    # group factors
    groups = []
    i = j = 0
    while i < len(old) or j < len(new):
        gi, gj = i, j
        # absorb ones cheaply
        if i < len(old) and j < len(new) and dim_eq(old[i], new[j]):
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        if i < len(old) and isinstance(old[i], int) and old[i] == 1:
            groups.append(([i], []))
            i += 1
            continue
        if j < len(new) and isinstance(new[j], int) and new[j] == 1:
            groups.append(([], [j]))
            j += 1
            continue
        a, b = ([i], [j])
        if i >= len(old) or j >= len(new):
            raise InvalidArgumentError("reshape %s to %s" % (old, new))
        i += 1
        j += 1
        while True:
            pa, pb = _prod([old[k] for k in a]), _prod([new[k] for k in b])
            if canon(sub(pa, pb)) is ZERO:
                break
            if pa.op == "c" and pb.op == "c":
                grow_a = pa.args[0] < pb.args[0]
            elif i >= len(old):
                grow_a = False
            elif j >= len(new):
                grow_a = True
            else:
                # grow the side that does not divide the other
                q = canon(div(pb, pa))
                neg = any(e < 0 for m in poly(q) for _, e in m) or any(c.denominator != 1 for c in poly(q).values())
                grow_a = not neg
            if grow_a:
                if i >= len(old):
                    raise Unsupported("reshape %s to %s" % (old, new))
                a.append(i)
                i += 1
            else:
                if j >= len(new):
                    raise Unsupported("reshape %s to %s" % (old, new))
                b.append(j)
                j += 1
        groups.append((a, b))

    def f(idx):
        src = [ZERO] * len(old)
        for a, b in groups:
            if not a or not b:
                continue
            if len(a) == 1 and len(b) == 1:
                src[a[0]] = idx[b[0]]
                continue
            flat = ZERO
            for k in b:
                flat = add(mul(flat, const(new[k])), idx[k])
            flat = canon(flat) if flat.op != "c" else flat
            if len(a) == 1:
                src[a[0]] = flat
                continue
            for k in reversed(a[1:]):
                n = const(old[k])
                q, r = divmod_t(flat, n)
                src[k] = r
                flat = q
            src[a[0]] = flat
        return x.elem(tuple(src))
    return STensor(x.dtype, tuple(new), f)


def divmod_t(t, n):
    """(t // n, t % n) with symbolic splitting of t = n*q + r"""
    if t.op == "c" and n.op == "c":
        q, r = divmod(int(t.args[0]), int(n.args[0]))
        return const(q), const(r)
    p = poly(t)
    # move the terms divisible by n to the quotient
    q = {}
    r = {}
    pn = poly(n)
    if len(pn) == 1:
        (mn, cn), = pn.items()
        for m, c in p.items():
            d = dict(m)
            okm = all(d.get(a, 0) >= e for a, e in mn)
            if okm and (Fraction(c) / cn).denominator == 1:
                for a, e in mn:
                    d[a] -= e
                q[tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id))] = Fraction(c) / cn
            else:
                r[m] = c
    else:
        r = p
    rt = from_poly(r)
    if dim_known(land(le(ZERO, rt), lt(rt, n))):
        return from_poly(q), rt
    fl = floor(div(rt, n))
    return add(from_poly(q), fl), sub(rt, mul(n, fl))


def tile(x, multiples, name=None):
    x = convert(x)
    m = as_shape(multiples)
    if len(m) != x.rank:
        raise InvalidArgumentError("Expected multiples argument to be a vector of length %d" % x.rank)
    dims = tuple(dim(mul(const(a), const(b))) for a, b in zip(x.dims, m))

    def f(idx):
        src = []
        for i, d, k in zip(idx, x.dims, m):
            if isinstance(k, int) and k == 1:
                src.append(i)
            elif isinstance(d, int) and d == 1:
                src.append(ZERO)
            else:
                src.append(divmod_t(i, const(d))[1])
        return x.elem(tuple(src))
    return STensor(x.dtype, dims, f)


def repeat(x, repeats, axis=None, name=None):
    x = convert(x)
    if axis is None:
        x = reshape(x, [-1])
        axis = 0
    a = _axis(axis, x.rank)
    k = dim(repeats)
    dims = x.dims[:a] + (dim(mul(const(x.dims[a]), const(k))),) + x.dims[a + 1:]

    def f(idx):
        i = ZERO if (isinstance(x.dims[a], int) and x.dims[a] == 1) else divmod_t(idx[a], const(k))[0]
        return x.elem(idx[:a] + (i,) + idx[a + 1:])
    return STensor(x.dtype, dims, f)


def broadcast_to(x, shape, name=None):
    x = convert(x)
    sh = as_shape(shape)
    if len(sh) < x.rank:
        raise InvalidArgumentError("broadcast_to")
    off = len(sh) - x.rank
    for k, d in enumerate(x.dims):
        if isinstance(d, int) and d == 1:
            continue
        if not dim_eq(d, sh[off + k]):
            raise InvalidArgumentError("Incompatible shapes: %s vs. %s" % (x.dims, sh))
    return STensor(x.dtype, sh, lambda idx: x.elem(bidx(idx, x.dims)))


def _slice_bounds(s, d):
    """start term, size dim, step int"""
    def val(v):
        if isinstance(v, STensor):
            return v.elem(())
        return v if v is None else const(v)
    st = 1 if s.step is None else val(s.step)
    if isinstance(st, Term):
        if st.op == "c":
            st = int(st.args[0])
        elif not dim_known(lt(ZERO, st)):
            raise Unsupported("symbolic slice step")
    a, b = val(s.start), val(s.stop)
    n = const(d)
    if isinstance(st, Term) or st >= 1:
        if a is None:
            a = ZERO
        elif a.op == "c" and a.args[0] < 0:
            a = canon(add(n, a))
            if not dim_known(le(ZERO, a)):
                a = maxv(a, ZERO)
        if b is None:
            b = n
        elif b.op == "c" and b.args[0] < 0:
            b = canon(add(n, b))
            if not dim_known(le(ZERO, b)):
                b = maxv(b, ZERO)
        else:
            b = _clampmax(b, n)
        a = _clampmax(a, n)
        size = canon(sub(b, a))
        if size.op == "c":
            size = const(max(size.args[0], 0))
        elif not dim_known(le(ZERO, size)):
            size = maxv(size, ZERO)
        if isinstance(st, Term) or st > 1:
            size = ceil_div(size, const(st))
        return a, dim(size), st
    if not isinstance(st, Term) and st == -1 and a is None and b is None:
        return canon(sub(n, ONE)), d, -1
    raise Unsupported("slice step %s" % st)


def ceil_div(a, w):
    """ceil(a / w) for w > 0: the polynomial quotient q where a - q w is known to lie in (-w, 0]"""
    if w.op != "c":
        pa, pw = poly(a), poly(w)
        for m, c in pw.items():
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                continue
            v = m[0][0]
            if sum(1 for k in pw if any(at is v for at, _ in k)) != 1:
                continue
            q = {tuple(x for x in k if x[0] is not v): x / c for k, x in pa.items() if any(at is v and e == 1 for at, e in k)}
            q = from_poly(q)
            r = canon(sub(a, mul(q, w)))
            if isint(q) and dim_known(le(r, ZERO)) and dim_known(lt(sub(ZERO, w), r)):
                return q
    return ceil(div(a, w))


def _clampmax(b, n):
    c = canonb(le(b, n))
    if c is TRUE or dim_known(c):
        return b
    if c is FALSE or dim_known(lt(n, b)):
        return n
    if b.op == "c" and n.op != "c" and PATHS[0] is not None:
        # a dimension smaller than the requested constant prefix: decide on the path
        if PATHS[0].decide(c):
            return b
        return n
    return minv(b, n)


def getitem(x, key):
    if not isinstance(key, tuple):
        key = (key,)
    nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
    ei = [i for i, k in enumerate(key) if k is Ellipsis]
    if len(ei) > 1:
        raise ValueError("multiple ellipses")
    if nspec > x.rank:
        raise InvalidArgumentError("Index out of range using input dim %d; input has only %d dims" % (x.rank, x.rank))
    full = []
    for i, k in enumerate(key):
        if k is Ellipsis:
            full += [slice(None)] * (x.rank - nspec)
        else:
            full.append(k)
    if not ei:
        full += [slice(None)] * (x.rank - nspec)
    plan = []          # per source dim: ("i", term) | ("s", start, step)
    dims = []
    outmap = []        # per output dim: source dim or None
    sd = 0
    for k in full:
        if k is None:
            dims.append(1)
            outmap.append(None)
            continue
        d = x.dims[sd]
        if isinstance(k, slice):
            a, n, st = _slice_bounds(k, d)
            plan.append(("s", a, st))
            dims.append(n)
            outmap.append(sd)
        else:
            if isinstance(k, STensor):
                if k.rank != 0:
                    raise TypeError("Only integers, slices, ellipsis, tf.newaxis and scalar tensors are valid indices")
                k = k.elem(())
            if isinstance(k, (list, rnp.ndarray, float)):
                raise TypeError("Only integers, slices (`:`), ellipsis (`...`), tf.newaxis (`None`) and scalar tf.int32/tf.int64 tensors are valid indices")
            t = const(k)
            if t.op == "c" and t.args[0] < 0:
                t = canon(add(const(d), t))
            ok = canonb(land(le(ZERO, t), lt(t, const(d))))
            if ok is FALSE:
                raise InvalidArgumentError("slice index %s of dimension %d out of bounds." % (t, sd))
            if ok is not TRUE and not dim_known(ok):
                if PATHS[0] is not None and not PATHS[0].decide(ok):
                    raise InvalidArgumentError("slice index %s of dimension %d out of bounds." % (t, sd))
            plan.append(("i", t))
        sd += 1

    def f(idx):
        src = [p[1] if p[0] == "i" else None for p in plan]
        for o, s in enumerate(outmap):
            if s is None:
                continue
            _, a, st = plan[s]
            v = idx[o] if isinstance(st, int) and st == 1 else mul(const(st), idx[o])
            src[s] = v if a is ZERO else canon(add(a, v))
        return x.elem(tuple(src))
    return STensor(x.dtype, dims, f)


def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
    p = convert(params)
    ind = convert(indices)
    if ind.dtype.kind != "i":
        raise TypeError("gather indices must be integers")
    bd = int(batch_dims)
    if bd < 0:
        bd += ind.rank
    ax = bd if axis is None else _axis(axis, p.rank)
    for k in range(bd):
        if not dim_eq(p.dims[k], ind.dims[k]):
            raise InvalidArgumentError("gather batch dims differ: %s vs %s" % (p.dims, ind.dims))
    dims = p.dims[:ax] + ind.dims[bd:] + p.dims[ax + 1:]
    ni = ind.rank - bd

    def f(idx):
        i = ind.elem(idx[:bd] + idx[ax:ax + ni])
        return sub_index(p, idx[:ax], i, idx[ax + ni:], ax)
    return STensor(p.dtype, dims, f)


def sub_index(p, pre, i, post, ax):
    i = const(i)
    if i.op == "argsort" and p.dtype.kind == "f":
        return pick_at(lambda k: p.elem(tuple(pre) + (k,) + tuple(post)), i)
    return p.elem(tuple(pre) + (i,) + tuple(post))


def _scatter_hit(ind, idx):
    """condition that row k of the (n, depth) index array addresses element idx"""
    d = ind.dims[-1]
    return lambda k: land(*[eq(ind.elem((const(k), const(j))), idx[j]) for j in range(d)])


def _scatter_args(indices, updates, sh):
    ind, up = convert(indices), convert(updates)
    d = ind.dims[-1]
    if not isinstance(d, int) or d > len(sh):
        raise Unsupported("scatter index depth")
    if ind.rank != 2:
        lead = _prod(ind.dims[:-1])
        up = reshape(up, (lead,) + tuple(up.dims[ind.rank - 1:]))
        ind = reshape(ind, (lead, d))
    if up.rank != 1 + len(sh) - d or not dim_eq(ind.dims[0], up.dims[0]) or not all(dim_eq(x, y) for x, y in zip(up.dims[1:], sh[d:])):
        raise InvalidArgumentError("scatter: indices and updates disagree")
    return ind, up, d


def scatter_nd(indices, updates, shape, name=None):
    sh = as_shape(shape)
    ind, up, d = _scatter_args(indices, updates, sh)
    z = Cx(ZERO, ZERO) if up.dtype.kind == "c" else ZERO

    def f(idx):
        hit = _scatter_hit(ind, idx)
        body = lambda k: sel(hit(k), up.elem((const(k),) + tuple(idx[d:])), z)
        return (csum if up.dtype.kind == "c" else bsum)(ind.dims[0], body)
    return STensor(up.dtype, sh, f)


def tensor_scatter_nd_update(tensor, indices, updates, name=None):
    t = convert(tensor)
    ind, up, d = _scatter_args(indices, convert(updates, None, hint=t.dtype), t.dims)

    def f(idx):
        hit = _scatter_hit(ind, idx)
        r = t.elem(idx)
        if not isinstance(ind.dims[0], int):
            # any number of rows: the same update for all of them
            k = fresh("row", True)
            v = up.elem((k,) + tuple(idx[d:]))
            if any(occurs(k, p) for p in ((v.re, v.im) if isinstance(v, Cx) else (v,))):
                raise Unsupported("scatter update of a symbolic number of rows")
            return sel(lnot(eq(bsum(ind.dims[0], lambda j: sel(hit(j), ONE, ZERO)), ZERO)), v, r)
        for k in range(ind.dims[0]):
            r = sel(hit(k), up.elem((const(k),) + tuple(idx[d:])), r)
        return r
    return STensor(t.dtype, t.dims, f)


def tensor_scatter_nd_add(tensor, indices, updates, name=None):
    t = convert(tensor)
    return t + scatter_nd(indices, convert(updates, None, hint=t.dtype), t.dims)


def reduce_variance(x, axis=None, keepdims=False, name=None):
    x = convert(x)
    return reduce_mean(square_(x - reduce_mean(x, axis, True)), axis, keepdims)


def reduce_std(x, axis=None, keepdims=False, name=None): return sqrt_(reduce_variance(x, axis, keepdims))


def reduce_logsumexp(x, axis=None, keepdims=False, name=None): return log_(reduce_sum(exp_(x), axis, keepdims))


def softmax(logits, axis=-1, name=None):
    v = exp_(logits)
    return v / reduce_sum(v, axis, True)


def set_diag(x, diagonal, name=None, **kw):
    x, g = convert(x), convert(diagonal)
    return STensor(x.dtype, x.dims, lambda idx: sel(eq(idx[-1], idx[-2]), g.elem(idx[:-1]), x.elem(idx)))


def band_part(x, num_lower, num_upper, name=None):
    x = convert(x)
    l, u = [convert(v).elem(()) for v in (num_lower, num_upper)]
    z = Cx(ZERO, ZERO) if x.dtype.kind == "c" else ZERO
    c = lambda r, k: land(lor(lt(l, ZERO), le(sub(r, k), l)), lor(lt(u, ZERO), le(sub(k, r), u)))
    return STensor(x.dtype, x.dims, lambda idx: sel(c(idx[-2], idx[-1]), x.elem(idx), z))


def argmax(x, axis=0, output_type=None, name=None, _dir="DESCENDING"):
    x = convert(x)
    a = _axis(axis, x.rank)
    p = argsort_(x, a, _dir)
    return STensor(as_dtype(output_type) or int64, x.dims[:a] + x.dims[a + 1:], lambda idx: p.elem(tuple(idx[:a]) + (ZERO,) + tuple(idx[a:])))


def argmin(x, axis=0, output_type=None, name=None): return argmax(x, axis, output_type, name, "ASCENDING")


def sequence_mask(lengths, maxlen=None, dtype=None, name=None):
    n = convert(lengths)
    if maxlen is None:
        raise Unsupported("sequence_mask without a maximum")
    r = STensor(bool_, n.dims + (dim(convert(maxlen)),), lambda idx: lt(idx[-1], n.elem(idx[:-1])))
    return r if dtype is None else cast(r, dtype)


def slice_(x, begin, size, name=None):
    x = convert(x)
    b, z = convert(begin), convert(size)
    bs = [b.elem((const(k),)) for k in range(x.rank)]
    zs = [z.elem((const(k),)) for k in range(x.rank)]
    dims = tuple(dim(sub(const(d), p)) if q.op == "c" and q.args[0] == -1 else dim(q) for d, p, q in zip(x.dims, bs, zs))
    return STensor(x.dtype, dims, lambda idx: x.elem(tuple(add(i, p) for i, p in zip(idx, bs))))


def polyval(coeffs, x, name=None):
    x = convert(x)
    cs = [convert(c) for c in coeffs]       # not in the precision of x, like the real one
    r = cs[0]
    for c in cs[1:]:
        r = c + r * x
    return r


def map_structure(f, *xs):
    x = xs[0]
    if isinstance(x, (list, tuple)):
        return type(x)(map_structure(f, *v) for v in zip(*xs))
    if isinstance(x, dict):
        return {k: map_structure(f, *[v[k] for v in xs]) for k in x}
    return f(*xs)


def round_(x, name=None):
    x = convert(x)
    return elementwise(x.dtype, rnd, x)


def where(cond, x=None, y=None, name=None):
    c = convert(cond)
    if x is None:
        raise Unsupported("where with one argument")
    if c.dtype.kind != "b":
        raise InvalidArgumentError("where condition must be bool")
    x, y = pair(x, y)
    return elementwise(x.dtype, lambda k, a, b: sel(k, a, b), c, x, y)


def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, name=None):
    a, b = pair(a, b)
    if adjoint_a:
        a = matrix_transpose(conj_(a) if a.dtype.kind == "c" else a)
    if adjoint_b:
        b = matrix_transpose(conj_(b) if b.dtype.kind == "c" else b)
    if a.rank < 2 or b.rank < 2:
        raise InvalidArgumentError("matmul needs rank >= 2: %s %s" % (a.dims, b.dims))
    if transpose_a:
        a = matrix_transpose(a)
    if transpose_b:
        b = matrix_transpose(b)
    if not dim_eq(a.dims[-1], b.dims[-2]):
        raise InvalidArgumentError("Matrix size-incompatible: %s %s" % (a.dims, b.dims))
    bs = bshape(a.dims[:-2], b.dims[:-2])
    n = a.dims[-1]
    cplx = a.dtype.kind == "c"

    def f(idx):
        bi = idx[:-2]
        ia = bidx(bi, a.dims[:-2])
        ib = bidx(bi, b.dims[:-2])

        def body(k):
            return a.elem(ia + (idx[-2], k)), b.elem(ib + (k, idx[-1]))
        if not cplx:
            return bsum(n, lambda k: mul(*body(k)))
        return csum(n, lambda k: (lambda u, v: u * v)(*body(k)))
    return STensor(a.dtype, bs + (a.dims[-2], b.dims[-1]), f)


def csum(n, f):
    n = const(n)
    if n.op == "c" and n.args[0] <= 64:
        r = Cx(ZERO, ZERO)
        for k in range(int(n.args[0])):
            r = r + f(const(k))
        return r
    return Cx(bsum(n, lambda k: f(k).re), bsum(n, lambda k: f(k).im))


def _axes(axis, r):
    if axis is None:
        return list(range(r))
    if isinstance(axis, STensor):
        axis = [int(a) for a in as_shape(axis)] if axis.rank else [axis.__index__()]
    if not isinstance(axis, (list, tuple)):
        axis = [axis]
    return sorted(_axis(a, r) for a in axis)


def _reduce(x, axis, keepdims, comb, outdtype=None):
    x = convert(x)
    axs = _axes(axis, x.rank)
    dims = tuple((1 if k in axs else d) for k, d in enumerate(x.dims)) if keepdims else \
        tuple(d for k, d in enumerate(x.dims) if k not in axs)

    def f(idx):
        if keepdims:
            base = list(idx)
        else:
            base = [None] * x.rank
            it = iter(idx)
            for k in range(x.rank):
                if k not in axs:
                    base[k] = next(it)

        def go(rem, cur):
            if not rem:
                return x.elem(tuple(cur))
            k = rem[0]

            def body(j):
                c = list(cur)
                c[k] = j
                return go(rem[1:], c)
            return comb(x.dims[k], body)
        return go(axs, base)
    return STensor(outdtype or x.dtype, dims, f)


def reduce_sum(x, axis=None, keepdims=False, name=None):
    x = convert(x)
    if x.dtype.kind == "c":
        return _reduce(x, axis, keepdims, csum)
    return _reduce(x, axis, keepdims, bsum)


def reduce_max(x, axis=None, keepdims=False, name=None):
    if not isinstance(x, STensor):
        x = _unify_list(list(x)) if isinstance(x, (list, tuple)) else convert(x)
        if isinstance(x, list):
            x = stack(x)
    return _reduce(x, axis, keepdims, lambda n, f: bmax(n, f))


def reduce_min(x, axis=None, keepdims=False, name=None):
    if isinstance(x, (list, tuple)):
        x = stack(_unify_list(list(x)))
    return _reduce(x, axis, keepdims, lambda n, f: bmin(n, f))


def reduce_mean(x, axis=None, keepdims=False, name=None):
    x = convert(x)
    axs = _axes(axis, x.rank)
    s = reduce_sum(x, axis, keepdims)
    n = _prod([x.dims[k] for k in axs])
    if x.dtype.kind == "c":
        return elementwise(s.dtype, lambda v: v.map(lambda q: div(q, n)), s)
    return elementwise(s.dtype, lambda v: div(v, n), s)


def reduce_any(x, axis=None, keepdims=False, name=None):
    return _reduce(x, axis, keepdims, lambda n, f: bany(n, f))


def reduce_all(x, axis=None, keepdims=False, name=None):
    return logical_not(_reduce(logical_not(x), axis, keepdims, lambda n, f: bany(n, f)))


def reduce_prod(x, axis=None, keepdims=False, name=None):
    def comb(n, f):
        if not isinstance(n, int):
            raise Unsupported("reduce_prod over a symbolic dimension")
        r = ONE
        for k in range(n):
            r = mul(r, f(const(k)))
        return r
    return _reduce(x, axis, keepdims, comb)


def argsort_(values, axis=-1, direction="ASCENDING", stable=False, name=None):
    x = convert(values)
    a = _axis(axis, x.rank)
    desc = direction == "DESCENDING"
    if direction not in ("ASCENDING", "DESCENDING"):
        raise ValueError("direction")
    n = x.dims[a]

    def f(idx):
        return argsort(n, lambda k: x.elem(idx[:a] + (k,) + idx[a + 1:]), desc, idx[a])
    return STensor(int32, x.dims, f)


def sort_(values, axis=-1, direction="ASCENDING", name=None):
    x = convert(values)
    a = _axis(axis, x.rank)
    p = argsort_(x, axis, direction)
    return STensor(x.dtype, x.dims, lambda idx: pick_at(lambda k: x.elem(idx[:a] + (k,) + idx[a + 1:]), p.elem(idx)))


def top_k(input, k=1, sorted=True, index_type=None, name=None):
    """the k largest entries in descending order (lower index first among equals), and their indices"""
    x = convert(input)
    k = dim(convert(k))
    p = argsort_(x, -1, "DESCENDING")
    dims = x.dims[:-1] + (k,)
    return STensor(x.dtype, dims, lambda idx: pick_at(lambda k: x.elem(idx[:-1] + (k,)), p.elem(idx))), STensor(int32, dims, p.elem)


def range_(start, limit=None, delta=1, dtype=None, name=None):
    if limit is None:
        start, limit = 0, start
    xs = [start, limit, delta]
    ts = []
    inferred = None
    for v in xs:
        if isinstance(v, STensor):
            ts.append(v.elem(()))
            inferred = inferred or v.dtype
        else:
            ts.append(const(v))
    if dtype is None:
        if inferred is None:
            inferred = int32 if all(isint(t) for t in ts) and not any(isinstance(v, float) for v in xs) else float32
        dtype = inferred
    dtype = as_dtype(dtype)
    s, l, d = ts
    n = canon(div(sub(l, s), d))
    if not isint(n):
        n = ceil(n)
    if n.op == "c":
        n = const(max(n.args[0], 0))
    return STensor(dtype, (dim(n),), lambda idx: add(s, mul(d, idx[0])))


def linspace(start, stop, num_, name=None, axis=0):
    s, e = convert(start), convert(stop)
    s, e = pair(s, e)
    if s.rank or e.rank:
        raise Unsupported("linspace of non scalars")
    n = dim(num_)
    dt = s.dtype if s.dtype.kind == "f" else float64
    a, b = num(s.elem(())), num(e.elem(()))
    def f(idx):
        if isinstance(n, int) and n == 1:
            return a
        st = div(sub(b, a), sub(const(n), ONE))
        v = add(a, mul(idx[0], st))
        return v if isinstance(n, int) else ite(eq(const(n), ONE), a, v)
    return STensor(dt, (n,), f)


def meshgrid(*args, indexing="xy", name=None):
    xs = [convert(a) for a in args]
    if any(x.rank != 1 for x in xs):
        raise Unsupported("meshgrid of a matrix")
    order = list(range(len(xs)))
    if indexing == "xy" and len(xs) > 1:
        order[0], order[1] = 1, 0
    dims = tuple(xs[k].dims[0] for k in order)
    return [STensor(x.dtype, dims, (lambda x, p: lambda idx: x.elem((idx[p],)))(x, order.index(k))) for k, x in enumerate(xs)]


def roll(x, shift, axis, name=None):
    x = convert(x)
    a = _axis(axis, x.rank)
    sh = shift.elem(()) if isinstance(shift, STensor) else const(shift)
    n = const(x.dims[a])

    def f(idx):
        i = sub(idx[a], sh)
        if i.op == "c" and n.op == "c":
            i = const(int(i.args[0]) % int(n.args[0]))
        else:
            i = divmod_t(canon(i), n)[1]
        return x.elem(idx[:a] + (i,) + idx[a + 1:])
    return STensor(x.dtype, x.dims, f)


def reverse(x, axis, name=None):
    x = convert(x)
    axs = _axes(axis, x.rank)
    return STensor(x.dtype, x.dims, lambda idx: x.elem(tuple(
        canon(sub(sub(const(x.dims[k]), ONE), i)) if k in axs else i for k, i in enumerate(idx))))


def one_hot(indices, depth, on_value=None, off_value=None, axis=None, dtype=None, name=None):
    ind = convert(indices)
    dt = as_dtype(dtype) or float32
    d = dim(depth)
    return STensor(dt, ind.dims + (d,), lambda idx: ite(eq(ind.elem(idx[:-1]), idx[-1]), ONE, ZERO))


def cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
    x = convert(x)
    if x.dtype.kind == "b":
        raise InvalidArgumentError("cumsum of bool")
    a = _axis(axis, x.rank)
    if reverse:
        return globals()['reverse'](cumsum(globals()['reverse'](x, [a]), a, exclusive), [a])

    def f(idx):
        n = idx[a] if exclusive else canon(add(idx[a], ONE))
        if isinstance(n, Term) and n.op == "c":
            n = int(n.args[0])
        g = lambda k: x.elem(idx[:a] + (const(k),) + idx[a + 1:])
        return csum(n, g) if x.dtype.kind == "c" else bsum(n, g)
    return STensor(x.dtype, x.dims, f)


def logical_and(a, b, name=None):
    a, b = convert(a), convert(b)
    for x in (a, b):
        if x.dtype.kind != "b":
            raise InvalidArgumentError("logical op on non-bool")
    return elementwise(bool_, land, a, b)


def logical_or(a, b, name=None):
    a, b = convert(a), convert(b)
    for x in (a, b):
        if x.dtype.kind != "b":
            raise InvalidArgumentError("logical op on non-bool")
    return elementwise(bool_, lor, a, b)


def logical_not(a, name=None):
    a = convert(a)
    if a.dtype.kind != "b":
        raise InvalidArgumentError("logical op on non-bool")
    return elementwise(bool_, lnot, a)


def logical_xor(a, b, name=None):
    a, b = convert(a), convert(b)
    return elementwise(bool_, lambda x, y: lnot(iff(x, y)), a, b)


def is_nan(x, name=None):
    x = convert(x)

    def f(v):
        # 0^0 of a complex power is NaN on this platform (polar form |a|^k cos(k arg a))
        for y in walk(v):
            if y.op == "pow" and y.args[0].op == "sqrt":
                return land(eq(y.args[0], ZERO), eq(y.args[1], ZERO))
        return FALSE
    return elementwise(bool_, f, x)


def is_inf(x, name=None):
    x = convert(x)
    return elementwise(bool_, lambda v: TRUE if v.op == "inf" else FALSE, x)


def cond(pred, true_fn=None, false_fn=None, name=None):
    if pred:
        return true_fn()
    return false_fn()


def map_fn(fn, elems, dtype=None, parallel_iterations=None, back_prop=True, swap_memory=False, infer_shape=True, name=None,
           fn_output_signature=None, **kw):
    """the function is applied once, to the slices at an arbitrary index (it must not draw random numbers)"""
    if kw:
        raise Unsupported("map_fn options")
    multi = isinstance(elems, (list, tuple))
    xs = [convert(e) for e in (elems if multi else [elems])]
    n = xs[0].dims[0]
    k0 = len(LOG["draws"]) if isinstance(LOG.get("draws"), list) else None

    def at(i):
        sl = [STensor(x.dtype, x.dims[1:], (lambda x: lambda idx: x.elem((i,) + idx))(x)) for x in xs]
        return fn(type(elems)(sl) if multi else sl[0])
    probe = at(ZERO)
    if k0 is not None and len(LOG["draws"]) != k0:
        raise Unsupported("map_fn over a random function")
    if isinstance(probe, (list, tuple)):
        probe = [convert(p) for p in probe]
        return type(elems if multi else ())(STensor(p.dtype, (n,) + p.dims, (lambda j: lambda idx: convert(at(idx[0])[j]).elem(idx[1:]))(j))
                                            for j, p in enumerate(probe))
    p = convert(probe)
    return STensor(p.dtype, (n,) + p.dims, lambda idx: convert(at(idx[0])).elem(idx[1:]))


# ------------------------------------------------------------------ logs
class Draw:
    def __init__(self, kind, dims, raw, value, **par):
        self.kind, self.dims, self.raw, self.value, self.par = kind, dims, raw, value, par


LOG = {"draws": [], "chol": [], "ranges": {}, "dims": {}, "hyps": []}


def reset_log():
    LOG["draws"] = []
    LOG["chol"] = []
    LOG["ranges"] = {}
    LOG["dims"] = {}
    LOG["hyps"] = []


LOOPS = []          # active loops with a symbolic range


def random_uniform(shape, minval=0, maxval=None, dtype=float32, seed=None, name=None):
    if LOOPS:
        raise Unsupported("random draw in a symbolic loop")
    dtype = as_dtype(dtype)
    dims = as_shape(shape)
    if maxval is None:
        if dtype.kind == "i":
            raise ValueError("Must specify maxval for integer dtype")
        maxval = 1
    nm = "unif%d" % len(LOG["draws"])
    for b in (minval, maxval):
        if isinstance(b, STensor) and b.dtype is not dtype:
            raise InvalidArgumentError("uniform bound dtype %s for %s" % (b.dtype.name, dtype.name))
    lo, hi = convert(minval, None, hint=dtype), convert(maxval, None, hint=dtype)
    if dtype.kind == "i":
        INT_FUNS.add(nm)
        a, b = lo.elem(()), hi.elem(())
        LOG["ranges"][nm] = (a, sub(b, ONE), "i")
        raw = STensor(dtype, dims, lambda idx: app(nm, *idx))
        LOG["draws"].append(Draw("uniform_int", dims, raw, raw, lo=lo, hi=hi, name=nm))
        return raw
    LOG["ranges"][nm] = (ZERO, ONE, "r", False, True)
    raw = STensor(dtype, dims, lambda idx: app(nm, *idx))
    if hi.rank == 0 and lo.rank == 0 and lo.elem(()) is ZERO and hi.elem(()) is ONE:
        val = raw
    else:
        val = STensor(dtype, dims, lambda idx: add(lo.elem(bidx(idx, lo.dims)), mul(
            sub(hi.elem(bidx(idx, hi.dims)), lo.elem(bidx(idx, lo.dims))), app(nm, *idx))))
        bshape(dims, lo.dims, hi.dims)
    LOG["draws"].append(Draw("uniform", dims, raw, val, lo=lo, hi=hi, name=nm))
    return val


def random_normal(shape, mean=0.0, stddev=1.0, dtype=float32, seed=None, name=None):
    if LOOPS:
        raise Unsupported("random draw in a symbolic loop")
    dtype = as_dtype(dtype)
    dims = as_shape(shape)
    nm = "norm%d" % len(LOG["draws"])
    m, s = convert(mean, None, hint=dtype), convert(stddev, None, hint=dtype)
    for b in (m, s):
        if b.dtype is not dtype:
            raise InvalidArgumentError("normal parameter dtype %s for %s" % (b.dtype.name, dtype.name))
    raw = STensor(dtype, dims, lambda idx: app(nm, *idx))
    od = bshape(dims, m.dims, s.dims)
    if m.rank == 0 and s.rank == 0 and m.elem(()) is ZERO and s.elem(()) is ONE:
        val = raw
    else:
        val = STensor(dtype, od, lambda idx: add(m.elem(bidx(idx, m.dims)), mul(
            s.elem(bidx(idx, s.dims)), raw.elem(bidx(idx, dims)))))
    LOG["draws"].append(Draw("normal", dims, raw, val, mean=m, std=s, name=nm))
    return val


def cholesky(x, name=None):
    x = convert(x)
    if x.rank < 2 or not dim_eq(x.dims[-1], x.dims[-2]):
        raise InvalidArgumentError("cholesky needs square matrices")
    nm = "chol%d" % len(LOG["chol"])
    if x.dtype.kind == "c":
        elem = lambda idx: Cx(app(nm, *idx), app(nm + "_im", *idx))     # the factor of a Hermitian matrix is complex
    else:
        elem = lambda idx: app(nm, *idx)
    out = STensor(x.dtype, x.dims, elem, tag=("chol", len(LOG["chol"])))
    LOG["chol"].append((x, out))
    return out


class Toeplitz:
    def __init__(self, col, row, *a, **k):
        self.col, self.row = convert(col), convert(row)

    def to_dense(self):
        c, r = self.col, self.row
        bs = bshape(c.dims[:-1], r.dims[:-1])
        n = c.dims[-1]

        def f(idx):
            i, j = idx[-2], idx[-1]
            bi = idx[:-2]
            cc = c.elem(bidx(bi, c.dims[:-1]) + (canon(sub(i, j)),))
            rr = r.elem(bidx(bi, r.dims[:-1]) + (canon(sub(j, i)),))
            cnd = canonb(le(j, i))
            if cnd is TRUE:
                return cc
            if cnd is FALSE:
                return rr
            return sel(cnd, cc, rr)
        return STensor(c.dtype, bs + (n, n), f)


def fft(x, name=None):
    x = convert(x)
    n = x.dims[-1]

    def f(idx):
        k = idx[-1]

        def body(t):
            ang = mul(const(-2), PI_T, k, t)
            ang = div(ang, const(n))
            return x.elem(idx[:-1] + (t,)) * cis(ang)
        return csum(n, body)
    return STensor(x.dtype, x.dims, f)


def fftshift(x, axes=None, name=None):
    x = convert(x)
    n = const(x.dims[-1])
    return roll(x, floor(div(n, const(2))), -1)


def sinc(x):
    x = convert(x)
    return elementwise(x.dtype, lambda v: ite(eq(v, ZERO), ONE, div(sin(mul(PI_T, v)), mul(PI_T, v))), x)


def function(func=None, **kw):
    if func is not None:
        return func
    return lambda f: f


def stop_gradient(x, name=None): return x
def identity(x, name=None): return convert(x)


def norm(x, ord="euclidean", axis=None, keepdims=None, name=None):
    x = convert(x)
    if ord == 1 and isinstance(axis, int):
        return reduce_sum(abs_(x), axis=axis, keepdims=bool(keepdims))
    if ord in (float("inf"), rnp.inf) and isinstance(axis, int):
        return reduce_max(abs_(x), axis=axis, keepdims=bool(keepdims))
    if ord not in ("euclidean", "fro") and not (ord == 2 and isinstance(axis, int)):
        raise Unsupported("norm of order %r" % (ord,))
    return sqrt_(reduce_sum(square_(abs_(x)), axis=axis, keepdims=bool(keepdims)))


def einsum(eq_, *ops, **k):
    ops = [convert(o) for o in ops]
    eq_ = eq_.replace(" ", "")
    if "->" not in eq_:
        raise Unsupported("implicit einsum")
    ins, out = eq_.split("->")
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise InvalidArgumentError("einsum operands")
    if "..." in eq_:
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in eq_]
        nb = [o.rank - len(s) + 3 if "..." in s else 0 for s, o in zip(ins, ops)]
        batch = "".join(free[:max(nb)])
        ins = [s.replace("...", batch[len(batch) - n:]) for s, n in zip(ins, nb)]
        out = out.replace("...", batch)
    size_ = {}
    for s, o in zip(ins, ops):
        if len(s) != o.rank:
            raise InvalidArgumentError("einsum rank")
        if len(set(s)) != len(s):
            raise Unsupported("einsum with a repeated subscript")
        for ch, d in zip(s, o.dims):
            if ch in size_ and not dim_eq(size_[ch], d):
                if isinstance(size_[ch], int) and size_[ch] == 1:
                    size_[ch] = d
                elif not (isinstance(d, int) and d == 1):
                    raise InvalidArgumentError("einsum dims")
            size_.setdefault(ch, d)
    red = [c for c in size_ if c not in out]
    cplx = ops[0].dtype.kind == "c"
    if any(o.dtype is not ops[0].dtype for o in ops):
        raise InvalidArgumentError("einsum of different dtypes")

    def f(idx):
        env = dict(zip(out, idx))

        def go(rem, env):
            if not rem:
                r = None
                for s, o in zip(ins, ops):
                    v = o.elem(tuple(ZERO if isinstance(d, int) and d == 1 else env[c] for c, d in zip(s, o.dims)))
                    r = v if r is None else (r * v if cplx else mul(r, v))
                return r
            return (csum if cplx else bsum)(size_[rem[0]], lambda k: go(rem[1:], {**env, rem[0]: k}))
        return go(red, env)
    return STensor(ops[0].dtype, tuple(size_[c] for c in out), f)


def tensordot(a, b, axes, name=None):
    a, b = pair(a, b)
    if isinstance(axes, int):
        xa, xb = list(range(a.rank - axes, a.rank)), list(range(axes))
    else:
        xa, xb = [[_axis(v, t.rank) for v in (ax if isinstance(ax, (list, tuple)) else [ax])] for ax, t in zip(axes, (a, b))]
    if len(xa) != len(xb):
        raise InvalidArgumentError("tensordot axes")
    fa, fb = [i for i in range(a.rank) if i not in xa], [i for i in range(b.rank) if i not in xb]
    for i, j in zip(xa, xb):
        if not dim_eq(a.dims[i], b.dims[j]):
            raise InvalidArgumentError("tensordot sizes")
    ns = [a.dims[i] for i in xa]
    cplx = a.dtype.kind == "c"

    def f(idx):
        ia, ib = [None] * a.rank, [None] * b.rank
        for p, i in enumerate(fa):
            ia[i] = idx[p]
        for p, i in enumerate(fb):
            ib[i] = idx[len(fa) + p]

        def go(k):
            if k == len(ns):
                u, v = a.elem(tuple(ia)), b.elem(tuple(ib))
                return u * v if cplx else mul(u, v)

            def body(t):
                ia[xa[k]] = ib[xb[k]] = const(t)
                return go(k + 1)
            return csum(ns[k], body) if cplx else bsum(ns[k], body)
        return go(0)
    return STensor(a.dtype, tuple(a.dims[i] for i in fa) + tuple(b.dims[i] for i in fb), f)


def split(value, num_or_size_splits, axis=0, num=None, name=None):
    x = convert(value)
    a = _axis(axis, x.rank)
    d = x.dims[a]
    if isinstance(num_or_size_splits, int):
        if not isinstance(d, int):
            raise Unsupported("split of a symbolic dimension into equal parts")
        if d % num_or_size_splits:
            raise InvalidArgumentError("split sizes")
        sizes = [d // num_or_size_splits] * num_or_size_splits
    else:
        sizes = [dim(s) for s in (as_shape(num_or_size_splits) if isinstance(num_or_size_splits, STensor) else num_or_size_splits)]
    out, off = [], ZERO
    for n in sizes:
        o = off
        out.append(STensor(x.dtype, x.dims[:a] + (n,) + x.dims[a + 1:],
                           (lambda o: lambda idx: x.elem(idx[:a] + (canon(add(idx[a], o)),) + idx[a + 1:]))(o)))
        off = canon(add(off, const(n)))
    if not dim_eq(dim(off), d):
        raise InvalidArgumentError("split sizes")
    return out


def sign_(x, name=None):
    x = convert(x)
    return elementwise(x.dtype, lambda v: ite(lt(ZERO, v), ONE, ite(lt(v, ZERO), const(-1), ZERO)), x)


def diag_part(x, name=None):
    x = convert(x)
    if not dim_eq(x.dims[-1], x.dims[-2]):
        raise Unsupported("diag_part of a rectangular matrix")
    return STensor(x.dtype, x.dims[:-1], lambda idx: x.elem(idx + (idx[-1],)))


def trace(x, name=None):
    return reduce_sum(diag_part(x), axis=-1)


def diag(x, name=None):
    x = convert(x)
    z = Cx(ZERO, ZERO) if x.dtype.kind == "c" else ZERO
    return STensor(x.dtype, x.dims + x.dims[-1:], lambda idx: sel(eq(idx[-1], idx[-2]), x.elem(idx[:-1]), z))


def cross(a, b, name=None):
    a, b = pair(a, b)
    c = lambda t, k: getitem(t, (Ellipsis, k))
    m = lambda p, q: _arith("mul", p, q)
    d = lambda p, q: _arith("sub", p, q)
    return stack([d(m(c(a, 1), c(b, 2)), m(c(a, 2), c(b, 1))), d(m(c(a, 2), c(b, 0)), m(c(a, 0), c(b, 2))),
                  d(m(c(a, 0), c(b, 1)), m(c(a, 1), c(b, 0)))], axis=-1)


def gather_nd(params, indices, batch_dims=0, name=None):
    p, i = convert(params), convert(indices)
    if batch_dims:
        raise Unsupported("gather_nd with batch_dims")
    n = i.dims[-1]
    if not isinstance(n, int):
        raise Unsupported("gather_nd depth")
    r = i.rank - 1
    return STensor(p.dtype, i.dims[:-1] + p.dims[n:], lambda idx: p.elem(tuple(i.elem(idx[:r] + (const(k),)) for k in range(n)) + idx[r:]))


def unstack(x, num_=None, axis=0, name=None):
    x = convert(x)
    a = _axis(axis, x.rank)
    n = x.dims[a]
    if not isinstance(n, int):
        raise Unsupported("unstack of a symbolic dimension")
    return [x[tuple([slice(None)] * a + [i])] for i in range(n)]


def add_n(xs, name=None):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def pad(x, paddings, mode="CONSTANT", constant_values=0, name=None):
    x = convert(x)
    pd = convert(paddings)
    lohi = [(pd.elem((const(k), ZERO)), pd.elem((const(k), ONE))) for k in range(x.rank)]
    dims = tuple(dim(add(const(d), a, b)) for d, (a, b) in zip(x.dims, lohi))
    z = Cx(ZERO, ZERO) if x.dtype.kind == "c" else const(constant_values)

    def f(idx):
        c = TRUE
        src = []
        for i, d, (a, b) in zip(idx, x.dims, lohi):
            if a is ZERO and b is ZERO:
                src.append(i)
                continue
            j = canon(sub(i, a))
            c = land(c, le(ZERO, j), lt(j, const(d)))
            src.append(j)
        c = canonb(c)
        if c is FALSE:
            return z
        return sel(c, x.elem(tuple(src)), z)
    return STensor(x.dtype, dims, f)


# ------------------------------------------------------------------ module assembly
class Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s is outside the modelled subset" % (self.__name__, name))


def build():
    tf = Mod("tensorflow")
    g = globals()
    common = dict(
        add=lambda a, b, name=None: _arith("add", a, b), subtract=lambda a, b, name=None: _arith("sub", a, b),
        multiply=lambda a, b, name=None: _arith("mul", a, b), divide=lambda a, b, name=None: _arith("div", a, b),
        truediv=lambda a, b, name=None: _arith("div", a, b),
        floormod=lambda a, b, name=None: _arith("mod", a, b), mod=lambda a, b, name=None: _arith("mod", a, b),
        floordiv=lambda a, b, name=None: _arith("idiv", a, b),
        negative=_neg, exp=exp_, log=log_, sin=sin_, cos=cos_, tan=tan_, acos=acos_, asin=asin_, atan=atan_,
        atan2=atan2_, sqrt=sqrt_, rsqrt=rsqrt_, square=square_, abs=abs_, real=real_, imag=imag_, angle=angle_,
        conj=conj_, ceil=ceil_, floor=floor_, pow=pow_, maximum=maximum, minimum=minimum,
        less=lambda a, b, name=None: _cmp("lt", a, b), less_equal=lambda a, b, name=None: _cmp("le", a, b),
        greater=lambda a, b, name=None: _cmp("gt", a, b), greater_equal=lambda a, b, name=None: _cmp("ge", a, b),
        equal=lambda a, b, name=None: _cmp("eq", a, b), not_equal=lambda a, b, name=None: _cmp("ne", a, b),
        logical_and=logical_and, logical_or=logical_or, logical_not=logical_not, logical_xor=logical_xor,
        reduce_sum=reduce_sum, reduce_max=reduce_max, reduce_min=reduce_min, reduce_mean=reduce_mean,
        reduce_any=reduce_any, reduce_all=reduce_all, reduce_prod=reduce_prod, add_n=add_n,
        sign=sign_, squared_difference=lambda a, b, name=None: square_(_arith("sub", a, b)), is_finite=lambda x, name=None: logical_not(
            logical_or(is_nan(x), is_inf(x))), log1p=lambda x, name=None: log_(_arith("add", x, 1.0)),
        divide_no_nan=divide_no_nan, is_nan=is_nan, is_inf=is_inf, cumsum=cumsum,
        top_k=top_k, round=round_, rint=round_, reduce_std=reduce_std, reduce_variance=reduce_variance, reduce_logsumexp=reduce_logsumexp,
        softmax=softmax, argmax=argmax, argmin=argmin, polyval=polyval, reduce_euclidean_norm=lambda x, axis=None, keepdims=False, name=None: norm(x, axis=axis, keepdims=keepdims),
        multiply_no_nan=lambda x, y, name=None: where(_cmp("eq", y, zeros_like(y)), zeros_like(_arith("mul", x, y)), _arith("mul", x, y)),
        expm1=lambda x, name=None: exp_(x) - 1., sinh=lambda x, name=None: (exp_(x) - exp_(-convert(x))) / 2., cosh=lambda x, name=None: (
            exp_(x) + exp_(-convert(x))) / 2., tanh=lambda x, name=None: 1. - 2. / (exp_(2. * convert(x)) + 1.),
        reciprocal=lambda x, name=None: _arith("div", 1.0, x),
    )
    for k in ("constant", "convert_to_tensor", "cast", "shape", "rank", "size", "zeros", "ones", "zeros_like", "ones_like",
              "fill", "eye", "expand_dims", "squeeze", "stack", "unstack", "concat", "transpose", "reshape", "tile",
              "repeat", "broadcast_to", "gather", "scatter_nd", "where", "matmul", "linspace", "meshgrid", "roll",
              "reverse", "one_hot", "clip_by_value", "function", "stop_gradient", "identity", "norm", "einsum",
              "tensordot", "split", "pad", "Tensor", "TensorShape", "Variable", "cond", "map_fn",
              "float32", "float64", "int32", "int64", "complex64", "complex128", "DType"):
        setattr(tf, k, g[k])
    tf.bool = bool_
    tf.slice = slice_
    tf.tensor_scatter_nd_update, tf.tensor_scatter_nd_add, tf.sequence_mask = tensor_scatter_nd_update, tensor_scatter_nd_add, sequence_mask
    tf.is_tensor = lambda x: isinstance(x, STensor)
    tf.nest = Mod("tensorflow.nest")
    tf.nest.map_structure = map_structure
    tf.nn = Mod("tensorflow.nn")
    tf.nn.softmax, tf.nn.top_k = softmax, top_k
    tf.newaxis = None
    tf.range = range_
    tf.complex = complex_
    tf.sort = sort_
    tf.argsort = argsort_
    for k, v in common.items():
        setattr(tf, k, v)
    m = Mod("tensorflow.math")
    for k, v in common.items():
        setattr(m, k, v)
    sp = Mod("tensorflow.math.special")
    sp.bessel_j1 = j1_
    m.special = sp
    m.bessel_j1 = j1_
    tf.math = m
    la = Mod("tensorflow.linalg")
    la.matmul, la.cholesky, la.matrix_transpose, la.eye = matmul, cholesky, matrix_transpose, eye
    la.LinearOperatorToeplitz = Toeplitz
    la.norm = norm
    la.adjoint = lambda x, name=None: matrix_transpose(conj_(x) if convert(x).dtype.kind == "c" else x)
    la.einsum, la.tensordot, la.trace, la.diag_part, la.diag = einsum, tensordot, trace, diag_part, diag
    la.cross = cross
    la.set_diag, la.band_part = set_diag, band_part
    la.matvec = lambda a, b, transpose_a=False, adjoint_a=False, name=None: squeeze(matmul(a, expand_dims(b, -1), transpose_a=transpose_a, adjoint_a=adjoint_a), -1)
    tf.vectorized_map = lambda fn, elems, fallback_to_while_loop=True, warn=True: map_fn(fn, elems)
    tf.ensure_shape = lambda x, shape, name=None: convert(x)
    tf.gather_nd = gather_nd
    tf.linalg = la
    rn = Mod("tensorflow.random")
    rn.uniform, rn.normal = random_uniform, random_normal
    rn.set_seed = lambda s: None
    tf.random = rn
    dbg = Mod("tensorflow.debugging")
    for k in ("assert_less", "assert_equal", "assert_greater", "assert_less_equal", "assert_rank"):
        setattr(dbg, k, lambda *a, **k: None)
    tf.debugging = dbg
    sg = Mod("tensorflow.signal")
    sg.fft, sg.fftshift = fft, fftshift
    tf.signal = sg
    ex = Mod("tensorflow.experimental")
    exn = Mod("tensorflow.experimental.numpy")
    exn.sinc = sinc
    exn.deg2rad = exn.radians = lambda x: convert(x) * PI_T / 180.
    exn.rad2deg = exn.degrees = lambda x: convert(x) * 180. / PI_T
    exn.hypot = lambda x, y: sqrt_(square_(x) + square_(y))
    exn.log10 = lambda x: log_(x) / log_(convert(10., None, hint=convert(x).dtype))
    def swapaxes(a, axis1, axis2):
        x = convert(a)
        p = list(range(x.rank))
        i, j = _axis(axis1, x.rank), _axis(axis2, x.rank)
        p[i], p[j] = p[j], p[i]
        return transpose(x, p)

    def moveaxis(a, source, destination):
        x = convert(a)
        src = [_axis(q, x.rank) for q in (source if isinstance(source, (list, tuple)) else [source])]
        dst = [_axis(q, x.rank) for q in (destination if isinstance(destination, (list, tuple)) else [destination])]
        p = [q for q in range(x.rank) if q not in src]
        for d, q in sorted(zip(dst, src)):
            p.insert(d, q)
        return transpose(x, p)
    exn.swapaxes, exn.moveaxis = swapaxes, moveaxis
    exn.transpose = lambda a, axes=None: transpose(a, axes)
    exn.concatenate = lambda arys, axis=0: concat(arys, axis)
    exn.stack = lambda arrays, axis=0: stack(arrays, axis=axis)
    exn.expand_dims = lambda a, axis: expand_dims(a, axis)
    exn.sum = lambda a, axis=None, keepdims=False: reduce_sum(a, axis, keepdims)
    exn.mean = lambda a, axis=None, keepdims=False: reduce_mean(a, axis, keepdims)
    exn.sin, exn.cos, exn.exp, exn.sqrt, exn.log, exn.abs, exn.square = sin_, cos_, exp_, sqrt_, log_, abs_, square_
    exn.arctan2, exn.maximum, exn.minimum = atan2_, maximum, minimum
    exn.where = lambda condition, x, y: where(condition, x, y)
    ex.numpy = exn
    tf.experimental = ex
    tf.dtypes = Mod("tensorflow.dtypes")
    tf.dtypes.cast = cast
    tf.errors = Mod("tensorflow.errors")
    tf.errors.InvalidArgumentError = InvalidArgumentError
    tf.autograph = Mod("tensorflow.autograph")
    ag = tf.autograph.experimental = Mod("tensorflow.autograph.experimental")
    ag.do_not_convert = lambda f=None, **k: f if f is not None else (lambda g: g)
    more(tf)
    _real_signatures(tf)
    return tf


def _real_signatures(tf):
    """every operation takes TensorFlow's own keyword names (tfsigs.json: the parameter names of the real functions)"""
    import functools
    import inspect
    import json
    import os
    with open(os.path.join(os.path.dirname(__file__), "tfsigs.json")) as f:
        table = json.load(f)
    for path, real in table.items():
        *mods, name = path.split(".")
        o = tf
        for q in mods:
            o = o.__dict__.get(q)
            if o is None:
                break
        f = o.__dict__.get(name) if o is not None else None
        if not isinstance(f, types.FunctionType):
            continue
        ps = inspect.signature(f).parameters.values()
        if any(q.kind == q.VAR_KEYWORD for q in ps):
            continue
        mine = [q.name for q in ps if q.kind == q.POSITIONAL_OR_KEYWORD]
        names = frozenset(q.name for q in ps)
        if set(real) <= names:
            continue
        ren = {b: a for a, b in zip(mine, real) if b not in names and a not in real}

        def wrap(f, names, ren, real, path):
            @functools.wraps(f)
            def g(*a, **k):
                if not names.issuperset(k):
                    kk = {}
                    for q, v in k.items():
                        if q in names:
                            kk[q] = v
                        elif q in ren:
                            kk[ren[q]] = v
                        elif q not in real:
                            raise TypeError("%s() got an unexpected keyword argument %r" % (path, q))
                        elif not (v is None or v is False or v == ""):
                            raise Unsupported("tf.%s(%s=...)" % (path, q))
                    k = kk
                return f(*a, **k)
            return g
        setattr(o, name, wrap(f, names, ren, real, path))


class NullContext:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class TensorArray:
    """fixed-size array of tensors, written at concrete positions"""
    def __init__(self, dtype, size=None, dynamic_size=False, infer_shape=True, element_shape=None, clear_after_read=None, _d=None, **k):
        self.dtype, self.n, self.d = as_dtype(dtype), size, dict(_d or {})

    def write(self, i, v, name=None):
        return TensorArray(self.dtype, self.n, _d={**self.d, int(i): convert(v, None, hint=self.dtype)})

    def read(self, i, name=None): return self.d[int(i)]

    def unstack(self, v, name=None):
        return TensorArray(self.dtype, self.n, _d=dict(enumerate(unstack(v))))

    def size(self, name=None): return convert(len(self.d), int32)

    def stack(self, name=None):
        if sorted(self.d) != list(range(len(self.d))):
            raise Unsupported("TensorArray with holes")
        return stack([self.d[k] for k in sorted(self.d)])

    def concat(self, name=None):
        return concat([self.d[k] for k in sorted(self.d)], 0)


def while_loop(cond, body, loop_vars, shape_invariants=None, parallel_iterations=10, back_prop=True, swap_memory=False, maximum_iterations=None, name=None):
    """loops whose number of iterations is known"""
    if LOOPS:
        raise Unsupported("while_loop in a symbolic loop")
    one = not isinstance(loop_vars, (list, tuple))
    v = [loop_vars] if one else list(loop_vars)
    k = 0
    while (maximum_iterations is None or k < int(maximum_iterations)) and bool(cond(*v)):
        r = body(*v)
        v = list(r) if isinstance(r, (list, tuple)) else [r]
        k += 1
        if k > 64:
            raise Unsupported("while_loop of more than 64 iterations")
    return v[0] if one else (tuple(v) if isinstance(loop_vars, tuple) else v)


def _fold(fn, elems, initializer=None, reverse=False, keep=False):
    xs = elems if isinstance(elems, (list, tuple)) else [elems]
    n = convert(xs[0]).dims[0]
    if not isinstance(n, int):
        raise Unsupported("fold over a symbolic dimension")
    it = [tuple(convert(x)[k] for x in xs) if isinstance(elems, (list, tuple)) else convert(elems)[k] for k in range(n)]
    if reverse:
        it = it[::-1]
    acc = it.pop(0) if initializer is None else initializer
    out = [acc] if initializer is None else []
    for x in it:
        acc = fn(acc, x)
        out.append(acc)
    if not keep:
        return acc
    if isinstance(acc, (list, tuple)):
        raise Unsupported("scan over structures")
    out = [convert(x) for x in out]
    return stack(out[::-1] if reverse else out)


def cumprod(x, axis=0, exclusive=False, reverse=False, name=None):
    x = convert(x)
    n = x.dims[_axis(axis, x.rank)]
    if not isinstance(n, int) or reverse:
        raise Unsupported("cumprod")
    xs = unstack(x, axis=axis)
    out, acc = [], ones_like(xs[0]) if exclusive else xs[0]
    out.append(acc)
    for y in (xs[:-1] if exclusive else xs[1:]):
        acc = acc * y
        out.append(acc)
    return stack(out, axis=_axis(axis, x.rank))


def count_nonzero(x, axis=None, keepdims=False, dtype=None, name=None):
    x = convert(x)
    c = x if x.dtype.kind == "b" else _cmp("ne", x, zeros_like(x))
    return reduce_sum(cast(c, as_dtype(dtype) or int64), axis=axis, keepdims=keepdims)


def det(x, name=None):
    x = convert(x)
    n = x.dims[-1]
    if n == 1:
        return x[..., 0, 0]
    if n == 2:
        return x[..., 0, 0] * x[..., 1, 1] - x[..., 0, 1] * x[..., 1, 0]
    if n == 3:
        c = lambda i, j: x[..., 0, i] * x[..., 1, j] - x[..., 0, j] * x[..., 1, i]
        return x[..., 2, 2] * c(0, 1) - x[..., 2, 1] * c(0, 2) + x[..., 2, 0] * c(1, 2)
    raise Unsupported("determinant")


def ifft(x, name=None):
    x = convert(x)
    n = x.dims[-1]

    def f(idx):
        def body(t):
            return x.elem(idx[:-1] + (t,)) * cis(div(mul(const(2), PI_T, idx[-1], t), const(n)))
        s = csum(n, body)
        return Cx(div(s.re, const(n)), div(s.im, const(n)))
    return STensor(x.dtype, x.dims, f)


def switch_case(branch_index, branch_fns, default=None, name=None):
    i = int(convert(branch_index))
    fs = dict(branch_fns) if isinstance(branch_fns, dict) or branch_fns and isinstance(branch_fns[0], tuple) else dict(enumerate(branch_fns))
    return fs[i]() if i in fs else (default() if default is not None else fs[max(fs)]())


def case(pred_fn_pairs, default=None, exclusive=False, strict=False, name=None):
    for p, f in (pred_fn_pairs.items() if isinstance(pred_fn_pairs, dict) else pred_fn_pairs):
        if p:
            return f()
    return default()


def more(tf):
    m = tf.math
    for k, f in dict(
            scalar_mul=lambda s, x, name=None: _arith("mul", s, x), reciprocal_no_nan=lambda x, name=None: divide_no_nan(ones_like(x), x),
            count_nonzero=count_nonzero, cumprod=cumprod, sigmoid=lambda x, name=None: 1. / (1. + exp_(-convert(x))),
            xdivy=lambda x, y, name=None: where(_cmp("eq", x, zeros_like(x)), zeros_like(_arith("div", x, y)), _arith("div", x, y)),
            zero_fraction=lambda x, name=None: 1. - cast(count_nonzero(x), float32) / cast(size(x), float32),
            realdiv=lambda a, b, name=None: _arith("div", a, b)).items():
        setattr(m, k, f)
        setattr(tf, k, f)
    tf.while_loop, tf.case, tf.switch_case, tf.TensorArray = while_loop, case, switch_case, TensorArray
    tf.foldl = lambda fn, elems, initializer=None, **k: _fold(fn, elems, initializer)
    tf.foldr = lambda fn, elems, initializer=None, **k: _fold(fn, elems, initializer, True)
    tf.scan = lambda fn, elems, initializer=None, reverse=False, **k: _fold(fn, elems, initializer, reverse, True)
    tf.linalg.det = det
    tf.linalg.normalize = lambda x, ord="euclidean", axis=None, name=None: (lambda n: (convert(x) / n, n))(
        sqrt_(reduce_sum(square_(abs_(x)), axis=axis, keepdims=True)))
    tf.signal.ifft = ifft
    tf.identity_n = lambda xs, name=None: [convert(x) for x in xs]
    tf.shape_n = lambda xs, out_type=None, name=None: [tf.shape(x) for x in xs]
    tf.strided_slice = lambda x, begin, end, strides=None, **k: getitem(convert(x), tuple(
        slice(b, e, s) for b, e, s in zip(begin, end, strides or [1] * len(begin)))) if not k else _unsup("strided_slice masks")
    tf.tuple = lambda xs, **k: [convert(x) for x in xs]
    tf.name_scope = tf.control_dependencies = tf.init_scope = NullContext
    tf.group = tf.no_op = tf.print = tf.Assert = lambda *a, **k: None
    tf.executing_eagerly = lambda: True
    tf.get_static_value = lambda x, partial=False: None if not isinstance(x, STensor) or x.rank or x.elem(()).op != "c" else int(x.elem(()).args[0]) \
        if x.dtype.kind == "i" else x.elem(())
    bs = lambda a, b: bshape(as_shape(a), as_shape(b))
    tf.broadcast_static_shape = lambda a, b: SShape(bs(a, b))
    tf.broadcast_dynamic_shape = lambda a, b: convert(list(bs(a, b)), int32)
    tf.double, tf.int8 = float64, int32
    tf.saturate_cast = cast
    tf.dtypes.as_dtype, tf.dtypes.DType = as_dtype, DType
    for k in ("float32", "float64", "int32", "int64", "complex64", "complex128"):
        setattr(tf.dtypes, k, globals()[k])
    tf.dtypes.bool, tf.dtypes.complex = bool_, complex_
    tf.as_dtype = as_dtype
    for k in ("assert_greater_equal", "assert_non_negative", "assert_positive", "assert_none_equal", "assert_near", "assert_shapes", "assert_type",
              "assert_all_finite", "Assert", "assert_integer", "assert_scalar", "assert_negative", "assert_rank_at_least"):
        setattr(tf.debugging, k, lambda *a, **k: None)
    tf.debugging.check_numerics = lambda x, message=None, name=None: convert(x)
    tf.nest.flatten = lambda s: [y for x in (s.values() if isinstance(s, dict) else s) for y in tf.nest.flatten(x)] if isinstance(s, (list, tuple, dict)) else [s]
    tf.nn.relu = lambda x, name=None: maximum(x, zeros_like(x))


def _unsup(what):
    raise Unsupported(what)
