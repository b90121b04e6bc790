"""Executes the real OpenNTN sources against the symbolic TensorFlow stand-in.

Every run reads /repo/OpenNTN/*.py from the working tree; nothing of the package is copied,
rewritten or dropped.  What is substituted is the environment: tensorflow (symtf), numpy and math
(thin wrappers that accept Terms), sionna.phy (constants, Object, config, the small helpers listed
in SIONNA), matplotlib (no-op), importlib_resources.files (a path into /repo).
"""
import ast
import builtins
import math as _math
import os
import pathlib
import types
import numpy as rnp
from .terms import *
from . import terms as TT
from . import symtf
from .symtf import STensor, Cx, convert
from . import nparr

REPO = os.environ.get("NTN_REPO", "/repo")
PKG = "sionna.phy.channel.tr38811"


class _NoAbc:
    pass


# ------------------------------------------------------------------ math
def _sc(x):
    if isinstance(x, STensor):
        return x._scalar()
    return x


def _m(fsym, fnum):
    def f(*xs):
        xs = [_sc(x) for x in xs]
        if any(isinstance(x, Term) for x in xs):
            return fsym(*[const(x) for x in xs])
        r = fnum(*xs)
        return r
    return f


def make_math():
    m = symtf.Mod("math")
    m.pi = PI_T
    m.inf = float("inf")
    m.e = const(_math.e)
    # constants stay exact: everything goes through the symbolic constructors
    def sym(fs):
        return lambda *xs: fs(*[const(_sc(x)) for x in xs])
    m.sin, m.cos, m.exp, m.sqrt, m.atan, m.acos = map(sym, (sin, cos, exp, sqrt, atan, acos))
    m.tan = sym(TT.tan)
    m.atan2 = sym(atan2)
    m.log = lambda x, b=None: ln(const(_sc(x))) if b is None else div(ln(const(_sc(x))), ln(const(_sc(b))))
    m.log10 = sym(log10)
    m.pow = sym(power)
    m.radians = sym(lambda x: mul(x, PI_T, const(Fraction(1, 180))))
    m.degrees = sym(lambda x: div(mul(x, const(180)), PI_T))
    m.floor = sym(floor)
    m.ceil = sym(ceil)
    m.fabs = sym(absv)
    m.isclose = lambda a, b, **k: abs(const(_sc(a)) - const(_sc(b))) <= const(1e-9)
    return m


# ------------------------------------------------------------------ numpy
class NpStub(types.ModuleType):
    COMPARING = frozenset(["array_equal", "isin", "unique", "union1d", "intersect1d", "sort", "equal", "not_equal", "count_nonzero", "nonzero", "flatnonzero",
                           "less", "greater", "less_equal", "greater_equal"])

    def __init__(self):
        super().__init__("numpy")
        self.pi = PI_T
        sym = lambda fs: (lambda x, **k: self._el(fs, x))
        self.sin, self.cos, self.sqrt, self.exp = map(sym, (sin, cos, sqrt, exp))
        self.tan, self.arctan, self.arccos = map(sym, (TT.tan, atan, acos))
        self.log = sym(ln)
        self.log10 = sym(log10)
        self.deg2rad = sym(lambda x: mul(x, PI_T, const(Fraction(1, 180))))
        self.radians = self.deg2rad
        self.rad2deg = sym(lambda x: div(mul(x, const(180)), PI_T))
        self.abs = sym(absv)
        self.square = sym(lambda x: mul(x, x))
        self.power = lambda a, b: a ** b
        self.ndarray = rnp.ndarray
        self.absolute = self.fabs = self.abs
        self.arcsin = sym(lambda x: sub(div(PI_T, const(2)), acos(x)))
        self.sinh = sym(lambda x: div(sub(exp(x), exp(mul(const(-1), x))), const(2)))
        self.cosh = sym(lambda x: div(add(exp(x), exp(mul(const(-1), x))), const(2)))
        self.exp2 = sym(lambda x: TT.power(const(2), x))
        self.log2 = sym(lambda x: div(ln(x), ln(const(2))))
        self.log1p = sym(lambda x: ln(add(x, ONE)))
        self.expm1 = sym(lambda x: sub(exp(x), ONE))
        self.negative = sym(lambda x: mul(const(-1), x))
        self.sign = sym(lambda x: TT.ite(TT.lt(ZERO, x), ONE, TT.ite(TT.lt(x, ZERO), const(-1), ZERO)))
        self.degrees = self.rad2deg
        two = lambda fs: (lambda a, b, **k: self._el2(fs, a, b))
        self.maximum, self.minimum = two(TT.maxv), two(TT.minv)
        self.arctan2 = two(TT.atan2)
        self.hypot = two(lambda a, b: sqrt(add(mul(a, a), mul(b, b))))
        self.divide = self.true_divide = two(div)
        self.float_power = self.power
        self.clip = lambda x, lo, hi, **k: self.minimum(self.maximum(x, lo), hi)
        self.mean = lambda x, axis=None, **k: self.sum(x, axis=axis, **k) / (self.size(x) if axis is None else self.array(x).shape[axis])
        self.float32 = self.float64 = self.float_ = self.double = float
        self.int32 = self.int64 = self.int_ = int
        self.bool_ = bool
        self.inf, self.nan, self.e = float("inf"), float("nan"), exp(ONE)
        self.newaxis = None

    def _el2(self, fs, a, b):
        a, b = _sc(a), _sc(b)
        if nparr.is_sym([a, b]):
            raise Unsupported("numpy function of two arrays of symbolic size")
        if not any(isinstance(x, (list, tuple, rnp.ndarray)) for x in (a, b)):
            return fs(const(a), const(b))
        a, b = rnp.broadcast_arrays(self.array(a), self.array(b))
        out = rnp.empty(a.shape, dtype=object)
        for i in rnp.ndindex(*a.shape):
            out[i] = fs(const(a[i]), const(b[i]))
        return out

    def _el(self, fs, x):
        x = _sc(x)
        if isinstance(x, (list, tuple)):
            x = self.array(x)
        if isinstance(x, rnp.ndarray):
            out = rnp.empty(x.shape, dtype=object)
            for i in rnp.ndindex(*x.shape):
                out[i] = fs(const(x[i]))
            return out
        return fs(const(x))

    def zeros(self, shape, dtype=None):
        d = nparr.sym_dims(shape)
        if d is not None:
            return nparr.zeros(d)
        a = rnp.empty([int(s) for s in (shape if isinstance(shape, (list, tuple)) else [shape])], dtype=object)
        a[...] = ZERO
        return a

    empty = zeros

    def full(self, shape, v, dtype=None):
        return self.zeros(shape) + v

    def arange(self, *a, **k):
        b = [x._scalar() if isinstance(x, STensor) else x for x in a]
        if any(isinstance(x, Term) and canon(x).op != "c" for x in b):
            return nparr.arange(*a)
        return rnp.arange(*[int(canon(x).args[0]) if isinstance(x, Term) else x for x in b], **k)

    def ones(self, shape, dtype=None):
        d = nparr.sym_dims(shape)
        if d is not None:
            return nparr.zeros(d, ONE)
        a = self.zeros(shape)
        a[...] = ONE
        return a

    def array(self, x, dtype=None):
        if isinstance(x, STensor):
            if not all(isinstance(d, int) for d in x.dims):
                return nparr.SArr(x)
            return x.__array__()
        if nparr.is_sym(x):
            return nparr.call("array", [x], {})

        def flat(v):
            if isinstance(v, (list, tuple)):
                return any(flat(u) for u in v)
            return isinstance(v, (Term, STensor)) or (isinstance(v, rnp.ndarray) and v.dtype == object)
        if flat(x):
            def cv(v):
                if isinstance(v, (list, tuple)):
                    return [cv(u) for u in v]
                if isinstance(v, STensor):
                    return v.__array__().tolist() if v.rank else v.elem(())
                return v
            return rnp.array(cv(x), dtype=object)
        return rnp.array(x) if dtype is None else rnp.array(x, dtype=dtype)

    asarray = array

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("reshape", "sum", "prod", "tile", "repeat", "concatenate", "stack", "transpose",
                    "expand_dims", "where", "logical_and", "logical_not", "min", "max", "meshgrid", "ravel",
                    "mod", "floor_divide", "append", "ndindex", "cumsum", "ceil", "floor", "column_stack",
                    "hstack", "vstack", "linspace", "add", "multiply", "subtract", "int8", "squeeze",
                    "zeros_like", "ones_like", "divmod", "unravel_index", "delete", "setdiff1d", "flip", "split", "array_split",
                    "eye", "identity", "dot", "matmul", "outer", "kron", "roll", "take", "any", "all", "atleast_1d", "atleast_2d", "atleast_3d",
                    "broadcast_to", "swapaxes", "moveaxis", "size", "shape", "ndim", "isscalar", "copy", "diff", "einsum", "tensordot",
                    "full_like", "empty_like", "diag", "tril", "triu", "block", "array_equal", "count_nonzero", "nonzero", "flatnonzero",
                    "dstack", "full", "insert", "trace", "indices", "mgrid", "ogrid", "ix_", "arange", "remainder", "not_equal", "equal",
                    "less", "greater", "less_equal", "greater_equal", "logical_or", "cumprod", "union1d", "intersect1d", "isin", "unique", "sort"):
            g = getattr(rnp, name)
            if name in ("int8", "mgrid", "ogrid", "ix_"):
                return g

            def h(*a, **k):
                if nparr.is_sym(a) or nparr.is_sym(list(k.values())):
                    return nparr.call(name, a, k)
                if name in self.COMPARING and any(isinstance(x, Term) or isinstance(x, rnp.ndarray) and x.dtype == object for x in a):
                    raise Unsupported("numpy.%s of symbolic values" % name)
                return g(*a, **k)
            return h
        raise Unsupported("numpy.%s is outside the modelled subset" % name)


# ------------------------------------------------------------------ sionna
SIONNA = ["config.tf_rdtype/tf_cdtype/precision/tf_rng", "dtypes", "PI", "SPEED_OF_LIGHT", "block.Object",
          "utils.log10", "utils.expand_to_rank", "utils.insert_dims", "channel.ChannelModel",
          "channel.utils.deg_2_rad/rad_2_deg/wrap_angle_0_360"]


class _Rng:
    def uniform(self, shape, minval=0, maxval=None, dtype=symtf.float32, name=None):
        return symtf.random_uniform(shape, minval, maxval, dtype)

    def normal(self, shape, mean=0.0, stddev=1.0, dtype=symtf.float32, name=None):
        return symtf.random_normal(shape, mean, stddev, dtype)


class Config:
    def __init__(self):
        self.precision = "double"
        self.tf_rng = _Rng()

    @property
    def tf_rdtype(self): return DTYPES[self.precision]["tf"]["rdtype"]
    @property
    def tf_cdtype(self): return DTYPES[self.precision]["tf"]["cdtype"]


DTYPES = {"single": {"tf": {"rdtype": symtf.float32, "cdtype": symtf.complex64}},
          "double": {"tf": {"rdtype": symtf.float64, "cdtype": symtf.complex128}}}
CONFIG = Config()


class Object:
    def __init__(self, *args, precision=None, **kwargs):
        if precision is None:
            self._precision = CONFIG.precision
        elif precision in ("single", "double"):
            self._precision = precision
        else:
            raise ValueError("'precision' must be 'single' or 'double'")

    @property
    def precision(self): return self._precision
    @property
    def rdtype(self): return DTYPES[self._precision]["tf"]["rdtype"]
    @property
    def cdtype(self): return DTYPES[self._precision]["tf"]["cdtype"]


class ChannelModel(Object):
    def __init__(self, precision=None, **kwargs):
        super().__init__(precision=precision, **kwargs)


def s_log10(x):
    x = convert(x)
    return symtf.cast(symtf._unary(log10)(x), x.dtype)


def s_expand_to_rank(tensor, target_rank, axis=-1):
    t = convert(tensor)
    n = int(target_rank) - t.rank if not isinstance(target_rank, STensor) else int(target_rank._scalar()) - t.rank
    return s_insert_dims(t, max(n, 0), axis)


def s_insert_dims(tensor, num_dims, axis=-1):
    t = convert(tensor)
    if num_dims < 0:
        raise ValueError("num_dims must be nonnegative")
    a = axis if axis >= 0 else t.rank + axis + 1
    return STensor(t.dtype, t.dims[:a] + (1,) * num_dims + t.dims[a:], lambda idx: t.elem(idx[:a] + idx[a + num_dims:]))


def s_flatten_last_dims(tensor, num_dims=2):
    t = convert(tensor)
    if num_dims == t.rank:
        return symtf.reshape(t, [-1])
    k = t.rank - num_dims
    return symtf.reshape(t, list(t.dims[:k]) + [symtf._prod(t.dims[k:])])


def s_split_dim(tensor, shape, axis):
    t = convert(tensor)
    a = int(axis._scalar()) if isinstance(axis, STensor) else axis
    return symtf.reshape(t, list(t.dims[:a]) + list(shape) + list(t.dims[a + 1:]))


def s_deg_2_rad(x):
    return symtf._arith("mul", x, STensor(x.dtype, (), lambda i: mul(PI_T, const(Fraction(1, 180)))))


def s_rad_2_deg(x):
    return symtf._arith("mul", x, STensor(x.dtype, (), lambda i: div(const(180), PI_T)))


def s_wrap(x):
    return symtf._arith("mod", x, 360.0)


class _Any(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = pathlib.Path(self.repo) / "OpenNTN"
        self.mods = {}
        self.sources = {}
        self._build()

    def _m(self, name, **kw):
        m = symtf.Mod(name)
        for k, v in kw.items():
            setattr(m, k, v)
        self.mods[name] = m
        return m

    def _build(self):
        tf = symtf.build()
        self.tf = tf
        self.mods["tensorflow"] = tf
        self.np = NpStub()
        self.mods["numpy"] = self.np
        self.mods["math"] = make_math()
        PI_ = PI_T
        C = const(299792458)
        consts = self._m("sionna.phy.constants", PI=PI_, SPEED_OF_LIGHT=C)
        utils = self._m("sionna.phy.utils", log10=s_log10, expand_to_rank=s_expand_to_rank,
                        insert_dims=s_insert_dims, split_dim=s_split_dim, flatten_last_dims=s_flatten_last_dims)
        utils.tensors = self._m("sionna.phy.utils.tensors", insert_dims=s_insert_dims, expand_to_rank=s_expand_to_rank)
        block = self._m("sionna.phy.block", Object=Object, Block=Object)
        cu = self._m("sionna.phy.channel.utils", deg_2_rad=s_deg_2_rad, rad_2_deg=s_rad_2_deg, wrap_angle_0_360=s_wrap)
        chan = self._m("sionna.phy.channel", ChannelModel=ChannelModel, utils=cu,
                       deg_2_rad=s_deg_2_rad, rad_2_deg=s_rad_2_deg, wrap_angle_0_360=s_wrap)
        phy = self._m("sionna.phy", PI=PI_, SPEED_OF_LIGHT=C, config=CONFIG, dtypes=DTYPES, constants=consts, utils=utils,
                      block=block, channel=chan, Object=Object)
        self._m("sionna", phy=phy)
        plt = types.SimpleNamespace()
        mp = self._m("matplotlib", pyplot=plt)
        mp.markers = self._m("matplotlib.markers", MarkerStyle=None)
        self.mods["matplotlib.pyplot"] = plt
        ir = self._m("importlib_resources", files=self._files)
        self.mods["importlib.resources"] = ir

    def _files(self, pkg):
        return pathlib.Path(pkg.__dir__path)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        pkg = (globals or {}).get("__package__") or ""
        if level:
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            full = base + ("." + name if name else "")
        else:
            full = name
        if full == "OpenNTN" or full.startswith("OpenNTN."):
            full = PKG + full[len("OpenNTN"):]
        m = self.get(full)
        if m is None:
            if full.split(".")[0] in ("tensorflow", "sionna", "matplotlib", "scipy"):
                raise Unsupported("import of %s is outside the modelled environment" % full)
            return builtins.__import__(name, globals, locals, fromlist, level)
        if fromlist:
            for f in fromlist:
                if f != "*" and full.startswith(PKG):
                    if f not in m.__dict__:
                        sub = self.get(full + "." + f)
                        if sub is not None:
                            setattr(m, f, sub)
            return m
        return self.get(full.split(".")[0])

    def get(self, full):
        if full in self.mods:
            return self.mods[full]
        if full == PKG or full.startswith(PKG + "."):
            return self.load(full)
        return None

    def load(self, full):
        rel = full[len(PKG):].lstrip(".").replace(".", "/")
        base = self.root / rel if rel else self.root
        if base.is_dir():
            f = base / "__init__.py"
            pkg = full
        else:
            f = base.with_suffix(".py")
            pkg = full.rsplit(".", 1)[0]
        if not f.exists():
            return None
        m = types.ModuleType(full)
        m.__package__ = pkg
        m.__file__ = str(f)
        m.__dir__path = str(base if base.is_dir() else base.parent)
        if base.is_dir():
            m.__path__ = [str(base)]
        self.mods[full] = m
        src = f.read_text()
        self.sources[str(f)] = src
        b = dict(vars(builtins))
        b["__import__"] = self.imp
        b["print"] = lambda *a, **k: None
        b["int"] = SInt
        b["range"] = nparr.make_range(self.sources)
        m.__dict__["__builtins__"] = b
        try:
            exec(compile(src, str(f), "exec"), m.__dict__)
        except BaseException:
            self.mods.pop(full, None)
            raise
        if full != PKG:
            par, _, last = full.rpartition(".")
            pm = self.mods.get(par)
            if pm is not None:
                setattr(pm, last, m)
        return m


class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.int)
    def __subclasscheck__(cls, c): return issubclass(c, builtins.int)


class SInt(builtins.int, metaclass=_IntMeta):
    """int() that keeps integer-valued Terms symbolic"""
    def __new__(cls, x=0, *a):
        if isinstance(x, STensor):
            x = x._scalar()
        if isinstance(x, Term):
            if x.op == "c":
                return builtins.int(x.args[0])
            if isint(x):
                return x
            raise Unsupported("int() of a symbolic real")
        return builtins.int(x, *a)
