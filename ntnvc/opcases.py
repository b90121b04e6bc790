"""Operations of the modelled TensorFlow subset, each run on the model and on the real library (check.py --conform)."""
SIZES = {"N": 3, "M": 2, "K": 4}
C = []


def case(name, f, **inputs):
    C.append((name, f, inputs))


R = lambda *s: ("r", s)
X = lambda *s: ("c", s)
I = lambda *s: ("i", s)
B = lambda *s: ("b", s)
P = lambda *s: ("p", s)      # positive reals
U = lambda *s: ("u", s)      # within (-1, 1)

for op in ("add", "subtract", "multiply", "maximum", "minimum", "squared_difference"):
    case(op, (lambda op: lambda tf, x, y: getattr(tf.math, op)(x, y))(op), x=R("N", "M"), y=R("M"))
for op in ("divide", "floormod", "floordiv", "divide_no_nan", "truediv", "pow"):
    case(op, (lambda op: lambda tf, x, y: getattr(tf.math, op)(x, y))(op), x=P("N", 1), y=P("N", "M"))
for op in ("sin", "cos", "tan", "exp", "abs", "square", "negative", "floor", "ceil", "atan", "sign"):
    case(op, (lambda op: lambda tf, x: getattr(tf.math, op)(x))(op), x=R("N", "M"))
for op in ("log", "sqrt", "rsqrt", "log1p", "reciprocal"):
    case(op, (lambda op: lambda tf, x: getattr(tf.math, op)(x))(op), x=P("N", "M"))
for op in ("acos", "asin"):
    case(op, (lambda op: lambda tf, x: getattr(tf.math, op)(x))(op), x=U("N", "M"))
for op in ("real", "imag", "conj", "angle", "abs", "exp", "negative", "square"):
    case("complex " + op, (lambda op: lambda tf, x: getattr(tf.math, op)(x))(op), x=X("N", "M"))
case("complex sqrt", lambda tf, x: tf.sqrt(tf.complex(x, tf.zeros_like(x))), x=P("N"))
for op in ("add", "subtract", "multiply", "divide"):
    case("complex " + op, (lambda op: lambda tf, x, y: getattr(tf.math, op)(x, y))(op), x=X("N", "M"), y=X("M"))
for op in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
    case(op, (lambda op: lambda tf, x, y: getattr(tf, op)(x, y))(op), x=I("N", "M"), y=I("M"))
for op in ("logical_and", "logical_or", "logical_xor"):
    case(op, (lambda op: lambda tf, x, y: getattr(tf.math, op)(x, y))(op), x=B("N", "M"), y=B("N", 1))
case("logical_not", lambda tf, x: tf.logical_not(x), x=B("N"))
case("operators", lambda tf, x, y: (x + 2.) * y - x / 3. + 1. - (-y) + 2. / (y * y + 1.), x=R("N", "M"), y=R("N", 1))
case("mod operator", lambda tf, x: x % 360., x=R("N"))
case("int mod", lambda tf, x: x % 3, x=I("N"))
case("int floordiv", lambda tf, x: x // 3, x=I("N"))
case("power operator", lambda tf, x: x ** 2 + x ** 3, x=R("N"))
case("atan2", lambda tf, x, y: tf.math.atan2(x, y), x=R("N", "M"), y=R("M"))
case("complex", lambda tf, x, y: tf.complex(x, y), x=R("N"), y=R("N"))
case("clip", lambda tf, x: tf.clip_by_value(x, -1., 1.5), x=R("N", "M"))
case("where", lambda tf, c, x, y: tf.where(c, x, y), c=B("N", 1), x=R("N", "M"), y=R("M"))
case("where complex", lambda tf, c, x, y: tf.where(c, x, y), c=B("N"), x=X("N"), y=X("N"))
case("cast bool", lambda tf, c: tf.cast(c, tf.float64), c=B("N"))
case("cast to int", lambda tf, x: tf.cast(x, tf.int32), x=R("N"))
case("cast to complex", lambda tf, x: tf.cast(x, tf.complex128), x=R("N"))
case("cast int", lambda tf, x: tf.cast(x, tf.float64) / 7., x=I("N"))
case("is_nan", lambda tf, x: tf.math.is_nan(x), x=R("N"))
for op in ("reduce_sum", "reduce_mean", "reduce_max", "reduce_min"):
    case(op, (lambda op: lambda tf, x: getattr(tf, op)(x))(op), x=R("N", "M"))
    case(op + " axis", (lambda op: lambda tf, x: getattr(tf, op)(x, axis=1, keepdims=True))(op), x=R("N", "M", 2))
    case(op + " axes", (lambda op: lambda tf, x: getattr(tf, op)(x, axis=[0, -1]))(op), x=R("N", "M", 2))
case("complex reduce_sum", lambda tf, x: tf.reduce_sum(x, axis=0), x=X("N", "M"))
case("reduce_any", lambda tf, x: tf.reduce_any(x, axis=1), x=B("N", "M"))
case("reduce_all", lambda tf, x: tf.reduce_all(x, axis=0), x=B("N", "M"))
case("reduce_prod", lambda tf, x: tf.reduce_prod(x, axis=-1), x=R("N", 3))
case("cumsum", lambda tf, x: tf.cumsum(x, axis=1), x=R("N", "M"))
case("cumsum exclusive", lambda tf, x: tf.math.cumsum(x, axis=0, exclusive=True), x=R("N", "M"))
case("norm", lambda tf, x: tf.norm(x, axis=-1), x=R("N", 3))
case("norm 1", lambda tf, x: tf.norm(x, ord=1, axis=-1), x=R("N", 3))
case("norm inf", lambda tf, x: tf.norm(x, ord=float("inf"), axis=-1), x=R("N", 3))
case("euclidean norm", lambda tf, x: tf.math.reduce_euclidean_norm(x, 1, True), x=R("N", 3))
case("keyword reduce", lambda tf, x: tf.reduce_sum(input_tensor=x, axis=0), x=R("N", 3))
case("keyword arith", lambda tf, x, y: tf.add(x=x, y=tf.multiply(x=x, y=y)), x=R("N", 3), y=R("N", 3))
case("keyword subtract", lambda tf, x, y: tf.subtract(y=x, x=y), x=R("N", 3), y=R("N", 3))
case("keyword complex", lambda tf, x, y: tf.complex(imag=x, real=y), x=R("N", 3), y=R("N", 3))
case("keyword unstack", lambda tf, x: tf.unstack(value=x, num=3, axis=-1)[2], x=R("N", 3))
case("keyword expand", lambda tf, x: tf.expand_dims(input=x, axis=1), x=R("N", 3))
case("keyword transpose", lambda tf, x: tf.transpose(a=x, perm=[1, 0]), x=R("N", 3))
case("keyword clip", lambda tf, x: tf.clip_by_value(x, clip_value_min=-0.5, clip_value_max=0.5), x=R("N", 3))
case("keyword where", lambda tf, x, y: tf.where(condition=tf.less(x=x, y=y), x=x, y=y), x=R("N", 3), y=R("N", 3))
case("keyword reshape", lambda tf, x: tf.reshape(tensor=x, shape=[3, -1]), x=R("N", 3))
case("np swapaxes", lambda tf, x: tf.experimental.numpy.swapaxes(x, 0, -1), x=R("N", 3, "M"))
case("np moveaxis", lambda tf, x: tf.experimental.numpy.moveaxis(x, 0, 1), x=R("N", 3, "M"))
case("np moveaxis two", lambda tf, x: tf.experimental.numpy.moveaxis(x, [0, 1], [-1, 0]), x=R("N", 3, "M"))
case("np sum", lambda tf, x: tf.experimental.numpy.sum(x, axis=1), x=R("N", 3, "M"))
case("sort first", lambda tf, x: tf.sort(1.0 - 2.0 * x, axis=-1)[:, 0], x=R("N", 4))
case("sort last", lambda tf, x: tf.sort(1.0 - 2.0 * x, axis=-1, direction="DESCENDING")[:, 3], x=R("N", 4))
case("sort by minus", lambda tf, x, y: tf.gather(y, tf.argsort(3.0 - 2.0 * x, axis=-1), batch_dims=1), x=R("N", 4), y=R("N", 4))
case("gather first", lambda tf, x: tf.gather(5.0 - x, tf.argsort(2.0 * x, axis=-1), batch_dims=1)[:, :1], x=R("N", 4))
case("top value", lambda tf, x: tf.math.top_k(x - 1.0, k=1)[0], x=R("N", 4))
case("keyword tile", lambda tf, x: tf.tile(input=x, multiples=[2, 1]), x=R("N", 3))
case("shape type", lambda tf, x: tf.shape(x, out_type=tf.int64), x=R("N", 3))
case("size type", lambda tf, x: tf.size(input=x, out_type=tf.int64), x=R("N", 3))
case("norm keepdims", lambda tf, x: tf.norm(x, axis=0, keepdims=True), x=R(3, "N"))
case("expand_dims", lambda tf, x: tf.expand_dims(x, axis=-2), x=R("N", "M"))
case("squeeze", lambda tf, x: tf.squeeze(x, axis=[1, -1]), x=R("N", 1, "M", 1))
case("squeeze all", lambda tf, x: tf.squeeze(x), x=R(3, 1, 2, 1))
case("stack", lambda tf, x, y: tf.stack([x, y, x + y], axis=1), x=R("N", "M"), y=R("N", "M"))
case("stack last", lambda tf, x, y: tf.stack([x, y], axis=-1), x=X("N", "M"), y=X("N", "M"))
case("unstack", lambda tf, x: tf.unstack(x, axis=-1)[1], x=R("N", 3))
case("concat", lambda tf, x, y: tf.concat([x, y], axis=1), x=R("N", "M"), y=R("N", "K"))
case("concat three", lambda tf, x, y: tf.concat([x, y, x], -1), x=R("N", "M"), y=R("N", 1))
case("transpose", lambda tf, x: tf.transpose(x, [2, 0, 1]), x=R("N", "M", "K"))
case("transpose default", lambda tf, x: tf.transpose(x), x=R("N", "M", "K"))
case("matrix_transpose", lambda tf, x: tf.linalg.matrix_transpose(x), x=R("N", "M", "K"))
case("adjoint", lambda tf, x: tf.linalg.adjoint(x), x=X("N", "M", "K"))
case("reshape flatten", lambda tf, x: tf.reshape(x, [-1]), x=R("N", 2))
case("reshape split", lambda tf, x: tf.reshape(x, [tf.shape(x)[0], 3, 2]), x=R("N", 6))
case("reshape merge", lambda tf, x: tf.reshape(x, [tf.shape(x)[0], -1]), x=R("N", 3, 2))
case("tile", lambda tf, x: tf.tile(x, [1, 3, 1]), x=R("N", 1, "M"))
case("tile sizes", lambda tf, x: tf.tile(x, [1, tf.shape(x)[0]]), x=R("N", 2))
case("repeat", lambda tf, x: tf.repeat(x, 2, axis=1), x=R("N", "M"))
case("broadcast_to", lambda tf, x: tf.broadcast_to(x, [4, tf.shape(x)[0], tf.shape(x)[1]]), x=R("N", "M"))
case("slices", lambda tf, x: x[:, 1:, ::-1][..., tf.newaxis, 0], x=R("N", "M", 3))
case("slices 2", lambda tf, x: x[..., :-1] + x[..., 1:], x=R("N", "K"))
case("strides", lambda tf, x: x[:, ::2], x=R("N", 5))
case("gather", lambda tf, x, i: tf.gather(x, i, axis=1), x=R("N", 4), i=("j4", ("M",)))
case("gather batch", lambda tf, x, i: tf.gather(x, i, axis=1, batch_dims=1), x=R("N", 4), i=("j4", ("N", "M")))
case("gather_nd", lambda tf, x, i: tf.gather_nd(x, i), x=R(4, 4, "N"), i=("j4", ("M", 2)))
case("matmul", lambda tf, x, y: tf.matmul(x, y), x=R("N", "M", "K"), y=R("K", 2))
case("matmul transposed", lambda tf, x, y: tf.matmul(x, y, transpose_a=True, transpose_b=True), x=R("K", "M"), y=R("N", "K"))
case("matmul adjoint", lambda tf, x, y: tf.matmul(x, y, adjoint_b=True), x=X("M", "K"), y=X("N", "K"))
case("matmul adjoint a", lambda tf, x, y: tf.linalg.matmul(x, y, adjoint_a=True), x=X("K", "M"), y=X("K", "N"))
case("matmul operator", lambda tf, x, y: x @ y, x=R("N", "M"), y=R("M", "K"))
case("matvec", lambda tf, x, y: tf.linalg.matvec(x, y), x=R("N", "M", "K"), y=R("N", "K"))
case("einsum", lambda tf, x, y: tf.einsum("bij,bj->bi", x, y), x=R("N", "M", "K"), y=R("N", "K"))
case("einsum ellipsis", lambda tf, x, y: tf.einsum("...ij,...jk->...ik", x, y), x=R("N", 3, "M"), y=R(1, "M", 2))
case("tensordot", lambda tf, x, y: tf.tensordot(x, y, axes=1), x=R("N", "M"), y=R("M", "K"))
case("tensordot axes", lambda tf, x, y: tf.tensordot(x, y, axes=[[0, 2], [1, 0]]), x=R("N", "M", "K"), y=R("K", "N"))
case("cross", lambda tf, x, y: tf.linalg.cross(x, y), x=R("N", 3), y=R("N", 3))
case("diag_part", lambda tf, x: tf.linalg.diag_part(x), x=R("N", "M", "M"))
case("diag", lambda tf, x: tf.linalg.diag(x), x=R("N", "M"))
case("trace", lambda tf, x: tf.linalg.trace(x), x=R("N", 3, 3))
case("eye", lambda tf, x: tf.eye(tf.shape(x)[0], dtype=tf.float64) * x[:, tf.newaxis], x=R("N"))
case("range", lambda tf, x: tf.range(tf.shape(x)[0]), x=R("N"))
case("range real", lambda tf, x: tf.range(1., 4., 1., dtype=tf.float64) * x[0], x=R("N"))
case("linspace", lambda tf, x: tf.linspace(x[0], x[1], 5), x=R(3))
case("meshgrid", lambda tf, x, y: tf.meshgrid(x, y)[0], x=R("N"), y=R("M"))
case("meshgrid ij", lambda tf, x, y: tf.meshgrid(x, y, indexing="ij")[1], x=R("N"), y=R("M"))
case("roll", lambda tf, x: tf.roll(x, 1, axis=1), x=R("N", "K"))
case("reverse", lambda tf, x: tf.reverse(x, [1]), x=R("N", "K"))
case("one_hot", lambda tf, i: tf.one_hot(i, 4, dtype=tf.float64), i=("j4", ("N",)))
case("pad", lambda tf, x: tf.pad(x, [[0, 0], [1, 2]]), x=R("N", "M"))
case("split", lambda tf, x: tf.split(x, [1, 2], axis=1)[1], x=R("N", 3))
case("split equal", lambda tf, x: tf.split(x, 2, axis=-1)[1], x=R("N", 4))
case("sort", lambda tf, x: tf.sort(x, axis=-1), x=R("N", 4))
case("sort descending", lambda tf, x: tf.sort(x, axis=1, direction="DESCENDING"), x=R("N", 4))
case("argsort gather", lambda tf, x: tf.gather(x, tf.argsort(x, axis=-1), batch_dims=1, axis=1), x=R("N", 4))
case("map_fn", lambda tf, x: tf.map_fn(lambda r: r * tf.reduce_sum(r), x), x=R("N", "M"))
case("vectorized_map", lambda tf, x, y: tf.vectorized_map(lambda a: tf.linalg.matvec(a[0], a[1]), (x, y)), x=R("N", "M", "K"), y=R("N", "K"))
case("zeros ones fill", lambda tf, x: tf.zeros_like(x) + tf.ones_like(x) * 2. + tf.fill(tf.shape(x), tf.constant(3., tf.float64)), x=R("N", "M"))
case("scatter_nd", lambda tf, x: tf.scatter_nd([[1], [3]], x, [5, tf.shape(x)[1]]), x=R(2, "N"))
case("add_n", lambda tf, x, y: tf.add_n([x, y, x]), x=R("N"), y=R("N"))
case("cond", lambda tf, x: tf.cond(tf.reduce_all(tf.equal(tf.shape(x), tf.shape(x))), lambda: x, lambda: -x), x=R("N"))
case("bessel_j1", lambda tf, x: tf.math.special.bessel_j1(x), x=R("N"))
case("fft", lambda tf, x: tf.signal.fft(x), x=X("N", 4))
case("fftshift", lambda tf, x: tf.signal.fftshift(x, axes=-1), x=X("N", 5))
case("sinc", lambda tf, x: tf.experimental.numpy.sinc(x), x=R("N"))
case("toeplitz", lambda tf, x: tf.linalg.LinearOperatorToeplitz(x, tf.math.conj(x) + tf.complex(x[..., :1] - x[..., :1], tf.zeros_like(x[..., :1])) if False else tf.concat([x[..., :1], tf.math.conj(x)[..., 1:]], -1)).to_dense(), x=X("M", 4))
case("size rank", lambda tf, x: tf.size(x) + tf.rank(x), x=R("N", "M"))
case("reduce_sum shape", lambda tf, x: tf.reduce_prod(tf.shape(x)), x=R("N", 3))
case("top_k", lambda tf, x: tf.math.top_k(x, k=3)[0], x=R("N", 4))
case("top_k indices", lambda tf, x: tf.gather(x, tf.nn.top_k(x, tf.shape(x)[-1])[1], batch_dims=1), x=R("N", 4))
case("complex polar", lambda tf, x, r: tf.complex(r * tf.cos(x), r * tf.sin(x)) * tf.complex(tf.cos(2. * x), -tf.sin(2. * x)), x=R("N"), r=R("N"))
case("complex polar negative", lambda tf, x, r: tf.complex(r * tf.cos(x), -r * tf.sin(x)), x=R("N"), r=R("N"))
case("scatter_nd deep", lambda tf, x: tf.scatter_nd([[1, 0], [3, 1]], x, [5, 2, tf.shape(x)[1]]), x=R(2, "N"))
case("scatter_nd lead", lambda tf, x: tf.scatter_nd([[[1], [3]], [[0], [1]]], x, [5]), x=R(2, 2))
case("scatter_nd complex", lambda tf, x: tf.scatter_nd([[1], [1]], x, [3, tf.shape(x)[1]]), x=X(2, "N"))
case("scatter update", lambda tf, x, y: tf.tensor_scatter_nd_update(x, [[0, 1], [1, 1]], y), x=R(3, 3, "N"), y=R(2, "N"))
case("scatter add", lambda tf, x, y: tf.tensor_scatter_nd_add(x, [[0, 1], [0, 1]], y), x=R(3, 3, "N"), y=R(2, "N"))
case("reduce_std", lambda tf, x: tf.math.reduce_std(x, axis=1), x=R("N", "M"))
case("reduce_variance", lambda tf, x: tf.math.reduce_variance(x, axis=0, keepdims=True), x=R("N", "M"))
case("reduce_logsumexp", lambda tf, x: tf.reduce_logsumexp(x, axis=-1), x=R("N", "M"))
case("softmax", lambda tf, x: tf.nn.softmax(x), x=R("N", "M"))
case("set_diag", lambda tf, x, y: tf.linalg.set_diag(x, y), x=R("N", "M", "M"), y=R("N", "M"))
case("band_part", lambda tf, x: tf.linalg.band_part(x, -1, 0) + tf.linalg.band_part(x, 1, 2), x=R("N", "K", "K"))
case("argmax", lambda tf, x: tf.gather(x, tf.argmax(x, axis=1), batch_dims=1), x=R("N", 4))
case("argmin", lambda tf, x: tf.cast(tf.argmin(x, axis=0), tf.float64), x=R(3, "N"))
case("sequence_mask", lambda tf, i, x: tf.sequence_mask(i, tf.shape(x)[0], tf.float64) * x, i=("j4", ("N",)), x=R("K"))
case("slice", lambda tf, x: tf.slice(x, [1, 0], [-1, 2]), x=R("N", 3))
case("polyval", lambda tf, x: tf.math.polyval([tf.constant(c, tf.float64) for c in (2.0, -1.0, 0.5)], x), x=R("N"))
case("round", lambda tf, x: tf.round(3. * x), x=R("N"))
case("expm1 tanh", lambda tf, x: tf.math.expm1(x) + tf.tanh(x) + tf.sinh(x) * tf.cosh(x), x=R("N"))
case("multiply_no_nan", lambda tf, x, y: tf.math.multiply_no_nan(x, y), x=R("N"), y=R("N"))
case("cumsum reverse", lambda tf, x: tf.cumsum(x, axis=1, reverse=True, exclusive=True), x=R("N", "M"))
case("nest", lambda tf, x, y: tf.nest.map_structure(lambda a: 2. * a, (x, y))[1], x=R("N"), y=R("M"))
case("experimental numpy", lambda tf, x: tf.experimental.numpy.deg2rad(x) + tf.experimental.numpy.hypot(x, x), x=R("N"))
# Sionna's helpers, replaced by the model
case("sionna expand_to_rank", lambda tf, x: tf.ntn.expand_to_rank(x, 5, 1), x=R("N", "M"))
case("sionna expand_to_rank 0", lambda tf, x: tf.ntn.expand_to_rank(x, tf.rank(x) + 2, 0), x=R("N", "M"))
case("sionna insert_dims", lambda tf, x: tf.ntn.insert_dims(x, 2, 1), x=R("N", "M"))
case("sionna insert_dims last", lambda tf, x: tf.ntn.insert_dims(x, 3, -1), x=R("N", "M"))
case("sionna flatten_last_dims", lambda tf, x: tf.ntn.flatten_last_dims(x, 2), x=R("N", 3, 2))
case("sionna split_dim", lambda tf, x: tf.ntn.split_dim(x, [3, 2], 1), x=R("N", 6, "M"))
case("sionna log10", lambda tf, x: tf.ntn.log10(x), x=P("N"))
case("sionna deg_2_rad", lambda tf, x: tf.ntn.deg_2_rad(x), x=R("N"))
case("sionna rad_2_deg", lambda tf, x: tf.ntn.rad_2_deg(x), x=R("N"))
case("sionna wrap_angle_0_360", lambda tf, x: tf.ntn.wrap_angle_0_360(x * 300.), x=R("N"))
case("sionna constants", lambda tf, x: x * tf.ntn.PI + x / tf.ntn.SPEED_OF_LIGHT, x=R("N"))

case("scalar_mul", lambda tf, x: tf.scalar_mul(3., x), x=R("N"))
case("reciprocal_no_nan", lambda tf, x: tf.math.reciprocal_no_nan(x), x=P("N"))
case("count_nonzero", lambda tf, c: tf.cast(tf.math.count_nonzero(c, axis=0), tf.float64), c=B("N", "M"))
case("cumprod", lambda tf, x: tf.math.cumprod(x, axis=1), x=R("N", 3))
case("cumprod exclusive", lambda tf, x: tf.math.cumprod(x, axis=0, exclusive=True), x=R(3, "N"))
case("sigmoid", lambda tf, x: tf.math.sigmoid(x), x=R("N"))
case("foldl", lambda tf, x: tf.foldl(lambda a, y: a * 0.5 + y, x), x=R(3, "N"))
case("foldr", lambda tf, x: tf.foldr(lambda a, y: a * 0.5 + y, x), x=R(3, "N"))
case("scan", lambda tf, x: tf.scan(lambda a, y: a * 0.5 + y, x), x=R(3, "N"))
case("scan init", lambda tf, x: tf.scan(lambda a, y: a * 0.5 + y, x, tf.ones_like(x[0])), x=R(3, "N"))
case("while_loop", lambda tf, x: tf.while_loop(lambda i, y: i < 3, lambda i, y: [i + 1, y * 1.5 + tf.cast(i, y.dtype)], [tf.constant(0), x])[1], x=R("N"))
case("det2", lambda tf, x: tf.linalg.det(x), x=R("N", 2, 2))
case("det3", lambda tf, x: tf.linalg.det(x), x=R("N", 3, 3))
case("normalize", lambda tf, x: tf.linalg.normalize(x, axis=-1)[0], x=P("N", 3))
case("ifft", lambda tf, x: tf.signal.ifft(x), x=X("M", 4))
case("strided_slice", lambda tf, x: tf.strided_slice(x, [0, 1], [2, 4], [1, 2]), x=R("N", 4))
case("broadcast_dynamic_shape", lambda tf, x, y: tf.broadcast_to(x, tf.broadcast_dynamic_shape(tf.shape(x), tf.shape(y))), x=R("N", 1), y=R("N", "M"))
