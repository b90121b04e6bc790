"""C30, C31 - frequency and time grids, responses computed from impulse responses, correlation matrices"""
from ntnvc.registry import contract
from contracts.common import *

U = "utils."


@contract("C31", "subcarriers", [U + "subcarrier_frequencies"], runs=(12, 60))
def subcarriers(e):
    """subcarrier k of N has the baseband frequency (k - floor(N/2)) times the spacing, for even and odd N"""
    N = e.dim("N", sample=9)
    df = e.scalar("spacing", 1, 1e6)
    p = e.choose("precision", [None, "single", "double"])
    f = e.mod("utils").subcarrier_frequencies(N, df, precision=p)
    e.shape_is("frequencies", f, (N,))
    e.forall("frequency", (N,), lambda k: e.eq(e.at(f, k), (k - e.idiv(N, 2)) * df, tol=1e-5))


@contract("C31", "grids", [U + "time_frequency_vector"], runs=(12, 60))
def grids(e):
    """the time grid of N samples is (k - floor(N/2)) T, the frequency grid (k - floor(N/2)) / (N T)"""
    half = e.dim("half", sample=5)
    odd = e.choose("parity", [0, 1])
    N = half + half + odd
    T = e.scalar("T", 1e-9, 1, sample=(1e-3, 1.))
    p = e.choose("precision", [None, "double"])
    t, f = e.mod("utils").time_frequency_vector(N, T, precision=p)
    e.shape_is("time", t, (N,))
    e.shape_is("frequency", f, (N,))
    e.forall("time", (N,), lambda k: e.eq(e.at(t, k), (k - half) * T, tol=1e-5))
    e.forall("frequency", (N,), lambda k: e.eq(e.at(f, k), e.div(k - half, N * T), tol=1e-5))


@contract("C31", "lags", [U + "time_lag_discrete_time_channel"], runs=(12, 60))
def lags(e):
    """the taps of a channel of maximum delay spread tau sampled at W run from -6 to ceil(W tau) + 6"""
    W = e.scalar("W", 1, 1e9, sample=(1e5, 1e8))
    tau = e.scalar("tau", 0, 1, sample=(1e-7, 1e-5))
    lo, hi = e.mod("utils").time_lag_discrete_time_channel(W, tau)
    e.ensure("first tap", e.eq(e.value(lo), -6))
    h = e.value(hi) - 6
    e.ensure("last tap", e.and_(e.le(W * tau * e.num("0.999999"), h), e.lt(h, W * tau * e.num("1.000001") + 1)))


def impulse(e, dims, six):
    B, RX, RA, TX, TA, L, T = dims
    a = e.tensor("a", dims, kind="c", sample=(-1., 1.))
    td = (B, RX, RA, TX, TA, L) if six else (B, RX, TX, L)
    tau = e.tensor("tau", td, 0, 1, sample=(0., 2.))
    at = (lambda b, r, ra, t, ta, l: e.at(tau, b, r, ra, t, ta, l)) if six else (lambda b, r, ra, t, ta, l: e.at(tau, b, r, t, l))
    return a, tau, at


NAMES = ("B", "RX", "RA", "TX", "TA", "L", "T")


@contract("C31", "ofdm", [U + "cir_to_ofdm_channel"], runs=(12, 80))
def ofdm(e):
    """the response on subcarrier f is the sum over the paths of their coefficients rotated by exp(-j 2 pi f tau), with one delay per link or one
    per antenna pair"""
    dims = tuple(e.dim(n) for n in NAMES)
    N = e.dim("N")
    a, tau, at = impulse(e, dims, e.flag("per_antenna"))
    f = e.tensor("f", (N,), sample=(-5., 5.))
    h = e.mod("utils").cir_to_ofdm_channel(f, a, tau)
    out = dims[:5] + (dims[6], N)
    e.shape_is("response", h, out)
    e.forall("response", out, lambda b, r, ra, t, ta, k, n: e.eq(e.at(h, b, r, ra, t, ta, k, n), e.sum(dims[5], lambda l: e.at(
        a, b, r, ra, t, ta, l, k) * e.cis(-2 * e.pi * e.at(f, n) * at(b, r, ra, t, ta, l))), tol=2e-3))


@contract("C31", "taps", [U + "cir_to_time_channel"], runs=(12, 80))
def taps(e):
    """tap l of the discrete-time channel of bandwidth W is the sum over the paths of their coefficients times sinc(l - W tau)"""
    dims = tuple(e.dim(n) for n in NAMES)
    a, tau, at = impulse(e, dims, e.flag("per_antenna"))
    W = e.scalar("W", 0.1, 1e9, sample=(0.5, 3.))
    lo = e.scalar("l_min", -6, 0, kind="i")
    hi = e.scalar("l_max", 0, 6, kind="i")
    h = e.mod("utils").cir_to_time_channel(W, a, tau, lo, hi)
    out = dims[:5] + (dims[6], hi - lo + 1)
    e.shape_is("response", h, out)

    def sinc(x):
        return e.ite(e.eq(x, 0), e.num(1), e.div(e.sin(e.pi * x), e.pi * x)) if e.symbolic else (1. if abs(x) < 1e-9 else float(e.sin(e.pi * x) / (e.pi * x)))
    e.forall("response", out, lambda b, r, ra, t, ta, k, n: e.eq(e.at(h, b, r, ra, t, ta, k, n), e.sum(dims[5], lambda l: e.at(
        a, b, r, ra, t, ta, l, k) * sinc(n + lo - at(b, r, ra, t, ta, l) * W)), tol=2e-3))


@contract("C31", "normalised", [U + "cir_to_ofdm_channel", U + "cir_to_time_channel"], runs=(12, 80))
def normalised(e):
    """the normalised response of each link is its response divided by the root of its mean energy over antennas, time and subcarriers
    (summed over taps), so that this mean becomes one; a vanishing link stays zero"""
    dims = tuple(e.dim(n) for n in NAMES)
    B, RX, RA, TX, TA, L, T = dims
    a, tau, at = impulse(e, dims, False)
    which = e.choose("response", ["ofdm", "time"])
    ut = e.mod("utils")
    if which == "ofdm":
        N = e.dim("N")
        f = e.tensor("f", (N,), sample=(-5., 5.))
        h0, h1 = ut.cir_to_ofdm_channel(f, a, tau), ut.cir_to_ofdm_channel(f, a, tau, normalize=True)
        cnt = RA * TA * T * N
    else:
        N = 4
        h0, h1 = ut.cir_to_time_channel(1.5, a, tau, -1, 2), ut.cir_to_time_channel(1.5, a, tau, -1, 2, normalize=True)
        cnt = RA * TA * T
    e.shape_is("response", h1, dims[:5] + (T, N))

    def en(h, b, r, t):
        def abs2(x):
            return e.re(x) * e.re(x) + e.im(x) * e.im(x)
        return e.div(e.sum(RA, lambda ra: e.sum(TA, lambda ta: e.sum(T, lambda k: e.sum(N, lambda n: abs2(e.at(h, b, r, ra, t, ta, k, n)))))), cnt)
    e.forall("scaling", dims[:5] + (T, N), lambda b, r, ra, t, ta, k, n: e.eq(
        e.at(h1, b, r, ra, t, ta, k, n) * e.sqrt(en(h0, b, r, t)), e.at(h0, b, r, ra, t, ta, k, n), tol=2e-3),
        hyp=lambda b, r, ra, t, ta, k, n: e.lt(e.num("0.0001"), en(h0, b, r, t)))
    if not e.symbolic:
        e.forall("unit mean energy", (B, RX, TX), lambda b, r, t: e.eq(en(h1, b, r, t), 1, tol=1e-3), hyp=lambda b, r, t: en(h0, b, r, t) > 1e-4)


class Grid:
    def __init__(self, n, cp, syms):
        self.fft_size, self.cyclic_prefix_length, self.num_time_samples = n, cp, syms * (n + cp)


@contract("C31", "time_to_ofdm", [U + "time_to_ofdm_channel"], runs=(16, 100))
def time_to_ofdm(e):
    """the response of OFDM symbol k on subcarrier n is the Fourier transform of the taps at the first sample behind the cyclic prefix of that
    symbol, tap l counted from l_min, subcarriers centred"""
    L, n = e.dim("L"), e.dim("n", sample=5)
    e.assume(L <= n)
    cp, S, B = e.dim("cp", lo=0), e.dim("S"), e.dim("B")
    lo = -e.dim("lead", lo=0)
    g = Grid(n, cp, S)
    h = e.tensor("h", (B, g.num_time_samples, L), kind="c", sample=(-1., 1.))
    y = e.mod("utils").time_to_ofdm_channel(h, g, lo)
    e.shape_is("response", y, (B, S, n))
    e.forall("response", (B, S, n), lambda b, k, m: e.eq(e.at(y, b, k, m), e.sum(L, lambda l: e.at(
        h, b, cp + k * (n + cp), l) * e.cis(e.div(-2 * e.pi * (m - e.idiv(n, 2)) * (l + lo), n))), tol=2e-3))


@contract("C30", "one_ring", [U + "one_ring_corr_mat"], runs=(12, 80))
def one_ring(e):
    """entry (l, m) of the one-ring covariance of a linear array is exp(j d (l-m) sin(phi)) exp(-(sigma d (l-m) cos(phi))^2 / 2), d = 2 pi times the
    spacing in wavelengths: Hermitian with unit diagonal"""
    B, N = e.dim("B"), e.dim("N", sample=5)
    phi = e.tensor("phi", (B,), -180, 180)
    sg = e.scalar("sigma", 0, 15)
    dh = e.scalar("spacing", 0.1, 2)
    r = e.mod("utils").one_ring_corr_mat(phi, N, d_h=dh, sigma_phi_deg=sg, precision=e.choose("precision", [None, "single"]))
    e.shape_is("covariance", r, (B, N, N))

    def want(b, l, m):
        d = 2 * e.pi * dh * (l - m)
        x = e.deg(sg) * d * e.cos(e.deg(e.at(phi, b)))
        return e.cis(d * e.sin(e.deg(e.at(phi, b)))) * e.exp(-x * x / 2)
    e.forall("entry", (B, N, N), lambda b, l, m: e.eq(e.at(r, b, l, m), want(b, l, m), tol=2e-3))


@contract("C30", "exponential", [U + "exp_corr_mat"], runs=(12, 80))
def exponential(e):
    """the exponential correlation matrix has a^(i-j) below the diagonal, ones on it (also for a = 0) and the conjugates above it"""
    B, N = e.dim("B"), e.dim("N", sample=5)
    re = e.tensor("re", (B,), -0.7, 0.7)
    im = e.tensor("im", (B,), -0.7, 0.7)
    zero = e.flag("zero")
    tf = e.tf
    a = tf.complex(re, im)
    if zero:
        a = tf.zeros_like(a)
    r = e.mod("utils").exp_corr_mat(a, N)
    e.shape_is("correlation", r, (B, N, N))
    e.forall("unit diagonal", (B, N), lambda b, i: e.eq(e.at(r, b, i, i), e.cx(e.num(1), e.num(0))))
    e.forall("Hermitian", (B, N, N), lambda b, i, j: e.and_(e.eq(e.re(e.at(r, b, i, j)), e.re(e.at(r, b, j, i))),
                                                           e.eq(e.im(e.at(r, b, i, j)), -e.im(e.at(r, b, j, i)))))
    if zero:
        e.forall("vanishing coefficient", (B, N, N), lambda b, i, j: e.eq(e.at(r, b, i, j), e.num(0)), hyp=lambda b, i, j: e.lt(j, i))
    else:
        def mag(b):
            return e.sqrt(e.at(re, b) * e.at(re, b) + e.at(im, b) * e.at(im, b))
        e.forall("geometric decay", (B, N, N), lambda b, i, j: e.eq(e.at(r, b, i, j), e.pow(mag(b), i - j) * e.cis(
            (i - j) * e.atan2(e.at(im, b), e.at(re, b))), tol=1e-3), hyp=lambda b, i, j: e.and_(e.lt(j, i), e.lt(e.num("0.001"), mag(b))))
