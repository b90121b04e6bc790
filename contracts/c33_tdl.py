"""C33 - tapped delay lines"""
from ntnvc.registry import contract
from contracts.common import *

T = "TDL."
# TR 38.811 tables 6.9.2-1 to 4 (delays in units of the delay spread, powers in dB); the first entry of a LoS model is its specular part
REF = {
    "A": (False, [0.0, 1.0811, 2.8416], [0.0, -4.675, -6.482]),
    "B": (False, [0.0, 0.7249, 0.7410, 5.7392], [0.0, -1.973, -4.332, -11.914]),
    "C": (True, [0.0, 0.0, 14.8124], [-0.394, -10.618, -23.373]),
    "D": (True, [0.0, 0.0, 0.5596, 7.3340], [-0.284, -11.991, -9.887, -16.771]),
    "A30": (False, [0.0, 10.0, 15.0, 20.0, 25.0, 50.0, 65.0, 75.0, 105.0, 135.0, 150.0, 290.0],
            [-15.5, 0.0, -5.1, -5.1, -9.6, -8.2, -13.1, -11.5, -11.0, -16.2, -16.6, -26.2]),
    "B100": (False, [0.0, 10.0, 20.0, 30.0, 35.0, 45.0, 55.0, 120.0, 170.0, 245.0, 330.0, 480.0],
             [0.0, -2.2, -0.6, -0.6, -0.3, -1.2, -5.9, -2.2, -0.8, -6.3, -7.5, -7.1]),
    "C300": (False, [0.0, 65.0, 70.0, 190.0, 195.0, 200.0, 240.0, 325.0, 520.0, 1045.0, 1510.0, 2595.0],
             [-6.9, 0.0, -7.7, -2.5, -2.4, -9.9, -8.0, -6.6, -7.1, -13.0, -14.2, -16.0]),
}


def lin(e, x):
    """the power a table entry in dB stands for (a machine number in the code: exact to 1e-9 relative)"""
    return 10.0 ** (x / 10.0)


def profile(e, m):
    """normalised powers (specular part, scattered parts)"""
    los, d, p = REF[m]
    w = [lin(e, x) for x in p]
    s = sum(w)
    w = [x / s for x in w]
    return (w[0], w[1:], d[1:]) if los else (None, w, d)


def near(e, n, x, y):
    """equal up to the rounding of constants"""
    e.ensure(n, e.and_(e.le(x - y, 1e-6 * y), e.le(y - x, 1e-6 * y)) if e.symbolic else e.eq(x, y, tol=1e-6))


def make(e, m, **kw):
    fc = e.scalar("fc", 1e9, 4e10)
    ds = e.scalar("ds", 1e-9, 1e-6)
    return e.mod("tdl").TDL(m, ds, fc, **kw), fc, ds


@contract("C33", "profile", [T + "__init__", T + "_load_parameters", T + "mean_powers", T + "delays", T + "k_factor"], runs=(14, 60))
def prof(e):
    """each model has the taps of its table: powers normalised to one, delays scaled by the delay spread (in nanoseconds for the models of
    fixed delay spread), and the K-factor of the first tap"""
    m = e.choose("model", list(REF))
    ch, fc, ds = make(e, m)
    k, w, d = profile(e, m)
    n = len(w)
    e.ensure("number of taps", e.same(e.value(ch.num_clusters), n))
    e.ensure("line of sight", ch.los == (k is not None))
    P, D = ch.mean_powers, ch.delays
    e.shape_is("powers", P, (n,))
    e.shape_is("delays", D, (n,))
    for i in range(n):
        near(e, "power of a tap", e.at(P, i), w[i] + (k or 0) * (i == 0))
        sc = ds if REF[m][1][-1] < 20 else e.num("1e-9") if e.symbolic else 1e-9
        e.ensure("delay of a tap", e.eq(e.at(D, i) * e.num(10 ** 9), e.num(str(d[i])) * sc * e.num(10 ** 9), tol=1e-5))
    if k is not None:
        near(e, "specular power", e.value(ch.mean_power_los), k)
        near(e, "K-factor", e.value(ch.k_factor), k / w[0])


@contract("C33", "doppler", [T + "_compute_doppler", T + "__init__"], runs=(14, 60))
def doppler(e):
    """the angular Doppler shifts are drawn between those of the slowest and the fastest terminal, each increased by the satellite's
    2 pi f (v_sat / c) R/(R+h) cos(elevation)"""
    h = e.scalar("height", 160000, 4e7, sample=(5e5, 3e6))
    el = e.scalar("elev", 0, 90)
    v0, v1 = e.scalar("v0", 0, 100), e.scalar("v1", 100, 200)
    given = e.flag("max_speed")
    ch, fc, ds = make(e, "A", basestation_height=h, elevation_angle=el, min_speed=v0, **(dict(max_speed=v1) if given else {}))
    m = e.mark()
    ch(e.dim("B"), 1, e.num(1) if e.symbolic else 1.)
    c = 299792458

    def want(v):
        R = e.num(6371000)
        vs = e.sqrt(e.div(e.num("398589196000000"), R + h))
        return 2 * e.pi * fc / c * (v + vs * e.div(R, R + h) * e.cos(e.deg(el)))

    def spec(d):
        e.ensure("lowest Doppler", e.eq(e.value(d.par["lo"]), want(v0), tol=1e-4))
        e.ensure("highest Doppler", e.eq(e.value(d.par["hi"]), want(v1 if given else v0), tol=1e-4))
    e.some("Doppler draw", [d for d in e.draws(m) if len(d.dims) == 8 and all(e.same(x, 1) for x in d.dims[1:])], spec)


@contract("C33", "taps", [T + "__init__", T + "__call__"], runs=(20, 80), shards=4)
def taps(e):
    """every tap of every antenna pair is a sum of sinusoids at the batch example's Doppler, with the tap's own power; the first tap of a
    LoS model has the specular part added; with correlation matrices the antennas are mixed by their square roots, the
    receive and transmit ones as their Kronecker product would"""
    m = e.choose("model", ["A", "D", "C", "B100"])
    corr = e.choose("correlation", ["none", "spatial", "rx", "tx", "rx and tx"]) if m in "AD" else "none"
    B, N, S = e.dim("B"), e.dim("T"), e.dim("S")
    RA, TA = e.dim("RA"), e.dim("TA")
    fs = e.scalar("fs", 1, 1e6, sample=(100., 1e5))
    aoa = e.scalar("aoa", -4, 4)
    kw = {}
    sizes = {"spatial": RA * TA, "rx": RA, "tx": TA}
    mats = {}
    for n in sizes:
        if n in corr:
            mats[n] = e.mod("utils").exp_corr_mat(e.const([0.3 + 0.4j], "c") * 1., sizes[n])[0]
            kw[n + "_corr_mat"] = mats[n]
    n0 = len(e.chol())
    ch, fc, ds = make(e, m, num_sinusoids=S, num_rx_ant=RA, num_tx_ant=TA, los_angle_of_arrival=aoa, **kw)
    fac = {}
    for (n, M), c in zip([(n, M) for n, M in (("spatial", mats.get("spatial")), ("rx", mats.get("rx")), ("tx", mats.get("tx"))) if M is not None], e.chol()[n0:]):
        fac[n] = c[1]
        e.forall("square root of the %s correlation" % n, (sizes[n], sizes[n]), lambda i, j: e.eq(e.at(c[0], i, j), e.at(M, i, j), tol=1e-4))
    e.ensure("one square root per matrix", len(e.chol()) - n0 == len(mats))
    k, w, d = profile(e, m)
    P = len(w)
    mk = e.mark()
    h, tau = ch(B, N, fs)
    out = (B, 1, RA, 1, TA, P, N)
    e.shape_is("coefficients", h, out)
    e.shape_is("delays", tau, (B, 1, 1, P))
    e.forall("delays", (B, 1, 1, P), lambda b, r, t, p: e.eq(e.at(tau, b, r, t, p), e.at(ch.delays, p)))
    one = (B, 1, 1, 1, 1, 1, 1, 1)
    specs = [("uniform", one), ("uniform", (B, 1, 1, 1, 1, P, 1, S)), ("uniform", (B, 1, RA, 1, TA, P, 1, S))]
    if k is not None:
        specs.append(("uniform", one[:7]))

    def spec(ds_):
        dop, th, phi = ds_[:3]
        circle = lambda r: e.pi * (2 * r - 1)

        def amp(p):
            return e.sqrt(e.at(ch._mean_powers, p).re if e.symbolic else float(e.at(ch._mean_powers, p).real))

        def raw(b, r, t, p, n):
            ph = lambda s: e.at(dop.value, b, *[0] * 7) * (e.div(n, fs) * e.cos(e.div(2 * e.pi * (s + 1), S) + e.div(circle(e.at(th.raw, b, 0, 0, 0, 0, p, 0, s)), S))) + circle(e.at(
                phi.raw, b, 0, r, 0, t, p, 0, s))
            v = e.sum(S, lambda s: e.cis(ph(s))) * e.div(1, e.sqrt(S)) * amp(p)
            if k is not None and p == 0:
                sp = e.at(dop.value, b, *[0] * 7) * (e.div(n, fs) * e.cos(aoa)) + circle(e.at(ds_[3].raw, b, *[0] * 6))
                v = v + e.cis(sp) * e.sqrt(e.re(e.value(ch._los_power)) if e.symbolic else float(ch._los_power.numpy().real))
            return v

        def want(b, _, r, __, t, p, n):
            p = int(e.evalint(p))
            if "spatial" in fac:
                return e.sum(RA * TA, lambda q: e.at(fac["spatial"], r * TA + t, q) * raw(b, e.idiv(q, TA), e.imod(q, TA), p, n))
            y = (lambda r_, t_: e.sum(RA, lambda q: e.at(fac["rx"], r_, q) * raw(b, q, t_, p, n))) if "rx" in fac else (lambda r_, t_: raw(b, r_, t_, p, n))
            if "tx" in fac:
                return e.sum(TA, lambda q: y(r, q) * e.at(fac["tx"], t, q))
            return y(r, t)
        e.forall("coefficient", out, lambda *i: e.eq(e.at(h, *i), want(*i), tol=2e-3))
    e.some("Doppler, angle and phase draws", e.assign_draws(mk, specs, exact=False), spec)
