"""C26, C27 - the channel model as a whole"""
from ntnvc.registry import contract
from contracts.common import *

CH = "SystemLevelChannel."
R = "RaysGenerator."


def model(e, elev=None, los=None, cls=None, topo=True, **kw):
    """a channel with its topology set, single-polarised panels"""
    k = e.choose("model", CHAN) if cls is None else cls
    el = elev or elevation(e)
    fc, band = carrier(e)
    direction = e.choose("direction", ["uplink", "downlink"])
    ut, bs = array(e, fc), array(e, fc)
    always = e.choose("always_generate_lsp", ["default", False, True])
    if always != "default":
        kw["always_generate_lsp"] = always
    ch = getattr(e.pkg, k)(carrier_frequency=fc, ut_array=ut, bs_array=bs, direction=direction, elevation_angle=el, **kw)
    B, NB, NU = dims3(e)
    t = topo_kwargs(e, B, NB, NU, los=los)
    t["in_state"] = e.build((B, NU), lambda *i: False, "b")
    ch.set_topology(**t)
    return ch, ch._scenario, dict(B=B, NB=NB, NU=NU, t=t, fc=fc, band=band, direction=direction, elev=el, ut=ut, bs=bs, up=direction == "uplink", always=always is True)


def flip(x, i):
    """(batch, BS, UT) of the link (batch, tx, rx)"""
    return (i[0], i[2], i[1]) + tuple(i[3:]) if x["up"] else tuple(i)


def setup12(e, pl_on, sf_on):
    cls = e.choose("scenario", SCEN)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, enable_pathloss=pl_on, enable_shadow_fading=sf_on)
    t = topo_kwargs(e, B, NB, NU, los=None)
    sc.set_topology(**t)
    ch = e.mod("system_level_channel").SystemLevelChannel(sc)
    up = p["direction"] == "uplink"
    L = (B, NU, NB) if up else (B, NB, NU)
    x = dict(up=up)
    tail = tuple(e.dim(n) for n in ("Q", "RA", "TA", "T"))
    h = e.tensor("h", L + tail, kind="c", sample=(-2., 2.))
    return ch, sc, x, L, tail, h


@contract("C26", "gain", [CH + "_step_12", "LSPGenerator.sample_pathloss"], runs=(12, 80))
def gain(e):
    """each link's coefficients are scaled by 10^(-PL/20) of its own path loss, if enabled, and by the square root of its own shadow
    fading, if enabled, alike for all its paths, antennas and time samples"""
    pl_on, sf_on = e.flag("pathloss"), e.flag("shadow")
    ch, sc, x, L, tail, h = setup12(e, pl_on, sf_on)
    pl = e.tensor("pl", (L[0], L[2], L[1]) if x["up"] else L, 0, 300, sample=(0., 40.))
    e.havoc(ch._lsp_sampler, "sample_pathloss", lambda: pl)
    sf = e.tensor("sf", L, 0, 1e6, sample=(0.01, 10.))
    y = ch._step_12(h, sf)
    e.shape_is("coefficients", y, L + tail)

    def want(*i):
        g = e.pow10(-e.div(e.at(pl, *flip(x, i[:3])), 20)) if pl_on else 1
        return e.at(h, *i) * (g * (e.sqrt(e.at(sf, *i[:3])) if sf_on else 1))
    e.forall("gain", L + tail, lambda *i: e.eq(e.at(y, *i), want(*i), tol=1e-4))


@contract("C27", "call", [CH + "__call__", CH + "__init__", CH + "set_topology"], runs=(8, 60), shards=3)
def call(e):
    """a call samples the rays of the current large-scale parameters and computes the coefficients of every link from the positions,
    orientations, velocities, line-of-sight state and angles of its own two ends - the satellite transmitting in the downlink, the
    terminal in the uplink - and returns [batch, receiver, rx antenna, transmitter, tx antenna, path, time]"""
    ch, sc, x = model(e)
    B, NB, NU = x["B"], x["NB"], x["NU"]
    own = (B, NB, NU)
    L = (B, NU, NB) if x["up"] else own
    C, M, Q, RA, TA, T = (e.dim(n) for n in ("C", "M", "Q", "RA", "TA", "T"))
    calls = {}
    lsp = e.mod("lsp").LSP(*[e.tensor(n, own, 0, 1e3) for n in ("ds", "asd", "asa", "sf", "k", "zsa", "zsd")])
    if x["always"]:
        e.stub(ch, "_lsp_sampler", lsp, calls)
    else:
        e.stub(ch, "_lsp_sampler", None, calls)
        ch._lsp = lsp
    r5 = {n: e.tensor(n, own + (C, M)) for n in ("aoa", "aod", "zoa", "zod", "xpr")}
    r4 = {n: e.tensor(n, own + (C,), 0, 1) for n in ("delays", "powers")}
    rays = e.mod("rays").Rays(**r4, **r5)
    e.stub(ch, "_ray_sampler", rays, calls)
    h0 = e.tensor("h", L + (Q, RA, TA, T), kind="c")
    h1 = e.tensor("h_scaled", L + (Q, RA, TA, T), kind="c")
    d0 = e.tensor("delays_out", L + (Q,), 0, 1)
    cir = ch._cir_sampler
    e.ensure("transmitting array", (cir._tx_array if hasattr(cir, "_tx_array") else None) is (x["ut"] if x["up"] else x["bs"]))
    e.ensure("receiving array", (cir._rx_array if hasattr(cir, "_rx_array") else None) is (x["bs"] if x["up"] else x["ut"]))
    e.stub(ch, "_cir_sampler", (h0, d0), calls)
    e.stub(ch, "_step_12", h1, calls)
    n, fs = e.dim("num_time_samples"), e.scalar("fs", 1, 1e9, sample=(1e6, 1e8))
    h, d = ch(n, fs)
    a, s12 = calls["_cir_sampler"], calls["_step_12"]
    e.ensure("parameters kept between topologies unless asked otherwise", ("_lsp_sampler" in calls) == x["always"])
    e.ensure("number of time samples", e.same(e.value(a["num_time_samples"]), n))
    e.ensure("sampling frequency", e.eq(e.value(a["sampling_frequency"]), fs))
    e.ensure("rays of the current parameters", calls["_ray_sampler"]["lsp"] is lsp)
    eq = lambda got, want: (lambda *i: e.eq(e.at(got, *i), e.at(want, *flip(x, i)), tol=1e-6))
    swap = {"aoa": "aod", "aod": "aoa", "zoa": "zod", "zod": "zoa"} if x["up"] else {}
    for f in r5:
        e.forall("ray " + f, L + (C, M), eq(getattr(a["rays"], f), r5[swap.get(f, f)]))
    for f in r4:
        e.forall("ray " + f, L + (C,), eq(getattr(a["rays"], f), r4[f]))
    e.forall("K-factor", L, eq(a["k_factor"], lsp.k_factor))
    e.forall("shadow fading", L, eq(s12["sf"], lsp.sf))
    e.forall("coefficients before the path loss", L + (Q, RA, TA, T), lambda *i: e.eq(e.at(s12["h"], *i), e.at(h0, *i)))
    top = a["topology"]
    for f in ("aoa", "aod", "zoa", "zod"):
        ref = getattr(sc, "los_" + swap.get(f, f))
        e.forall("LoS " + f, L, lambda *i: e.eq(e.at(getattr(top, "los_" + f), *i), e.deg(e.at(ref, *flip(x, i))), tol=1e-5))
    e.forall("LoS state", L, lambda *i: e.same(e.at(top.los, *i), e.at(sc.los, *flip(x, i))))
    e.forall("distance", L, eq(top.distance_3d, sc.distance_3d))
    e.forall("cluster delay spread", L, lambda *i: e.eq(e.at(a["c_ds"], *i), e.at(sc.get_param("cDS"), *flip(x, i)) * e.num("1e-9") if e.symbolic else
                                                      float(e.at(sc.get_param("cDS"), *flip(x, i))) * 1e-9, tol=1e-5))
    t = x["t"]
    e.ensure("moving end", top.moving_end == ("tx" if x["up"] else "rx"))
    n_tx, n_rx = (NU, NB) if x["up"] else (NB, NU)
    o_tx, o_rx = (t["ut_orientations"], t["bs_orientations"]) if x["up"] else (t["bs_orientations"], t["ut_orientations"])
    e.forall("velocities", (B, NU, 3), lambda *i: e.eq(e.at(top.velocities, *i), e.at(t["ut_velocities"], *i)))
    e.forall("tx orientations", (B, n_tx, 3), lambda *i: e.eq(e.at(top.tx_orientations, *i), e.at(o_tx, *i)))
    e.forall("rx orientations", (B, n_rx, 3), lambda *i: e.eq(e.at(top.rx_orientations, *i), e.at(o_rx, *i)))
    e.forall("altitude", (B, NB), lambda b, k: e.eq(e.at(top.bs_height, b, k), e.at(t["bs_loc"], b, k, 2)))
    e.ensure("elevation", e.eq(e.value(top.elevation_angle), x["elev"]))
    e.ensure("Doppler flag", top.doppler_enabled == sc.doppler_enabled)
    out = (B, L[2], RA, L[1], TA, Q, T)
    e.shape_is("coefficients", h, out)
    e.shape_is("delays", d, (B, L[2], L[1], Q))
    e.forall("coefficients", out, lambda b, rx, ra, tx, ta, q, k: e.eq(e.at(h, b, rx, ra, tx, ta, q, k), e.at(h1, b, tx, rx, q, ra, ta, k)))
    e.forall("delays", (B, L[2], L[1], Q), lambda b, rx, tx, q: e.eq(e.at(d, b, rx, tx, q), e.at(d0, b, tx, rx, q)))


@contract("C27", "rays", [R + "__call__"], runs=(8, 60))
def rays(e):
    """the rays of a link have the delays and powers of its clusters; each of the four angles is spread by its own large-scale parameter
    about the same clusters, coupled, and given in radians; each ray has its own cross-polarisation ratio"""
    sc, p = scenario(e, "UrbanScenario", enable_pathloss=False)
    g = e.mod("rays").RaysGenerator(sc)
    own = dims3(e)
    C, M = e.dim("C"), e.dim("M")
    t3 = lambda n: e.tensor(n, own, 0, 1e3)
    lsp = e.mod("lsp").LSP(*[t3(n) for n in ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")])
    t4 = lambda n: e.tensor(n, own + (C,), 0, 1)
    t5 = lambda n: e.tensor(n, own + (C, M), sample=(-180., 180.))
    calls = {}
    d, du, P, Pa = t4("delays"), t4("unscaled"), t4("powers"), t4("powers_angles")
    e.stub(g, "_cluster_delays", (d, du), calls)
    e.stub(g, "_cluster_powers", (P, Pa), calls)
    names = {"aoa": ("_azimuth_angles_of_arrival", "asa"), "aod": ("_azimuth_angles_of_departure", "asd"),
             "zoa": ("_zenith_angles_of_arrival", "zsa"), "zod": ("_zenith_angles_of_departure", "zsd")}
    raw = {k: t5("raw_" + k) for k in names}
    for k, (f, s) in names.items():
        e.stub(g, f, raw[k], calls)
    out = {k: t5("coupled_" + k) for k in names}
    xpr = t5("xpr")
    e.stub(g, "_cross_polarization_power_ratios", xpr, calls)
    e.stub(g, "_random_coupling", tuple(out[k] for k in ("aoa", "aod", "zoa", "zod")), calls)
    r = g(lsp)
    args = {k: list(v.values()) for k, v in calls.items()}
    same = lambda n, a, b, dims: e.forall(n, dims, lambda *i: e.eq(e.at(a, *i), e.at(b, *i)))
    same("delay spread", args["_cluster_delays"][0], lsp.ds, own)
    same("K-factor", args["_cluster_delays"][1], lsp.k_factor, own)
    same("delay spread (powers)", args["_cluster_powers"][0], lsp.ds, own)
    same("K-factor (powers)", args["_cluster_powers"][1], lsp.k_factor, own)
    same("powers from unscaled delays", args["_cluster_powers"][2], du, own + (C,))
    for k, (f, s) in names.items():
        same("spread of " + k, args[f][0], getattr(lsp, s), own)
        same("K-factor of " + k, args[f][1], lsp.k_factor, own)
        same("powers steering " + k, args[f][2], Pa, own + (C,))
        same("coupling of " + k, calls["_random_coupling"][k], raw[k], own + (C, M))
        e.forall(k + " in radians", own + (C, M), lambda *i: e.eq(e.at(getattr(r, k), *i), e.deg(e.at(out[k], *i)), tol=1e-5))
    same("delays", r.delays, d, own + (C,))
    same("powers", r.powers, P, own + (C,))
    same("xpr", r.xpr, xpr, own + (C, M))


@contract("C27", "shape", [CH + "__call__", R + "__call__", "ChannelCoefficientsGenerator.__call__"], runs=(8, 60), shards=2)
def shape(e):
    """the complete call returns [batch, receivers, rx antennas, transmitters, tx antennas, paths, samples] in the model's precision,
    with the antennas of the terminal's array at the terminal's end and four paths more than the tabulated clusters"""
    direction = e.choose("direction", ["uplink", "downlink"])
    el, a = elev10(e)
    fc, band = carrier(e)
    ut = array(e, fc, rows=1, cols=2)
    bs = array(e, fc, pol="dual", ptype="cross", rows=3, cols=1)
    cls = e.choose("model", CHAN)
    ch = getattr(e.pkg, cls)(carrier_frequency=fc, ut_array=ut, bs_array=bs, direction=direction, elevation_angle=el)
    B, NB, NU = dims3(e)
    t = topo_kwargs(e, B, NB, NU, los=None)
    t["in_state"] = e.build((B, NU), lambda *i: False, "b")
    ch.set_topology(**t)
    T = e.dim("T")
    h, d = ch(T, e.scalar("fs", 1, 1e9, sample=(1e6, 1e8)))
    up = direction == "uplink"
    p = dict(cls=cls + "Scenario", band=band, direction=direction)
    q = max(int(table(p, s)["numClusters_%d" % a]) for s in (True, False)) + 4
    rx, ra, tx, ta = (NB, 6, NU, 2) if up else (NU, 2, NB, 6)
    e.shape_is("coefficients", h, (B, rx, ra, tx, ta, q, T))
    e.shape_is("delays", d, (B, rx, tx, q))
    e.dtype_is("coefficients", h, "c")
    e.dtype_is("delays", d, "r")
