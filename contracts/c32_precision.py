"""C32 - single and double precision"""
from ntnvc.registry import contract
from contracts.common import *

DT = {"single": ("float32", "complex64"), "double": ("float64", "complex128")}


def name(t):
    return t.dtype.name


def topology(e, B, NB, NU, p):
    t = topo_kwargs(e, B, NB, NU, los=e.choose("los", [None, True]))
    t["in_state"] = e.build((B, NU), lambda *i: False, "b")
    return {k: e.cast(v, p) if k.endswith(("loc", "orientations", "velocities")) else v for k, v in t.items()}


@contract("C32", "channel", ["SystemLevelChannel.__call__", "SystemLevelScenario.set_topology", "LSPGenerator.__call__", "RaysGenerator.__call__",
                             "ChannelCoefficientsGenerator.__call__", "PanelArray.__init__"], runs=(10, 60), shards=3)
def channel(e):
    """a model made for a precision - as an argument or by default - accepts a topology in that precision, in either direction, and returns
    coefficients and delays in it"""
    cls = e.choose("model", CHAN)
    p = e.choose("precision", ["single", "double"])
    given = e.flag("given")
    e.precision(p if not given else {"single": "double", "double": "single"}[p])
    kw = dict(precision=p) if given else {}
    direction = e.choose("direction", ["uplink", "downlink"])
    fc, band = carrier(e)
    pol = e.choose("polarization", ["single", "dual"])
    mk = lambda r, c, pat: e.pkg.PanelArray(num_rows_per_panel=r, num_cols_per_panel=c, polarization=pol, polarization_type="V" if pol == "single" else "cross",
                                            antenna_pattern=pat, carrier_frequency=fc, **kw)
    ch = getattr(e.pkg, cls)(carrier_frequency=fc, ut_array=mk(1, 1, "omni"), bs_array=mk(2, 1, "38.901"), direction=direction, elevation_angle=elevation(e), **kw)
    B, NB, NU = dims3(e)
    ch.set_topology(**topology(e, B, NB, NU, p))
    h, d = ch(e.dim("T"), e.scalar("fs", 1, 1e9, sample=(1e6, 1e8)))
    e.ensure("coefficients in the requested precision", name(h) == DT[p][1])
    e.ensure("delays in the requested precision", name(d) == DT[p][0])


@contract("C32", "stages", ["LSPGenerator.__call__", "RaysGenerator.__call__"], runs=(10, 60), shards=3)
def stages(e):
    """large-scale parameters, rays, path loss and line-of-sight probability are computed in the model's precision"""
    cls = e.choose("scenario", SCEN)
    p = e.choose("precision", ["single", "double"])
    given = e.flag("given")
    e.precision(p if not given else {"single": "double", "double": "single"}[p])
    kw = dict(precision=p) if given else {}
    fc, band = carrier(e)
    arr = lambda: e.pkg.PanelArray(num_rows_per_panel=1, num_cols_per_panel=1, polarization="single", polarization_type="V",
                                   antenna_pattern="omni", carrier_frequency=fc, **kw)
    sc, q = scenario(e, cls, fc=fc, band=band, ut=arr(), bs=arr(), **kw)
    B, NB, NU = dims3(e)
    sc.set_topology(**topology(e, B, NB, NU, p))
    for n in ("distance_3d", "distance_2d", "los_aoa", "los_zod", "lsp_log_mean", "lsp_log_std", "basic_pathloss", "los_probability"):
        e.ensure(n, name(getattr(sc, n)) == DT[p][0])
    g = e.mod("lsp").LSPGenerator(sc)
    g.topology_updated_callback()
    lsp = g()
    for n in ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd"):
        e.ensure(n, name(getattr(lsp, n)) == DT[p][0])
    e.ensure("path loss", name(g.sample_pathloss()) == DT[p][0])
    r = e.mod("rays").RaysGenerator(sc)
    r.topology_updated_callback()
    y = r(lsp)
    for n in ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr"):
        e.ensure("rays " + n, name(getattr(y, n)) == DT[p][0])


@contract("C32", "topology", ["utils.gen_single_sector_topology"], runs=(8, 40))
def gen(e):
    """generated topologies are in the requested precision, or in the default one"""
    p = e.choose("precision", ["single", "double"])
    given = e.flag("given")
    e.precision(p if not given else {"single": "double", "double": "single"}[p])
    r = e.mod("utils").gen_single_sector_topology(e.dim("B"), e.dim("N"), e.choose("scenario", ["dur", "urb", "sur"]), **(dict(precision=p) if given else {}))
    for n, t in zip(("UT locations", "BS locations", "UT orientations", "BS orientations", "UT velocities"), r):
        e.ensure(n, name(t) == DT[p][0])
