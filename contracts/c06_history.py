"""C06 - successive topology updates"""
from ntnvc.registry import contract
from contracts.common import *
from contracts.c07_lsp import mixed

FN = ["SystemLevelScenario.set_topology"]
TENSORS = ["ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state"]
ATMOS = {"latitude": (0, 90), "lwc": (0.05, 5), "rain_rate": (0.05, 100), "atmospheric_pressure": (600, 1100), "temperature": (240, 320),
         "water_vapor_density": (0.5, 30), "relative_humidity": (1, 100), "diameter_earth_antenna": (0.1, 20), "antenna_efficiency": (0.1, 1)}
STORED = {"ut_loc": "ut_loc", "bs_loc": "bs_loc", "ut_orientations": "ut_orientations", "bs_orientations": "bs_orientations",
          "ut_velocities": "ut_velocities", "in_state": "indoor"}
DERIVED = ["distance_2d", "distance_3d", "los_aod", "los_aoa", "los_zod", "los_zoa", "basic_pathloss", "gas_pathloss",
           "scintillation_pathloss", "entry_pathloss", "free_space_pathloss", "los"]
UPDATES = [[], ["ut_loc"], ["bs_loc"], ["in_state"], ["los"], ["ut_velocities"], ["ut_orientations"], ["bs_orientations"], ["doppler_enabled"], ["temperature"],
           ["atmospheric_pressure"], ["water_vapor_density"], ["relative_humidity"], ["diameter_earth_antenna"], ["antenna_efficiency"],
           ["latitude"], ["lwc"], ["rain_rate"], ["ut_loc", "temperature"], ["ut_loc", "bs_loc"], TENSORS + ["los", "doppler_enabled"] + list(ATMOS)]
GEOM = {"ut_loc", "bs_loc", "in_state", "los"}


def tens(e, B, NB, NU, pre):
    k = topo_kwargs(e, B, NB, NU, prefix=pre, los=None)
    return k


def atmos(e, pre):
    return {n: e.scalar(pre + n, lo, hi) for n, (lo, hi) in ATMOS.items()}


def same(e, name, a, b, dims):
    e.shape_is(name, a, dims)
    e.forall(name, dims, lambda *i: e.iff(e.at(a, *i), e.at(b, *i)) if name in ("los",) else e.eq(e.at(a, *i), e.at(b, *i)))


@contract("C06", "two_updates", FN + ["%s._compute_%s" % (c, m) for c in SCEN for m in (
    "lsp_log_mean_std", "pathloss_basic", "pathloss_gas", "pathloss_entry", "pathloss_scintillation")], runs=(16, 120), shards=len(UPDATES))
def two_updates(e):
    """after a full update followed by any partial update the scenario is the one a fresh instance would reach with the effective
    (latest) value of every argument: nothing stale survives, nothing not given is lost"""
    upd = e.choose("second update", [",".join(u) for u in UPDATES])
    upd = [x for x in upd.split(",") if x]
    cls = e.choose("scenario", SCEN)
    band = e.choose("band", ["S", "Ka"])
    B, NB, NU = dims3(e)
    fc, _ = carrier(e, band)
    el = e.num(50) if e.symbolic else 50.0
    sc, p = scenario(e, cls, direction="downlink", band=band, fc=fc, elev=el, enable_shadow_fading=False)
    first = dict(tens(e, B, NB, NU, ""), **atmos(e, "first_"))
    first["los"] = e.choose("first los", [True, False])
    new = dict(tens(e, B, NB, NU, "new_"), **atmos(e, "new_"))
    new["los"] = e.choose("second los", [True, False]) if "los" in upd else None
    if "doppler_enabled" in upd:
        new["doppler_enabled"] = e.choose("second doppler", [True, False])
    r1 = sc.set_topology(**first)
    second = {n: new[n] for n in upd}
    r2 = sc.set_topology(**second)
    eff = dict(first, **second)
    fresh, _ = scenario(e, cls, direction="downlink", band=band, fc=fc, elev=el, enable_shadow_fading=False)
    fresh.set_topology(**eff)
    e.ensure("a full update requires new parameters", bool(r1) is True)
    e.ensure("reports whether the geometry changed", bool(r2) == bool(GEOM & set(upd)))
    for n in TENSORS:
        t = getattr(sc, STORED[n])
        d = {"ut_loc": (B, NU, 3), "ut_orientations": (B, NU, 3), "ut_velocities": (B, NU, 3), "in_state": (B, NU)}.get(n, (B, NB, 3))
        e.shape_is(n, t, d)
        e.forall("stored " + n, d, lambda *i: e.iff(e.at(t, *i), e.at(eff[n], *i)) if n == "in_state" else e.eq(e.at(t, *i), e.at(eff[n], *i)))
    for n in ATMOS:
        e.ensure("stored " + n, e.eq(e.value(getattr(sc, n)), eff[n]))
    e.ensure("Doppler flag", bool(sc.doppler_enabled) == eff.get("doppler_enabled", True))
    for n in DERIVED:
        same(e, n, getattr(sc, n), getattr(fresh, n), (B, NB, NU))
    same(e, "matrix_ut_distance_2d", sc.matrix_ut_distance_2d, fresh.matrix_ut_distance_2d, (B, NU, NU))
    same(e, "lsp_log_mean", sc.lsp_log_mean, fresh.lsp_log_mean, (B, NB, NU, 7))
    same(e, "lsp_log_std", sc.lsp_log_std, fresh.lsp_log_std, (B, NB, NU, 7))


@contract("C06", "resized", FN, runs=(8, 60))
def resized(e):
    """a topology may change its batch size and its numbers of UTs and BSs between updates"""
    cls = e.choose("scenario", SCEN)
    B, NB, NU = dims3(e)
    B2, NB2, NU2 = e.dim("B2"), e.dim("NB2"), e.dim("NU2")
    fc, band = carrier(e)
    el = e.num(50) if e.symbolic else 50.0
    sc, p = scenario(e, cls, direction="downlink", band=band, fc=fc, elev=el, enable_shadow_fading=False)
    sc.set_topology(los=True, **tens(e, B, NB, NU, ""))
    k2 = tens(e, B2, NB2, NU2, "new_")
    sc.set_topology(los=False, **k2)
    fresh, _ = scenario(e, cls, direction="downlink", band=band, fc=fc, elev=el, enable_shadow_fading=False)
    fresh.set_topology(los=False, **k2)
    for n in DERIVED:
        same(e, n, getattr(sc, n), getattr(fresh, n), (B2, NB2, NU2))
    e.ensure("batch size", e.eq(e.value(sc.batch_size), B2))
    e.ensure("number of UTs", e.eq(e.value(sc.num_ut), NU2))
    e.ensure("number of BSs", e.eq(e.value(sc.num_bs), NB2))


@contract("C06", "incomplete", FN, runs=(8, 40))
def incomplete(e):
    """the first topology must be complete: any missing tensor is rejected"""
    B, NB, NU = dims3(e)
    sc, p = scenario(e, "UrbanScenario", direction="uplink", band="S", elev=e.num(50) if e.symbolic else 50.0)
    k = tens(e, B, NB, NU, "")
    miss = e.choose("missing", TENSORS)
    del k[miss]
    e.ensure("missing tensor rejected", e.raises(lambda: sc.set_topology(**k), (AssertionError, ValueError)))


@contract("C06", "channel", ["SystemLevelChannel.set_topology", "SystemLevelChannel.__init__", "LSPGenerator.topology_updated_callback",
                             "RaysGenerator.topology_updated_callback", "LSPGenerator.__call__"], runs=(8, 60))
def channel(e):
    """a channel model re-derives its large-scale statistics whenever the geometry or state of a link changes, from the new topology"""
    upd = e.choose("second update", ["ut_loc", "bs_loc", "in_state", "los", "ut_velocities", "ut_orientations"])
    B, NB, NU = dims3(e)
    fc, band = carrier(e, "S")
    el = e.num(50) if e.symbolic else 50.0
    ch, p = chan(e, "Urban", "downlink", fc, el)
    first = dict(tens(e, B, NB, NU, ""), los=True)
    new = dict(tens(e, B, NB, NU, "new_"), los=False)
    n1 = len(e.chol())
    ch.set_topology(**first)
    m1 = e.mark()
    ch.set_topology(**{upd: new[upd]})
    if upd not in GEOM:
        return
    c2 = e.chol()[n1:]
    z = e.assign_draws(m1, [("normal", (B, NB, NU, 7))], exact=False)
    fr, _ = chan(e, "Urban", "downlink", fc, el)
    n2 = len(e.chol())
    eff = dict(first)
    eff[upd] = new[upd]
    fr.set_topology(**eff)
    c3 = e.chol()[n2:]

    def spec(c):
        X, Y, W, V, d = c
        for A, M, dims in ((X, W, (B, NB, NU, 7, 7)), (Y, V, (B, NB, 7, NU, NU))):
            e.shape_is("correlation matrix", A[0], dims)
            e.shape_is("correlation matrix of a fresh model", M[0], dims)
            e.forall("correlation of the new topology", dims, lambda *i: e.eq(e.at(A[0], *i), e.at(M[0], *i)))
        mixed(e, ch._lsp, ("ds", "sf"), X[1], Y[1], d, ch._scenario, (B, NB, NU))
    e.some("large-scale parameters redrawn when the geometry changes",
           [(x, y, w, v, d[0]) for x in c2[::-1] for y in c2[::-1] for w in c3 for v in c3 for d in z], spec)


def chan(e, cls, direction, fc, el, always=False, **kw):
    ut, bs = array(e, fc), array(e, fc)
    c = getattr(e.pkg, cls)(carrier_frequency=fc, ut_array=ut, bs_array=bs, direction=direction, elevation_angle=el, **kw)
    return c, {}
