"""Shared constructors of the contracts: symbolic (or sampled) instances of the package's classes."""

SCEN = ["UrbanScenario", "SubUrbanScenario", "DenseUrbanScenario"]
CHAN = ["Urban", "SubUrban", "DenseUrban"]
BANDS = {"S": (1.9e9, 4.0e9), "Ka": (19.0e9, 40.0e9)}
R_E = 6371000


def carrier(e, band=None):
    """a valid carrier frequency in Hz, and its band"""
    b = band or e.choose("band", ["S", "Ka"])
    lo, hi = BANDS[b]
    return e.scalar("fc", lo, hi), b


def array(e, fc, pol="single", ptype="V", pattern="omni", rows=1, cols=1):
    return e.pkg.PanelArray(num_rows_per_panel=rows, num_cols_per_panel=cols, polarization=pol, polarization_type=ptype,
                            antenna_pattern=pattern, carrier_frequency=fc)


def elevation(e, lo=10.0, hi=90.0):
    return e.scalar("elev", lo, hi)


def scenario(e, cls="UrbanScenario", direction=None, band=None, fc=None, elev=None, ut=None, bs=None, **kw):
    if fc is None:
        fc, band = carrier(e, band)
    if elev is None:
        elev = elevation(e)
    direction = direction or e.choose("direction", ["uplink", "downlink"])
    ut = ut or array(e, fc)
    bs = bs or array(e, fc)
    sc = getattr(e.pkg, cls)(carrier_frequency=fc, ut_array=ut, bs_array=bs, direction=direction, elevation_angle=elev, **kw)
    return sc, dict(fc=fc, band=band, elev=elev, direction=direction, cls=cls)


def locations(e, B, NB, NU, prefix="", zmin=1.0e5, zmax=4.0e7, spread=5000.0):
    """UT positions near the ground, BS (satellite) positions above them"""
    ut = e.tensor(prefix + "ut_loc", (B, NU, 3), sample=(-spread, spread))
    bs = e.tensor(prefix + "bs_loc", (B, NB, 3), lo=None, hi=None, sample=[(zmin, zmax), (zmin, zmax), (zmin, 2e5), (zmin, 2e6)])
    return ut, bs


def topo_kwargs(e, B, NB, NU, ut=None, bs=None, indoor=True, prefix="", los="choose"):
    ul, bl = locations(e, B, NB, NU, prefix)
    kw = dict(ut_loc=ut if ut is not None else ul, bs_loc=bs if bs is not None else bl,
              ut_orientations=e.tensor(prefix + "ut_or", (B, NU, 3), sample=(-4., 4.)),
              bs_orientations=e.tensor(prefix + "bs_or", (B, NB, 3), sample=(-4., 4.)),
              ut_velocities=e.tensor(prefix + "ut_vel", (B, NU, 3), sample=(-30., 30.)),
              in_state=e.tensor(prefix + "in_state", (B, NU), kind="b"))
    if los == "choose":
        kw["los"] = e.choose(prefix + "los", [True, False, None])
    elif los is not None:
        kw["los"] = los
    return kw


def dims3(e, bs_hi=None):
    return e.dim("B"), e.dim("NB", hi=bs_hi), e.dim("NU")

import functools
import json
import pathlib

SPEC = pathlib.Path(__file__).resolve().parent.parent / "spec"
FILE_PREFIX = {"UrbanScenario": "Urban", "SubUrbanScenario": "Sub_Urban", "DenseUrbanScenario": "Dense_Urban"}


@functools.lru_cache(None)
def tables():
    return json.loads((SPEC / "tables.json").read_text())


def table(p, los):
    """reference parameter table of the scenario described by p"""
    return tables()["%s_%s_%s_band_%s.json" % (FILE_PREFIX[p["cls"]], "LOS" if los else "NLOS", p["band"],
                                               "UL" if p["direction"] == "uplink" else "DL")]


def elev10(e):
    """an elevation angle strictly nearest to one multiple of ten, and that multiple"""
    k = e.choose("nearest angle", list(range(1, 10)))
    lo, hi = max(10, 10 * k - 5), min(90, 10 * k + 5)
    return e.scalar("elev", lo, hi, lo_open=lo != 10, hi_open=hi != 90), 10 * k
