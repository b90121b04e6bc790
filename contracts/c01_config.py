"""C01 - validity of configurations and selection of the parameter table"""
from ntnvc.registry import contract
from contracts.common import *

FN = ["SystemLevelScenario.__init__", "SystemLevelScenario._load_params"] + \
     ["%s.%s" % (c, m) for c in SCEN for m in ("__init__", "los_parameter_filepath", "nlos_parameter_filepath")]


@contract("C01", "accepts", FN, runs=(12, 60))
def accepts(e):
    """every documented configuration is accepted, stored, and loads the tables of its environment, band and direction"""
    cls = e.choose("scenario", SCEN)
    pl, sf, dp = e.flag("pathloss"), e.flag("shadow"), e.flag("doppler")
    sc, p = scenario(e, cls, enable_pathloss=pl, enable_shadow_fading=sf, doppler_enabled=dp)
    e.ensure("carrier frequency is kept", e.eq(e.value(sc.carrier_frequency), p["fc"]))
    e.ensure("wavelength is c/fc", e.eq(e.value(sc.lambda_0), 299792458 / p["fc"]))
    e.ensure("elevation is kept", e.eq(e.value(sc.elevation_angle), p["elev"]))
    e.ensure("direction is kept", sc.direction == p["direction"])
    e.ensure("pathloss flag is kept", bool(sc.pathloss_enabled) == pl)
    e.ensure("shadow fading flag is kept", bool(sc.shadow_fading_enabled) == sf)
    e.ensure("doppler flag is kept", bool(sc.doppler_enabled) == dp)
    e.ensure("20 rays per cluster", e.eq(e.value(sc.rays_per_cluster), 20))
    for los in (True, False):
        name = "%s_%s_%s_band_%s.json" % (FILE_PREFIX[cls], "LOS" if los else "NLOS", p["band"],
                                          "UL" if p["direction"] == "uplink" else "DL")
        have = sc.los_parameter_filepath if los else sc.nlos_parameter_filepath
        e.ensure("parameter file " + ("LoS" if los else "NLoS"), str(have).split("/")[-1] == name)


@contract("C01", "defaults", FN + [c + ".__init__" for c in CHAN], runs=(8, 40))
def defaults(e):
    """by default path loss, shadow fading and the satellite Doppler shift are modelled, and what is passed to a channel model reaches
    its scenario"""
    cls = e.choose("class", SCEN + CHAN)
    fc, band = carrier(e)
    el = elevation(e)
    ut, bs = array(e, fc), array(e, fc)
    req = dict(carrier_frequency=fc, ut_array=ut, bs_array=bs, direction=e.choose("direction", ["uplink", "downlink"]), elevation_angle=el)
    given = {} if e.choose("arguments", ["default", "given"]) == "default" else dict(
        average_street_width=e.scalar("width", 1, 100), average_building_height=e.scalar("height", 1, 100), enable_pathloss=e.flag("pathloss"),
        enable_shadow_fading=e.flag("shadow"), doppler_enabled=e.flag("doppler"))
    c = getattr(e.pkg, cls)(**req, **given)
    sc = c if cls in SCEN else c._scenario
    e.ensure("pathloss flag", bool(sc.pathloss_enabled) == given.get("enable_pathloss", True))
    e.ensure("shadow fading flag", bool(sc.shadow_fading_enabled) == given.get("enable_shadow_fading", True))
    e.ensure("doppler flag", bool(sc.doppler_enabled) == given.get("doppler_enabled", True))
    e.ensure("street width", e.eq(e.value(sc.average_street_width), given.get("average_street_width", 20)))
    e.ensure("building height", e.eq(e.value(sc.average_building_height), given.get("average_building_height", 5)))
    e.ensure("carrier frequency", e.eq(e.value(sc.carrier_frequency), fc))
    e.ensure("elevation", e.eq(e.value(sc.elevation_angle), el))
    e.ensure("direction", sc.direction == req["direction"])
    e.ensure("arrays", sc.ut_array is ut and sc.bs_array is bs)


@contract("C01", "array_frequency", FN, runs=(6, 30))
def array_frequency(e):
    """a mismatch between the carrier of an array and that of the scenario is rejected, whichever array it is"""
    fc, band = carrier(e)
    other = e.scalar("fc2", 1.0e9, 5.0e10)
    e.assume(e.or_(e.lt(other * 1.001, fc), e.lt(fc * 1.001, other)))
    which = e.choose("which", ["ut", "bs", "both"])
    ua = array(e, other if which != "bs" else fc)
    ba = array(e, other if which != "ut" else fc)
    cls = e.choose("scenario", SCEN)
    e.ensure("mismatching array carrier is rejected", e.raises(lambda: scenario(e, cls, fc=fc, band=band, ut=ua, bs=ba, elev=45.0)))


@contract("C01", "rejects_frequency", FN, runs=(10, 60))
def rejects_frequency(e):
    """carrier frequencies outside 1.9-4 GHz and 19-40 GHz are rejected"""
    cls = e.choose("scenario", SCEN)
    fc = e.scalar("fc", 1.0e8, 1.0e11)
    m = 1000.0
    e.assume(e.or_(e.lt(fc, 1.9e9 - m), e.and_(e.lt(4.0e9 + m, fc), e.lt(fc, 19.0e9 - m)), e.lt(40.0e9 + m, fc)))
    arr = array(e, fc)
    e.ensure("carrier frequency outside the bands is rejected",
             e.raises(lambda: scenario(e, cls, fc=fc, band="?", ut=arr, bs=arr, elev=45.0)))


@contract("C01", "rejects_elevation", FN, runs=(10, 60))
def rejects_elevation(e):
    """elevation angles outside [10, 90] degrees are rejected"""
    cls = e.choose("scenario", SCEN)
    fc, band = carrier(e)
    el = e.scalar("elev", -90., 180.)
    e.assume(e.or_(e.lt(el, 10), e.lt(90, el)))
    e.ensure("elevation outside [10,90] is rejected", e.raises(lambda: scenario(e, cls, fc=fc, band=band, elev=el)))


@contract("C01", "rejects_other", FN, runs=(6, 30))
def rejects_other(e):
    """unknown directions and objects that are not arrays are rejected"""
    cls = e.choose("scenario", SCEN)
    fc, band = carrier(e)
    d = e.choose("bad direction", ["", "up", "UPLINK", "Downlink", "both"])
    e.ensure("unknown direction is rejected", e.raises(lambda: scenario(e, cls, fc=fc, band=band, elev=45.0, direction=d or " ")))
    bad = e.choose("bad array", ["ut", "bs"])
    e.ensure("non-array is rejected", e.raises(lambda: scenario(
        e, cls, fc=fc, band=band, elev=45.0, **{bad: "not an array"}), (AssertionError, AttributeError)))
