"""C12 - scintillation loss"""
from ntnvc.registry import contract
from contracts.common import *

FN = ["utils.compute_pathloss_scintilation"] + ["%s._compute_pathloss_scintillation" % c for c in SCEN]


@contract("C12", "ionospheric", FN, runs=(8, 60))
def ionospheric(e):
    """below 6 GHz: ionospheric scintillation 1.1 dB at 4 GHz, scaled by (f/4)^-1.5 and 1/sqrt(2), independent of the atmosphere"""
    cls = e.choose("scenario", SCEN)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, band="S")
    sc.set_topology(**topo_kwargs(e, B, NB, NU, los=None))
    f = p["fc"] / 10 ** 9
    want = e.num("1.1") * e.pow(f / 4, e.num("-1.5")) / e.sqrt(2)
    e.shape_is("scintillation", sc.scintillation_pathloss, (B, NB, NU))
    e.forall("ionospheric scintillation", (B, NB, NU), lambda b, n, u: e.eq(e.at(sc.scintillation_pathloss, b, n, u), want))


@contract("C12", "tropospheric", FN, runs=(12, 80))
def tropospheric(e):
    """above 6 GHz: tropospheric scintillation of ITU-R P.618 for 0.01 % of the time, finite and non-negative for every atmosphere and
    earth station, and zero where the antenna averaging makes the radicand negative"""
    cls = e.choose("scenario", SCEN)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, band="Ka")
    kw = topo_kwargs(e, B, NB, NU, los=None)
    T, H = e.scalar("T", 240, 320), e.scalar("humidity", 1, 100)
    D, eta = e.scalar("D", 0.05, 20), e.scalar("eta", 0.05, 1)
    given = e.choose("given", ["all", "default"])
    if given == "all":
        kw.update(temperature=T, relative_humidity=H, diameter_earth_antenna=D, antenna_efficiency=eta)
    else:
        T, H, D, eta = e.num(273), e.num(50), e.num("3.6"), e.num("0.5")
    sc.set_topology(**kw)
    q = e.num
    f = p["fc"] / 10 ** 9
    t = T - 273
    es = q("6.1121") * e.exp(q("17.502") * t / (t + q("240.97")))
    nwet = 3732 * H * es / (t + 273) ** 2
    sref = q("0.0036") + nwet * q("0.0001")
    s = e.sin(e.deg(p["elev"]))
    L = 2000 / (e.sqrt(s ** 2 + q("0.000235")) + s)
    x = q("1.22") * (e.sqrt(eta) * D) ** 2 * f / L
    rad = q("3.86") * e.pow(x ** 2 + 1, q(11) / 12) * e.sin(q(11) / 6 * e.atan(1 / x)) - q("7.08") * e.pow(x, q(5) / 6)
    g = e.sqrt(e.max2(rad, 0))
    sigma = sref * e.pow(f, q(7) / 12) * g / e.pow(s, q("1.2"))
    lp = -2
    ap = -q("0.061") * lp ** 3 + q("0.072") * lp ** 2 - q("1.71") * lp + 3
    e.shape_is("scintillation", sc.scintillation_pathloss, (B, NB, NU))
    e.forall("tropospheric scintillation", (B, NB, NU), lambda b, n, u: e.eq(
        e.at(sc.scintillation_pathloss, b, n, u), e.abs(ap * sigma), tol=1e-5))
    e.forall("scintillation is not negative", (B, NB, NU), lambda b, n, u: e.le(0, e.at(sc.scintillation_pathloss, b, n, u)))
