"""C11 - gaseous attenuation"""
from ntnvc.registry import contract
from contracts.common import *

FN = ["utils.compute_pathloss_gas"] + ["%s._compute_pathloss_gas" % c for c in SCEN]


def spec_gas(e, f, T, p, pw, elev):
    """slant-path attenuation in dB (ITU-R P.676 annex 2 approximation used by the package), f in GHz, T in K, p in hPa, pw in g/m3"""
    q = lambda s: e.num(s)
    rt, rp = 288 / T, p / 1013
    E = lambda x: e.exp(x)
    P = lambda b, x: e.pow(b, q(x))
    n1 = q("0.955") * rp * P(rt, "0.68") + q("0.006") * pw
    n2 = q("0.735") * rp * P(rt, "0.5") + q("0.0353") * rt ** 4 * pw
    g = lambda fi: 1 + ((f - fi) / (f + fi)) ** 2
    lines = [  # strength, width exponent, line, half-width^2 factor (None: none), g?
        ("3.98", "2.23", "22.235", "9.42", q(22), n1), ("11.96", "0.7", "183.31", "11.14", None, n1),
        ("0.081", "6.44", "321.226", "6.29", None, n1), ("3.66", "1.6", "325.153", "9.22", None, n1),
        ("25.37", "1.09", "380", None, None, n1), ("17.4", "1.46", "448", None, None, n1),
        ("844.6", "0.17", "557", None, q(557), n1), ("290", "0.41", "752", None, q(752), n1),
        ("83328", "0.99", "1780", None, q(1780), n2)]
    yw = 0
    for s, x, l, w, gi, n in lines:
        d = (f - q(l)) ** 2 + (q(w) * n ** 2 if w else 0)
        t = q(s) * n * E(q(x) * (1 - rt)) / d
        yw = yw + (t * g(gi) if gi is not None else t)
    yw = yw * f ** 2 * P(rt, "2.5") * pw * q("0.0001")
    c = q("1.013") / (1 + E(-q("8.1") * (rp - q("0.57"))))
    hw = q("1.66") * (1 + q("1.39") * c / ((f - q("22.235")) ** 2 + q("2.56") * c)
                      + q("3.37") * c / ((f - q("183.31")) ** 2 + q("4.69") * c)
                      + q("1.5") * c / ((f - q("325.1")) ** 2 + q("2.89") * c))
    x1 = P(rp, "0.0717") * P(rt, "-1.8132") * E(q("0.0156") * (1 - rp) - q("1.6515") * (1 - rt))
    x2 = P(rp, "0.5146") * P(rt, "-4.6368") * E(-q("0.1921") * (1 - rp) - q("5.7416") * (1 - rt))
    x3 = P(rp, "0.3414") * P(rt, "-6.5851") * E(q("0.213") * (1 - rp) - q("8.5854") * (1 - rt))
    yo = (q("7.2") * P(rt, "2.8") / (f ** 2 + q("0.34") * rp ** 2 * P(rt, "1.6"))
          + q("0.62") * x3 / (e.pow(54 - f, q("1.16") * x1) + q("0.83") * x2)) * f ** 2 * rp ** 2 * q("0.001")
    t1 = q("4.64") / (1 + q("0.066") * P(rp, "-2.3")) * E(-((f - q("59.7")) / (q("2.87") + q("12.4") * E(-q("7.9") * rp))) ** 2)
    t2 = q("0.14") * E(q("2.12") * rp) / ((f - q("118.75")) ** 2 + q("0.031") * E(q("2.2") * rp))
    t3 = q("0.0114") / (1 + q("0.14") * P(rp, "-2.6")) * f * (
        (-q("0.0247") + q("0.0001") * f + q("0.00000161") * f ** 2)
        / (1 - q("0.0169") * f + q("0.000041") * f ** 2 + q("0.00000032") * f ** 3))
    ho = q("6.1") / (1 + q("0.17") * P(rp, "-1.1")) * (1 + t1 + t2 + t3)
    return (yo * ho + yw * hw) / e.sin(e.deg(elev))


@contract("C11", "attenuation", FN, runs=(12, 80))
def attenuation(e):
    """the gas loss of every link is the slant-path attenuation for the scenario's carrier, elevation and atmosphere, whether the
    atmosphere is the default one or given with the topology"""
    cls = e.choose("scenario", SCEN)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls)
    kw = topo_kwargs(e, B, NB, NU, los=None)
    given = e.choose("atmosphere", ["default", "all", "temperature"])
    T, pr, pw = e.scalar("T", 230, 320), e.scalar("press", 800, 1100), e.scalar("vapour", 1, 25)
    if given == "all":
        kw.update(temperature=T, atmospheric_pressure=pr, water_vapor_density=pw)
    elif given == "temperature":
        kw.update(temperature=T)
    sc.set_topology(**kw)
    T, pr, pw = {"default": (e.num(273), e.num(1020), e.num(7.5)), "all": (T, pr, pw),
                 "temperature": (T, e.num(1020), e.num(7.5))}[given]
    want = spec_gas(e, p["fc"] / 10 ** 9, T, pr, pw, p["elev"])
    e.shape_is("gas loss", sc.gas_pathloss, (B, NB, NU))
    e.forall("gas loss of every link", (B, NB, NU), lambda b, n, u: e.eq(e.at(sc.gas_pathloss, b, n, u), e.abs(want), tol=1e-5))
    e.forall("gas loss is not negative", (B, NB, NU), lambda b, n, u: e.le(0, e.at(sc.gas_pathloss, b, n, u)))
