"""C02 - parameter lookup"""
from ntnvc.registry import contract
from contracts.common import *

FN = ["SystemLevelScenario.get_param", "SystemLevelScenario._load_params", "SystemLevelScenario.num_clusters_los",
      "SystemLevelScenario.num_clusters_nlos", "SystemLevelScenario.num_clusters_max"]
SKIP = ("CL",)


def val(x):
    return float(x) if isinstance(x, str) else x


@contract("C02", "get_param", FN, runs=(8, 60))
def get_param(e):
    """each parameter of each link is the entry of the LoS/NLoS table of that link at the nearest tabulated elevation"""
    cls = e.choose("scenario", SCEN)
    el, a = elev10(e)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, elev=el, enable_pathloss=False)
    sc.set_topology(**topo_kwargs(e, B, NB, NU, los=None))
    tl, tn = table(p, True), table(p, False)
    names = sorted({k.rsplit("_", 1)[0] for k in tl if k.rsplit("_", 1)[-1] == str(a)})
    for n in names + ["CPhiNLoS", "CThetaNLoS"]:
        key = n if n in ("CPhiNLoS", "CThetaNLoS") else "%s_%d" % (n, a)
        if key not in tn:
            continue
        t = sc.get_param(n)
        vl, vn = val(tl[key]), val(tn[key])
        if float("-inf") in (vl, vn) or n.startswith("numClusters"):
            if vl == vn == float("-inf"):
                e.ensure("minus infinity " + n, e.value(t) == float("-inf") if not e.dims(t) else True)
            continue
        e.shape_is(n, t, (B, NB, NU))
        e.forall("parameter " + n, (B, NB, NU), lambda b, s, u: e.eq(e.at(t, b, s, u), e.ite(e.at(sc.los, b, s, u), vl, vn)))
    cl, cn = tl["numClusters_%d" % a], tn["numClusters_%d" % a]
    e.ensure("number of LoS clusters", e.eq(e.value(sc.num_clusters_los), cl))
    e.ensure("number of NLoS clusters", e.eq(e.value(sc.num_clusters_nlos), cn))
    e.ensure("maximum number of clusters", e.eq(e.value(sc.num_clusters_max), max(cl, cn)))


@contract("C02", "log_moments", ["%s._compute_lsp_log_mean_std" % c for c in SCEN], runs=(8, 60))
def log_moments(e):
    """the large-scale parameters' log-mean and log-std of a link are its own table entries, in the order
    DS, ASD, ASA, SF, K, ZSA, ZSD; SF and K are tabulated in dB and stored divided by ten"""
    cls = e.choose("scenario", SCEN)
    el, a = elev10(e)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, elev=el, enable_pathloss=False)
    sc.set_topology(**topo_kwargs(e, B, NB, NU, los=None))
    tl, tn = table(p, True), table(p, False)
    m, s = sc.lsp_log_mean, sc.lsp_log_std
    e.shape_is("lsp_log_mean", m, (B, NB, NU, 7))
    e.shape_is("lsp_log_std", s, (B, NB, NU, 7))

    def link(b, n, u, key, scale=1):
        g = lambda t: val(t["%s_%d" % (key, a)]) if "%s_%d" % (key, a) in t else None
        l, r = g(tl), g(tn)
        d = lambda v: e.num(0) if v is None else e.div(e.num(v), e.num(scale))
        return e.ite(e.at(sc.los, b, n, u), d(l), d(r))
    for k, nm in enumerate(["DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD"]):
        sc_ = 10 if nm in ("SF", "K") else 1
        if nm == "SF":
            e.forall("SF has zero mean", (B, NB, NU), lambda b, n, u: e.eq(e.at(m, b, n, u, k), 0))
        elif "-inf" not in (tl["mu%s_%d" % (nm, a)], tn["mu%s_%d" % (nm, a)]):
            lowest = (lambda x: e.max2(x, -100)) if nm == "ZSD" else (lambda x: x)
            e.forall("mean of " + nm, (B, NB, NU), lambda b, n, u: e.eq(e.at(m, b, n, u, k), lowest(link(b, n, u, "mu" + nm, sc_))))
        e.forall("spread of " + nm, (B, NB, NU), lambda b, n, u: e.eq(e.at(s, b, n, u, k), link(b, n, u, "sigma" + nm, sc_)))
