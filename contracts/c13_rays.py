"""C13 - C16: clusters and rays"""
from ntnvc.registry import contract
from contracts.common import *

R = "RaysGenerator."
OFFSETS = ["0.0447", "0.1413", "0.2492", "0.3715", "0.5129", "0.6797", "0.8844", "1.1481", "1.5195", "2.1551"]  # TR 38.901 Table 7.5-3


# one configuration for every pair (LoS clusters, NLoS clusters) of the tables
REPS = [("UrbanScenario", 10), ("UrbanScenario", 20), ("UrbanScenario", 70), ("SubUrbanScenario", 10), ("SubUrbanScenario", 70)]
PRANGE = {"rTau": (1.05, 5), "zeta": (0, 15), "cASD": (0, 30), "cASA": (0, 40), "cZSA": (0, 20), "CPhiNLoS": (0.3, 2), "CThetaNLoS": (0.3, 2),
          "muXPR": (-10, 40), "sigmaXPR": (0, 20), "cDS": (0, 10)}


def modular(e):
    """a scenario of every cluster count, its parameters being arbitrary tensors (get_param is used through its contract, C02)"""
    cls, a = e.choose("cluster counts of", REPS)
    x = setup(e, cls=cls, elev=(e.num(a) if e.symbolic else float(a), a), direction=e.choose("direction", ["uplink", "downlink"]), band="S")
    d3 = (x["B"], x["NB"], x["NU"])
    store = {}

    def get_param(name):
        if name not in store:
            lo, hi = PRANGE[name]
            store[name] = e.tensor("param_" + name, d3, lo, hi)
        return store[name]
    e.havoc(x["sc"], "get_param", get_param)
    x["link"] = lambda n: (lambda b, n_, u: e.at(get_param(n), b, n_, u))
    return x


def setup(e, cls=None, elev=None, los=None, direction=None, band=None):
    cls = cls or e.choose("scenario", SCEN)
    el, a = elev if elev is not None else elev10(e)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, elev=el, enable_pathloss=False, direction=direction, band=band)
    k = topo_kwargs(e, B, NB, NU, los=los)
    # TR 38.811 knows no indoor terminals
    k["in_state"] = e.build((B, NU), lambda *i: False, "b")
    sc.set_topology(**k)
    g = e.mod("rays").RaysGenerator(sc)
    g.topology_updated_callback()
    tl, tn = table(p, True), table(p, False)
    cl, cn = int(tl["numClusters_%d" % a]), int(tn["numClusters_%d" % a])
    par = lambda n, s=1: (float(tl["%s_%d" % (n, a)]), float(tn["%s_%d" % (n, a)]))
    return dict(B=B, NB=NB, NU=NU, sc=sc, g=g, p=p, k=k, a=a, cl=cl, cn=cn, C=max(cl, cn), par=par, tl=tl, tn=tn)


def link(e, x, v):
    """table value of the state of a link"""
    return lambda b, n, u: e.ite(e.at(x["sc"].los, b, n, u), v[0], v[1])


def one(e):
    return (e.num(50) if e.symbolic else 50.0, 50)


@contract("C13", "mask", [R + "_compute_clusters_mask", R + "topology_updated_callback"], runs=(8, 60), shards=3)
def mask(e):
    """a link uses exactly the first N clusters, N tabulated for its own state and elevation"""
    x = setup(e)
    dims = (x["B"], x["NB"], x["NU"], x["C"])
    m = x["g"]._cluster_mask
    e.shape_is("mask", m, dims)
    N = link(e, x, (x["cl"], x["cn"]))
    e.forall("unused clusters are masked", dims, lambda b, n, u, c: e.eq(e.at(m, b, n, u, c), e.ite(e.lt(c, N(b, n, u)), 0, 1)))


def ctau(e, K):
    kd = 10 * e.log10(K)
    return e.num("0.7705") - e.num("0.0433") * kd + e.num("0.0002") * kd ** 2 + e.num("0.000017") * kd ** 3


@contract("C13", "delays", [R + "_cluster_delays"], runs=(8, 60), shards=5)
def delays(e):
    """cluster delays are independent exponentials of scale r*DS, in ascending order and relative to the earliest; LoS delays are
    divided by the Rician scaling of TR 38.901 (7.5-3)"""
    x = modular(e)
    dims = (x["B"], x["NB"], x["NU"], x["C"])
    C = x["C"]
    ds = e.tensor("ds", dims[:3], 1e-10, 1e-3, sample=(1e-9, 1e-6))
    K = e.tensor("K", dims[:3], 1e-5, 1e5, sample=(1e-4, 1e4))
    m = e.mark()
    d, dun = x["g"]._cluster_delays(ds, K)
    e.shape_is("delays", d, dims)
    e.shape_is("unscaled delays", dun, dims)
    r = x["link"]("rTau")
    N = link(e, x, (x["cl"], x["cn"]))

    def spec(ds_):
        z = ds_[0]
        lo, hi = e.value(z.par["lo"]), e.value(z.par["hi"])
        e.ensure("uniform on (0,1]", e.and_(e.lt(0, lo), e.le(lo, 1e-6), e.eq(hi, 1)))

        def un(b, n, u):
            raw = lambda c: e.ite(e.lt(c, N(b, n, u)), -r(b, n, u) * e.at(ds, b, n, u) * e.ln(e.at(z.value, b, n, u, c)), 1)
            lowest = e.min(C, raw)
            return lambda c: e.sorted(C, lambda k: raw(k) - lowest, c)
        e.forall("unscaled delays", dims, lambda b, n, u, c: e.eq(e.at(dun, b, n, u, c), un(b, n, u)(c), tol=1e-5))
        e.forall("scaled delays", dims, lambda b, n, u, c: e.eq(
            e.at(d, b, n, u, c), e.at(dun, b, n, u, c) / e.ite(e.at(x["sc"].los, b, n, u), ctau(e, e.at(K, b, n, u)), 1), tol=1e-5))
    e.some("uniform draw", e.assign_draws(m, [("uniform", dims)]), spec)
    e.forall("unscaled delays ascend", dims, lambda b, n, u, c: e.or_(e.same(c, 0), e.le(e.at(dun, b, n, u, c - 1 if not same0(e, c) else c), e.at(dun, b, n, u, c))))
    e.forall("unscaled delays are not negative", dims, lambda b, n, u, c: e.le(0, e.at(dun, b, n, u, c)))


def same0(e, c):
    return (not e.symbolic) and c == 0 or (e.symbolic and getattr(c, "op", "") == "c" and c.args[0] == 0)


@contract("C14", "powers", [R + "_cluster_powers"], runs=(8, 60), shards=5)
def powers(e):
    """cluster powers decay exponentially with delay under per-cluster log-normal shadowing, vanish on unused clusters and sum to one;
    the powers that steer angles get the Rician weight of the LoS path on the first cluster of LoS links"""
    x = modular(e)
    dims = (x["B"], x["NB"], x["NU"], x["C"])
    C = x["C"]
    ds = e.tensor("ds", dims[:3], 1e-10, 1e-3, sample=(1e-8, 1e-6))
    K = e.tensor("K", dims[:3], 1e-5, 1e5, sample=(1e-4, 1e4))
    tau = e.tensor("tau", dims, 0, 1e-2, sample=(0., 1e-7))
    m = e.mark()
    P, PA = x["g"]._cluster_powers(ds, K, tau)
    e.shape_is("powers", P, dims)
    e.shape_is("powers for angles", PA, dims)
    r = x["link"]("rTau")
    zeta = x["link"]("zeta")
    N = link(e, x, (x["cl"], x["cn"]))

    def spec(dr):
        z = dr[0]

        def raw(b, n, u, c):
            rr = r(b, n, u)
            v = e.exp(-e.at(tau, b, n, u, c) * (rr - 1) / (rr * e.at(ds, b, n, u))) * e.pow10(-zeta(b, n, u) * e.at(z.raw, b, n, u, c) / 10)
            return e.ite(e.lt(c, N(b, n, u)), v, 0)
        e.forall("normalised powers", dims, lambda b, n, u, c: e.eq(
            e.at(P, b, n, u, c), raw(b, n, u, c) / e.sum(C, lambda k: raw(b, n, u, k)), tol=1e-4))
    e.some("shadowing draw", e.assign_draws(m, [("normal", dims)]), spec)
    e.forall("powers sum to one", dims[:3], lambda b, n, u: e.eq(e.sum(C, lambda c: e.at(P, b, n, u, c)), 1, tol=1e-5))
    e.forall("powers are not negative", dims, lambda b, n, u, c: e.le(0, e.at(P, b, n, u, c)))

    def ang(b, n, u, c):
        k = e.at(K, b, n, u)
        p = e.at(P, b, n, u, c)
        return e.ite(e.at(x["sc"].los, b, n, u), p / (k + 1) + e.ite(e.same(c, 0), k / (k + 1), 0), p)
    e.forall("powers for the angles", dims, lambda b, n, u, c: e.eq(e.at(PA, b, n, u, c), ang(b, n, u, c), tol=1e-5))


def offset(e, r):
    """offset of ray r"""
    v = None
    for k in range(19, -1, -1):
        o = e.num(OFFSETS[k // 2]) * (1 if k % 2 == 0 else -1)
        v = o if v is None else e.ite(e.same(r, k), o, v)
    return v


def angle_inputs(e, x, spread_name):
    dims = (x["B"], x["NB"], x["NU"], x["C"])
    sp = e.tensor(spread_name, dims[:3], 0, 104, sample=(0., 100.))
    K = e.tensor("K", dims[:3], 1e-5, 1e5, sample=(1e-4, 1e4))
    P = e.tensor("power", dims, 0, 1, sample=(1e-7, 1.))
    return dims, sp, K, P


def zz(e, P, C, b, n, u, c):
    q = e.at(P, b, n, u, c) / e.max(C, lambda k: e.at(P, b, n, u, k))
    return e.min2(e.max2(q, 1e-6), 1)


def spread(e, x, sp, b, n, u, dep):
    s = e.at(sp, b, n, u)
    return e.ite(e.le(160000, e.at(x["k"]["bs_loc"], b, n, 2), tol=1e-12), 0, s) if dep else s


def cpoly(e, K, c):
    kd = 10 * e.log10(K)
    return sum((e.num(v) * kd ** i for i, v in enumerate(c[1:], 1)), e.num(c[0]))


def azimuth_contract(e, dep):
    x = modular(e)
    C = x["C"]
    dims, sp, K, P = angle_inputs(e, x, "spread")
    sc, g = x["sc"], x["g"]
    # the strongest cluster has power
    m = e.mark()
    A = (g._azimuth_angles_of_departure if dep else g._azimuth_angles_of_arrival)(sp, K, P)
    full = dims + (20,)
    e.shape_is("azimuth angles", A, full)
    los = sc.los_aod if dep else sc.los_aoa
    cray = x["link"]("cASD" if dep else "cASA")
    cphi = x["link"]("CPhiNLoS")

    def spec(dr):
        sg, cmp_ = dr
        e.ensure("random sign", e.and_(e.eq(e.value(sg.par["lo"]), 0), e.eq(e.value(sg.par["hi"]), 2)))

        def cluster(b, n, u, c):
            L = e.at(sc.los, b, n, u)
            C_ = cphi(b, n, u) * e.ite(L, cpoly(e, e.at(K, b, n, u), ["1.1035", "-0.028", "-0.002", "0.0001"]), 1)
            s = spread(e, x, sp, b, n, u, dep)

            def dev(k):
                prime = 2 * s / e.num("1.4") * e.sqrt(-e.ln(zz(e, P, C, b, n, u, k))) / C_
                return (2 * e.at(sg.value, b, n, 0, k) - 1) * prime + e.at(cmp_.raw, b, n, u, k) * s / 7
            return e.at(los, b, n, u) + dev(c) - e.ite(L, dev(0), 0)

        def want(b, n, u, c, r):
            v = cluster(b, n, u, c) + cray(b, n, u) * offset(e, r)
            w = e.mod(v, 360)
            return e.ite(e.lt(180, w), w - 360, w)
        okk = lambda b, n, u, c, r: e.and_(e.lt(0, e.max(C, lambda k: e.at(P, b, n, u, k))),
                                           e.lt(1e-3, e.abs(cpoly(e, e.at(K, b, n, u), ["1.1035", "-0.028", "-0.002", "0.0001"]))))
        e.forall("azimuth of each ray", full, lambda b, n, u, c, r: ang_eq(e, e.at(A, b, n, u, c, r), want(b, n, u, c, r)), hyp=okk)
    e.some("sign and offset draws", e.assign_draws(m, [("uniform_int", dims[:2] + (1, C)), ("normal", dims)]), spec)
    e.forall("azimuth in (-180,180]", full, lambda b, n, u, c, r: e.and_(e.le(-180, e.at(A, b, n, u, c, r)), e.le(e.at(A, b, n, u, c, r), 180)))


def ang_eq(e, a, b):
    if e.symbolic:
        return e.eq(a, b)
    return e.eq_mod(a, b, 360, tol=2e-5) or e.eq_mod(a, -b, 360, tol=2e-5) and (abs(a) > 179 or abs(a) < 1e-2)


@contract("C15", "azimuth_arrival", [R + "_azimuth_angles", R + "_azimuth_angles_of_arrival"], runs=(8, 60), shards=5)
def azimuth_arrival(e):
    """ray azimuths of arrival: cluster angle of TR 38.901 step 7 about the LoS direction (exact for the first cluster of a LoS link)
    plus the tabulated ray offsets, wrapped to (-180,180]"""
    azimuth_contract(e, False)


@contract("C15", "azimuth_departure", [R + "_azimuth_angles", R + "_azimuth_angles_of_departure"], runs=(8, 60), shards=5)
def azimuth_departure(e):
    """ray azimuths of departure: as of arrival; a satellite (altitude of the link's own BS at least 160 km) has no cluster spread"""
    azimuth_contract(e, True)


def zenith_contract(e, dep):
    x = modular(e)
    C = x["C"]
    dims, sp, K, P = angle_inputs(e, x, "spread")
    sc, g = x["sc"], x["g"]
    m = e.mark()
    A = (g._zenith_angles_of_departure if dep else g._zenith_angles_of_arrival)(sp, K, P)
    full = dims + (20,)
    e.shape_is("zenith angles", A, full)
    los = sc.los_zod if dep else sc.los_zoa
    cth = x["link"]("CThetaNLoS")
    if dep:
        cray = lambda b, n, u: e.num(3) / 8 * e.pow10(e.at(sc.lsp_log_mean, b, n, u, 6))
        e.forall("zenith offset", dims[:3], lambda b, n, u: e.eq(e.at(sc.zod_offset, b, n, u), e.ite(
            e.at(sc.los, b, n, u), 0, e.atan(e.num("31.5") / e.at(sc.distance_2d, b, n, u)) - e.atan(e.num("33.5") / e.at(sc.distance_2d, b, n, u))), tol=1e-4))
    else:
        cray = x["link"]("cZSA")
    poly = ["1.3086", "0.0339", "-0.0077", "0.0002"]

    def spec(dr):
        sg, cmp_ = dr
        e.ensure("random sign", e.and_(e.eq(e.value(sg.par["lo"]), 0), e.eq(e.value(sg.par["hi"]), 2)))

        def want(b, n, u, c, r):
            L = e.at(sc.los, b, n, u)
            C_ = cth(b, n, u) * e.ite(L, cpoly(e, e.at(K, b, n, u), poly), 1)
            s = spread(e, x, sp, b, n, u, dep)

            def dev(k):
                prime = -s * e.ln(zz(e, P, C, b, n, u, k)) / C_
                return (2 * e.at(sg.value, b, n, 0, k) - 1) * prime + e.at(cmp_.raw, b, n, u, k) * s / 7
            off = e.at(sc.zod_offset, b, n, u) if dep else 0
            v = e.at(los, b, n, u) + dev(c) + e.ite(L, -dev(0), off) + cray(b, n, u) * offset(e, r)
            w = e.mod(v, 360)
            return e.ite(e.lt(180, w), 360 - w, w)
        okk = lambda b, n, u, c, r: e.and_(e.lt(0, e.max(C, lambda k: e.at(P, b, n, u, k))),
                                           e.lt(1e-3, e.abs(cpoly(e, e.at(K, b, n, u), poly))))
        e.forall("zenith of each ray", full, lambda b, n, u, c, r: e.eq(
            e.at(A, b, n, u, c, r), want(b, n, u, c, r), tol=1e-4) if e.symbolic else abs(e.at(A, b, n, u, c, r) - want(b, n, u, c, r)) < 2e-2, hyp=okk)
    e.some("sign and offset draws", e.assign_draws(m, [("uniform_int", dims[:2] + (1, C)), ("normal", dims)]), spec)
    e.forall("zenith in [0,180]", full, lambda b, n, u, c, r: e.and_(e.le(0, e.at(A, b, n, u, c, r)), e.le(e.at(A, b, n, u, c, r), 180)))


@contract("C15", "zenith_arrival", [R + "_zenith_angles", R + "_zenith_angles_of_arrival"], runs=(8, 60), shards=5)
def zenith_arrival(e):
    """ray zenith angles of arrival, folded into [0,180]"""
    zenith_contract(e, False)


@contract("C15", "zenith_departure", [R + "_zenith_angles", R + "_zenith_angles_of_departure"], runs=(8, 60), shards=5)
def zenith_departure(e):
    """ray zenith angles of departure, with the ZoD offset on NLoS links, folded into [0,180]; no cluster spread at a satellite"""
    zenith_contract(e, True)


@contract("C16", "coupling", [R + "_random_coupling", R + "_shuffle_angles"], runs=(8, 60))
def coupling(e):
    """within each cluster the rays of every angle are independently permuted (each angle appears exactly once), and nothing moves
    between clusters, links or batch examples"""
    x = modular(e)
    full = (x["B"], x["NB"], x["NU"], x["C"], 20)
    names = ["aoa", "aod", "zoa", "zod"]
    ts = [e.tensor(n, full, sample=(-180., 180.)) for n in names]
    m = e.mark()
    out = x["g"]._random_coupling(*ts)
    e.ensure("four angles", len(out) == 4)
    ds = e.assign_draws(m, [("normal|uniform", (x["B"], x["NB"], 1, x["C"], 20))] * 4)

    def spec(perm):
        for nm, t, o, d in zip(names, ts, out, perm):
            e.shape_is(nm, o, full)
            e.forall("permutation of " + nm, full, lambda b, n, u, c, r: e.eq(
                e.at(o, b, n, u, c, r), e.at(t, b, n, u, c, e.order(20, lambda k: e.at(d.raw, b, n, 0, c, k), r))))
    e.some("independent permutations", ds, spec)


@contract("C16", "xpr", [R + "_cross_polarization_power_ratios"], runs=(8, 60), shards=5)
def xpr(e):
    """cross-polarisation ratios are log-normal per ray with the tabulated mean and deviation of the link's own state, and positive"""
    x = modular(e)
    full = (x["B"], x["NB"], x["NU"], x["C"], 20)
    m = e.mark()
    X = x["g"]._cross_polarization_power_ratios()
    e.shape_is("xpr", X, full)
    mu, sd = x["link"]("muXPR"), x["link"]("sigmaXPR")

    def spec(d):
        e.forall("cross-polarisation ratio", full, lambda b, n, u, c, r: e.eq(
            e.at(X, b, n, u, c, r), e.pow10((mu(b, n, u) + sd(b, n, u) * e.at(d[0].raw, b, n, u, c, r)) / 10), tol=1e-4))
    e.some("normal draw", e.assign_draws(m, [("normal", full)]), spec)
    e.forall("positive", full, lambda *i: e.lt(0, e.at(X, *i)))
