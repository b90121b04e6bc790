"""C07 / C08 / C09 - large-scale parameters and their correlation"""
from ntnvc.registry import contract
from contracts.common import *

FN = ["LSPGenerator.__call__", "LSPGenerator.topology_updated_callback", "LSP.__init__"]
PAR = ["DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD"]
OUT = ["ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd"]
CAP = {"asd": 104, "asa": 104, "zsa": 52, "zsd": 52}


def setup(e, los=None, elev=None, direction=None, band=None, cls=None, **kw):
    cls = cls or e.choose("scenario", SCEN)
    el, a = elev if elev is not None else elev10(e)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, elev=el, enable_pathloss=False, direction=direction, band=band)
    if not kw.pop("far", True):
        kw["ut"] = e.tensor("near_ut_loc", (B, NU, 3), sample=(-60., 60.))
    k = topo_kwargs(e, B, NB, NU, los=los, **kw)
    m = e.mark()
    sc.set_topology(**k)
    g = e.mod("lsp").LSPGenerator(sc)
    return B, NB, NU, a, sc, p, k, g


@contract("C07", "generation", FN, runs=(8, 60))
def generation(e):
    """the seven large-scale parameters of a link are 10^(mean + std * s): s is a standard normal vector mixed by the Cholesky factor
    of the link's cross-correlation matrix and, per parameter, by the factor of the spatial correlation between the UTs of the same BS;
    azimuth spreads are capped at 104 degrees and zenith spreads at 52 degrees"""
    B, NB, NU, a, sc, p, k, g = setup(e, elev=(e.num(50) if e.symbolic else 50.0, 50), direction=e.choose("direction", ["uplink", "downlink"]), band="S",
                                      cls="UrbanScenario")
    g.topology_updated_callback()
    ch = e.chol()
    m = e.mark()
    lsp = g()
    z = e.assign_draws(m, [("normal", (B, NB, NU, 7))])
    cands = [(x, y, d[0]) for x in ch for y in ch for d in z if x is not y or len(ch) == 1]

    def spec(c):
        X, Y, d = c
        e.shape_is("cross factor", X[1], (B, NB, NU, 7, 7))
        e.shape_is("spatial factor", Y[1], (B, NB, 7, NU, NU))
        for i, o in enumerate(OUT):
            t = getattr(lsp, o)
            e.shape_is(o, t, (B, NB, NU))

            def val(b, n, u):
                s = e.sum(NU, lambda v: e.at(Y[1], b, n, i, u, v) * e.sum(7, lambda j: e.at(X[1], b, n, v, i, j) * e.at(d.raw, b, n, v, j)))
                r = e.pow10(e.at(sc.lsp_log_mean, b, n, u, i) + e.at(sc.lsp_log_std, b, n, u, i) * s)
                return e.min2(r, CAP[o]) if o in CAP else r
            e.forall("large-scale parameter " + o, (B, NB, NU), lambda b, n, u: e.eq(e.at(t, b, n, u), val(b, n, u), tol=1e-5))
    e.some("standard normal draw", cands, spec)


@contract("C07", "bounds", FN, runs=(8, 60))
def bounds(e):
    """every large-scale parameter is positive, and the angular spreads stay within their caps"""
    B, NB, NU, a, sc, p, k, g = setup(e, elev=(e.num(50) if e.symbolic else 50.0, 50), direction="uplink")
    g.topology_updated_callback()
    lsp = g()
    for o in OUT:
        t = getattr(lsp, o)
        e.forall(o + " positive", (B, NB, NU), lambda b, n, u: e.lt(0, e.at(t, b, n, u)))
        if o in CAP:
            e.forall(o + " capped", (B, NB, NU), lambda b, n, u: e.le(e.at(t, b, n, u), CAP[o]))


PAIRS = {}
for i, x in enumerate(PAR):
    for j, y in enumerate(PAR):
        PAIRS["corr%svs%s" % (x, y)] = (i, j)


@contract("C08", "cross", ["LSPGenerator._compute_cross_lsp_correlation_matrix", "SystemLevelScenario.get_param"], runs=(8, 60), shards=3)
def cross(e):
    """the matrix that correlates the seven large-scale parameters of a link is symmetric with unit diagonal, and its off-diagonal
    entries are the coefficients of the link's own (LoS or NLoS) table at the nearest elevation"""
    B, NB, NU, a, sc, p, k, g = setup(e)
    g.topology_updated_callback()
    e.ensure("every pair of parameters has a coefficient", len(coefficients(p, a)) == 42)
    e.some("factored cross-correlation matrix", e.chol(), lambda X: cross_spec(e, X[0], (B, NB, NU), sc, p, a))


def coefficients(p, a):
    tl, tn = table(p, True), table(p, False)
    coef = {}
    for nm, (i, j) in PAIRS.items():
        key = "%s_%d" % (nm, a)
        if key in tl or key in tn:
            coef[i, j] = coef[j, i] = (tl.get(key, 0), tn.get(key, 0))
    return coef


def cross_spec(e, M, dims, sc, p, a):
    coef = coefficients(p, a)
    e.shape_is("cross-correlation matrix", M, dims + (7, 7))
    for i in range(7):
        for j in range(7):
            w = (1, 1) if i == j else coef[i, j]
            e.forall("coefficient %s/%s" % (PAR[i], PAR[j]), dims, lambda b, n, u: e.eq(
                e.at(M, b, n, u, i, j), e.ite(e.at(sc.los, b, n, u), w[0], w[1])))


def spatial_spec(e, M, dims, sc, p, a, k):
    B, NB, NU = dims
    tl, tn = table(p, True), table(p, False)
    ut, ind = k["ut_loc"], k["in_state"]
    e.shape_is("spatial correlation matrix", M, (B, NB, 7, NU, NU))
    for i, nm in enumerate(PAR):
        dl, dn = tl["corrDist%s_%d" % (nm, a)], tn["corrDist%s_%d" % (nm, a)]

        def want(b, n, u, v):
            d = e.sqrt((e.at(ut, b, u, 0) - e.at(ut, b, v, 0)) ** 2 + (e.at(ut, b, u, 1) - e.at(ut, b, v, 1)) ** 2)
            lu, lv, iu, iv = e.at(sc.los, b, n, u), e.at(sc.los, b, n, v), e.at(ind, b, u), e.at(ind, b, v)
            same = e.and_(e.iff(lu, lv), e.iff(iu, iv))
            return e.ite(same, e.exp(-d / e.ite(lu, dl, dn)), e.ite(e.same(u, v), 1, 0))
        e.forall("correlation of " + nm, (B, NB, NU, NU), lambda b, n, u, v: e.eq(e.at(M, b, n, i, u, v), want(b, n, u, v)))
        e.ensure("positive correlation distance of " + nm, e.and_(dl > 0, dn > 0))


@contract("C09", "spatial", ["LSPGenerator._compute_lsp_spatial_correlation_sqrt", "SystemLevelScenario.get_param"], runs=(8, 60), shards=3)
def spatial(e):
    """per BS and parameter, two UTs in the same state (LoS / outdoor NLoS / indoor) correlate by exp(-d/D) with the tabulated
    correlation distance D of that state, UTs in different states do not correlate, and every UT has unit variance"""
    B, NB, NU, a, sc, p, k, g = setup(e, far=False)
    g.topology_updated_callback()
    e.some("factored spatial correlation matrix", e.chol(), lambda X: spatial_spec(e, X[0], (B, NB, NU), sc, p, a, k))


@contract("C09", "exponential", ["SystemLevelScenario.spatial_correlation_matrix"], runs=(4, 20))
def exponential(e):
    """the scenario's exponential correlation over the UTs"""
    B, NB, NU, a, sc, p, k, g = setup(e, elev=(e.num(50) if e.symbolic else 50.0, 50), direction="uplink", band="S", cls="UrbanScenario", los=True, far=False)
    D = e.scalar("D", 1, 1000)
    M = sc.spatial_correlation_matrix(D)
    ut = k["ut_loc"]
    e.shape_is("matrix", M, (B, NU, NU))
    d = lambda b, u, v: e.sqrt((e.at(ut, b, u, 0) - e.at(ut, b, v, 0)) ** 2 + (e.at(ut, b, u, 1) - e.at(ut, b, v, 1)) ** 2)
    e.forall("exponential", (B, NU, NU), lambda b, u, v: e.eq(e.at(M, b, u, v), e.exp(-d(b, u, v) / D)))


@contract("C08", "factor_used", FN, runs=(6, 30))
def factor_used(e):
    """what the generator mixes with are the factors of the two matrices of the current topology, after every update"""
    B, NB, NU, a, sc, p, k, g = setup(e, elev=(e.num(50) if e.symbolic else 50.0, 50), direction="uplink", band="Ka", cls="DenseUrbanScenario", los=False)
    g.topology_updated_callback()
    how = e.choose("update", ["all", "los"])
    if how == "all":
        k = topo_kwargs(e, B, NB, NU, prefix="second_", los=None, ut=e.tensor("second_ut", (B, NU, 3), sample=(-60., 60.)))
    sc.set_topology(los=True, **(k if how == "all" else {}))
    g.topology_updated_callback()
    m = e.mark()
    lsp = g()
    z = e.assign_draws(m, [("normal", (B, NB, NU, 7))])
    ch = e.chol()

    def spec(c):
        X, Y, d = c
        cross_spec(e, X[0], (B, NB, NU), sc, p, a)
        spatial_spec(e, Y[0], (B, NB, NU), sc, p, a, k)
        mixed(e, lsp, ("sf", "ds"), X[1], Y[1], d, sc, (B, NB, NU))
    e.some("standard normal draw", [(x, y, d[0]) for x in ch for y in ch for d in z], spec)


def mixed(e, lsp, names, X, Y, d, sc, dims):
    """the large-scale parameters are those of draw d mixed by the factors X and Y"""
    NU = dims[2]
    e.shape_is("cross factor", X, dims + (7, 7))
    e.shape_is("spatial factor", Y, dims[:2] + (7, NU, NU))
    for o in names:
        i, t = OUT.index(o), getattr(lsp, o)

        def val(b, n, u):
            s = e.sum(NU, lambda v: e.at(Y, b, n, i, u, v) * e.sum(7, lambda j: e.at(X, b, n, v, i, j) * e.at(d.raw, b, n, v, j)))
            return e.pow10(e.at(sc.lsp_log_mean, b, n, u, i) + e.at(sc.lsp_log_std, b, n, u, i) * s)
        e.forall("parameter " + o + " uses the new factors", dims, lambda b, n, u: e.eq(e.at(t, b, n, u), val(b, n, u), tol=1e-5))
