"""C05 - line-of-sight state"""
from ntnvc.registry import contract
from contracts.common import *

FN = ["SystemLevelScenario._sample_los", "utils.sample_bernoulli"] + ["%s.los_probability" % c for c in SCEN]


@contract("C05", "requested", FN, runs=(8, 60))
def requested(e):
    """a requested state applies to every outdoor link; indoor UTs never have line of sight"""
    cls = e.choose("scenario", SCEN)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, enable_pathloss=e.flag("pathloss"))
    kw = topo_kwargs(e, B, NB, NU, los=None)
    want = e.flag("requested")
    sc.set_topology(los=want, **kw)
    e.shape_is("los", sc.los, (B, NB, NU))
    e.dtype_is("los", sc.los, "b")
    e.forall("requested line-of-sight state", (B, NB, NU), lambda b, n, u: e.iff(
        e.at(sc.los, b, n, u), e.and_(want, e.not_(e.at(kw["in_state"], b, u)))))


@contract("C05", "drawn", FN, runs=(8, 60))
def drawn(e):
    """without a request, an outdoor link is in line of sight exactly when an independent uniform draw of that link lies below the
    tabulated probability of the environment at the nearest elevation"""
    cls = e.choose("scenario", SCEN)
    B, NB, NU = dims3(e)
    el, a = elev10(e)
    sc, p = scenario(e, cls, elev=el, enable_pathloss=False)
    kw = topo_kwargs(e, B, NB, NU, los=None)
    m = e.mark()
    sc.set_topology(**kw)
    pr = table(p, True)["LoS_p_%d" % a]
    e.shape_is("los", sc.los, (B, NB, NU))
    e.shape_is("los probability", sc.los_probability, (B, NB, NU))
    e.forall("probability of the environment and elevation", (B, NB, NU), lambda b, n, u: e.eq(e.at(sc.los_probability, b, n, u), pr))
    cands = e.assign_draws(m, [("uniform", (B, NB, NU))], exact=False)

    def spec(d):
        e.forall("Bernoulli line-of-sight state", (B, NB, NU), lambda b, n, u: e.iff(
            e.at(sc.los, b, n, u), e.and_(lt_exact(e, e.at(d[0].raw, b, n, u), pr), e.not_(e.at(kw["in_state"], b, u)))))
    e.some("Bernoulli draw", cands, spec)


def lt_exact(e, x, y):
    return e.lt(x, y)


@contract("C05", "bernoulli", ["utils.sample_bernoulli"], runs=(8, 40))
def bernoulli(e):
    """sample_bernoulli(shape, p) is true exactly where a fresh uniform draw on [0,1) is below p (probability p)"""
    B, N = e.dim("B"), e.dim("N")
    kind = e.choose("p", ["scalar", "tensor"])
    pt = e.tensor("p", (B, N), 0, 1)
    ps = e.scalar("ps", 0, 1)
    m = e.mark()
    prec = e.choose("precision", [None, "double"])
    r = e.mod("utils").sample_bernoulli([B, N], pt if kind == "tensor" else e.tscalar(ps), precision=prec)
    e.shape_is("result", r, (B, N))
    e.dtype_is("result", r, "b")

    def spec(d):
        e.forall("true with probability p", (B, N), lambda b, n: e.iff(
            e.at(r, b, n), e.lt(e.at(d[0].raw, b, n), e.at(pt, b, n) if kind == "tensor" else ps)))
    e.some("uniform draw", e.assign_draws(m, [("uniform", (B, N))]), spec)
