"""C10 - composition of the path loss"""
from ntnvc.registry import contract
from contracts.common import *

FN = ["utils.compute_pathloss_basic", "utils.compute_pathloss_entry", "LSPGenerator.sample_pathloss"] + \
     ["%s._compute_pathloss_%s" % (c, m) for c in SCEN for m in ("basic", "entry", "gas", "scintillation")]


def setup(e, shadow, los=None, **kw):
    cls = e.choose("scenario", SCEN)
    B, NB, NU = dims3(e)
    el, a = elev10(e)
    sc, p = scenario(e, cls, elev=el, enable_shadow_fading=shadow, **kw)
    k = topo_kwargs(e, B, NB, NU, los=los)
    m = e.mark()
    sc.set_topology(**k)
    return B, NB, NU, a, sc, p, k, m


def fspl(e, sc, p, b, n, u):
    return e.num(32.45) + 20 * e.log10(p["fc"] / 10 ** 9) + 20 * e.log10(e.at(sc.distance_3d, b, n, u))


@contract("C10", "no_shadowing", FN, runs=(8, 60))
def no_shadowing(e):
    """with shadow fading disabled the basic path loss is the free-space loss, plus the clutter loss of the environment at the
    nearest elevation on NLoS links only"""
    B, NB, NU, a, sc, p, k, m = setup(e, False)
    cl = table(p, False)["CL_%d" % a]
    h = lambda b, n, u: e.lt(0, e.at(sc.distance_3d, b, n, u))
    e.shape_is("free space", sc.free_space_pathloss, (B, NB, NU))
    e.shape_is("basic", sc.basic_pathloss, (B, NB, NU))
    e.forall("free-space path loss", (B, NB, NU), lambda b, n, u: e.eq(
        e.at(sc.free_space_pathloss, b, n, u), fspl(e, sc, p, b, n, u)), hyp=h)
    e.forall("basic path loss without shadow fading", (B, NB, NU), lambda b, n, u: e.eq(
        e.at(sc.basic_pathloss, b, n, u), fspl(e, sc, p, b, n, u) + e.ite(e.at(sc.los, b, n, u), 0, cl)), hyp=h)


@contract("C10", "shadowing", FN, runs=(8, 60))
def shadowing(e):
    """with shadow fading enabled a zero-mean Gaussian of the tabulated deviation of the link's own state is added"""
    B, NB, NU, a, sc, p, k, m = setup(e, True)
    cl = table(p, False)["CL_%d" % a]
    sl, sn = table(p, True)["sigmaSF_%d" % a], table(p, False)["sigmaSF_%d" % a]
    ds = [d for d in e.draws(m) if d.kind == "normal"]
    e.shape_is("basic", sc.basic_pathloss, (B, NB, NU))
    std = lambda d, i: (e.at(d.raw, *i) if True else None)

    def spec(zz):
        e.forall("basic path loss with shadow fading", (B, NB, NU), lambda b, n, u: e.eq(
            e.at(sc.basic_pathloss, b, n, u),
            fspl(e, sc, p, b, n, u) + e.ite(e.at(sc.los, b, n, u), sl * std(zz[0], (b, n, u)), cl + sn * std(zz[1], (b, n, u)))),
            hyp=lambda b, n, u: e.lt(0, e.at(sc.distance_3d, b, n, u)))
    e.some("shadow fading draw", [(x, y) for x in ds for y in ds], spec)


@contract("C10", "total", FN + ["LSPGenerator.__init__"], runs=(8, 60))
def total(e):
    """the total path loss is the sum of the basic, gas, scintillation and building-entry losses of the link; the entry loss of an
    outdoor-only model is zero"""
    B, NB, NU, a, sc, p, k, m = setup(e, e.flag("shadow"))
    g = e.mod("lsp").LSPGenerator(sc)
    pl = g.sample_pathloss()
    e.shape_is("total", pl, (B, NB, NU))
    e.forall("sum of the components", (B, NB, NU), lambda b, n, u: e.eq(
        e.at(pl, b, n, u), e.at(sc.basic_pathloss, b, n, u) + e.at(sc.gas_pathloss, b, n, u)
        + e.at(sc.scintillation_pathloss, b, n, u) + e.at(sc.entry_pathloss, b, n, u)))
    e.forall("entry loss is zero", (B, NB, NU), lambda b, n, u: e.eq(e.at(sc.entry_pathloss, b, n, u), 0))
