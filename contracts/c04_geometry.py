"""C04 - geometry derived from a topology"""
from ntnvc.registry import contract
from contracts.common import *

FN = ["SystemLevelScenario.set_topology", "SystemLevelScenario._compute_distance_2d_3d_and_angles"]


def setup(e):
    B, NB, NU = dims3(e)
    sc, p = scenario(e, "UrbanScenario", enable_pathloss=False)
    kw = topo_kwargs(e, B, NB, NU)
    # the satellite is above the horizontal plane of no UT by accident only: nothing is assumed on it,
    # except that horizontal positions do not coincide exactly with a UT (angles undefined there)
    sc.set_topology(**kw)
    return B, NB, NU, sc, p, kw


@contract("C04", "distances", FN)
def distances(e):
    """2D distances are Euclidean, the slant range is the TR 38.811 (6.6-3) distance of each BS's own altitude"""
    B, NB, NU, sc, p, kw = setup(e)
    ut, bs = kw["ut_loc"], kw["bs_loc"]
    d2 = lambda b, n, u: e.sqrt((e.at(ut, b, u, 0) - e.at(bs, b, n, 0)) ** 2 + (e.at(ut, b, u, 1) - e.at(bs, b, n, 1)) ** 2)
    e.shape_is("distance_2d", sc.distance_2d, (B, NB, NU))
    e.forall("2d distance is horizontal Euclidean", (B, NB, NU), lambda b, n, u: e.eq(e.at(sc.distance_2d, b, n, u), d2(b, n, u)))
    s = e.sin(e.deg(p["elev"]))

    def d3(b, n, u):
        h = e.at(bs, b, n, 2)
        return e.sqrt((R_E * s) ** 2 + h ** 2 + 2 * h * R_E) - R_E * s
    e.shape_is("distance_3d", sc.distance_3d, (B, NB, NU))
    e.forall("slant range of the link's own satellite", (B, NB, NU),
             lambda b, n, u: e.eq(e.at(sc.distance_3d, b, n, u), d3(b, n, u)), hyp=lambda b, n, u: e.lt(0, e.at(bs, b, n, 2)))
    e.shape_is("matrix_ut_distance_2d", sc.matrix_ut_distance_2d, (B, NU, NU))
    e.forall("UT-UT distance", (B, NU, NU), lambda b, i, j: e.eq(
        e.at(sc.matrix_ut_distance_2d, b, i, j),
        e.sqrt((e.at(ut, b, i, 0) - e.at(ut, b, j, 0)) ** 2 + (e.at(ut, b, i, 1) - e.at(ut, b, j, 1)) ** 2)))


@contract("C04", "indoor", FN + ["SystemLevelScenario._sample_indoor_distance"])
def indoor(e):
    """heights are the vertical coordinates; the indoor part of a link is zero outdoors and uniform over the scenario's range indoors,
    its slant part is in proportion, and indoor and outdoor parts make up the whole distance"""
    cls = e.choose("class", SCEN)
    B, NB, NU = dims3(e)
    sc, p = scenario(e, cls, enable_pathloss=False)
    kw = topo_kwargs(e, B, NB, NU, los=False)
    m = e.mark()
    sc.set_topology(**kw)
    e.shape_is("h_ut", sc.h_ut, (B, NU))
    e.forall("height of a UT", (B, NU), lambda b, u: e.eq(e.at(sc.h_ut, b, u), e.at(kw["ut_loc"], b, u, 2)))
    e.shape_is("h_bs", sc.h_bs, (B, NB))
    e.forall("height of a BS", (B, NB), lambda b, n: e.eq(e.at(sc.h_bs, b, n), e.at(kw["bs_loc"], b, n, 2)))
    e.ensure("batch size", e.eq(e.value(sc.batch_size), B))
    e.ensure("number of UTs", e.eq(e.value(sc.num_ut), NU))
    e.ensure("number of BSs", e.eq(e.value(sc.num_bs), NB))
    names = ("distance_2d_in", "distance_2d_out", "distance_3d_in", "distance_3d_out")
    for n in names:
        e.shape_is(n, getattr(sc, n), (B, NB, NU))
    di, do, si, so = (getattr(sc, n) for n in names)
    hyp = lambda b, n, u: e.lt(0, e.at(sc.distance_2d, b, n, u))

    def spec(d):
        z = d[0]
        lo, hi = e.value(sc.min_2d_in), e.value(sc.max_2d_in)
        e.forall("indoor distance", (B, NB, NU), lambda b, n, u: e.eq(
            e.at(di, b, n, u), e.ite(e.at(kw["in_state"], b, u), lo + (hi - lo) * e.at(z.raw, b, n, u), 0)))
    e.some("indoor distance draw", e.assign_draws(m, [("uniform", (B, NB, NU))], exact=False), spec)
    e.forall("parts of the 2D distance", (B, NB, NU), lambda b, n, u: e.eq(
        e.at(di, b, n, u) + e.at(do, b, n, u), e.at(sc.distance_2d, b, n, u), tol=1e-4))
    e.forall("parts of the slant range", (B, NB, NU), lambda b, n, u: e.eq(
        e.at(si, b, n, u) + e.at(so, b, n, u), e.at(sc.distance_3d, b, n, u), tol=1e-4), hyp=hyp)
    e.forall("slant part in proportion", (B, NB, NU), lambda b, n, u: e.eq(
        e.at(si, b, n, u) * e.at(sc.distance_2d, b, n, u), e.at(di, b, n, u) * e.at(sc.distance_3d, b, n, u), tol=1e-3), hyp=hyp)


@contract("C04", "angles", FN)
def angles(e):
    """LoS azimuth/zenith angles (degrees) are those of the BS-UT vector, and arrival mirrors departure"""
    B, NB, NU, sc, p, kw = setup(e)
    ut, bs = kw["ut_loc"], kw["bs_loc"]

    def d(b, n, u):
        return [e.at(ut, b, u, k) - e.at(bs, b, n, k) for k in range(3)]
    d2 = lambda v: e.sqrt(v[0] ** 2 + v[1] ** 2)
    g = 180 / e.pi

    def f(attr, spec):
        t = getattr(sc, attr)
        e.shape_is(attr, t, (B, NB, NU))
        e.forall(attr + " is the direction of the link", (B, NB, NU), lambda b, n, u: e.eq_mod(e.at(t, b, n, u), spec(d(b, n, u)), 360))
        e.forall(attr + " in [0,360)", (B, NB, NU), lambda b, n, u: e.and_(e.le(0, e.at(t, b, n, u)), e.le(e.at(t, b, n, u), 360)))
    f("los_aod", lambda v: e.atan2(v[1], v[0]) * g)
    f("los_aoa", lambda v: e.atan2(v[1], v[0]) * g + 180)
    f("los_zod", lambda v: e.atan2(d2(v), v[2]) * g)
    f("los_zoa", lambda v: 180 - e.atan2(d2(v), v[2]) * g)


@contract("C04", "units", ["utils.deg_2_rad", "utils.rad_2_deg", "utils.wrap_angle_0_360"], runs=(8, 60))
def units(e):
    """the angle helpers convert between degrees and radians and wrap into [0,360] without changing the direction"""
    N = e.dim("N")
    x = e.tensor("x", (N,), sample=(-1000., 1000.))
    u = e.mod("utils")
    d, r, w = u.deg_2_rad(x), u.rad_2_deg(x), u.wrap_angle_0_360(x)
    for n, t in (("radians", d), ("degrees", r), ("wrapped", w)):
        e.shape_is(n, t, (N,))
        e.ensure("precision of " + n, t.dtype == x.dtype)
    e.forall("radians", (N,), lambda i: e.eq(e.at(d, i), e.at(x, i) * e.pi / 180, tol=1e-5))
    e.forall("degrees", (N,), lambda i: e.eq(e.at(r, i), e.at(x, i) * 180 / e.pi, tol=1e-5))
    e.forall("same direction", (N,), lambda i: e.eq_mod(e.at(w, i), e.at(x, i), 360))
    e.forall("in [0,360]", (N,), lambda i: e.and_(e.le(0, e.at(w, i)), e.le(e.at(w, i), 360)))
