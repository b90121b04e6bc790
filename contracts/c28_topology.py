"""C28, C29 - generated topologies, relocation of UTs"""
from ntnvc.registry import contract
from contracts.common import *

U = "utils."
DEFAULT = {"dur": 200, "urb": 500, "sur": 5000}


def params(e, none=True):
    """the arguments of a topology (None: the default applies) and the values in force"""
    name = e.choose("scenario", list(DEFAULT))
    rng = dict(isd=(1, 1e5), bs_height=(100, 4e7), elevation_angle=(10, 90), min_ut_height=(0, 50), max_ut_height=(50, 100),
               min_ut_velocity=(0, 20), max_ut_velocity=(20, 300))
    dflt = dict(isd=DEFAULT[name], bs_height=600000, elevation_angle=80, min_ut_height=1.5, max_ut_height=1.5, min_ut_velocity=0,
                max_ut_velocity=0)
    groups = [("isd",), ("bs_height",), ("elevation_angle",), ("min_ut_height", "max_ut_height"), ("min_ut_velocity", "max_ut_velocity")]
    kw, val = {}, {}
    for g in groups:
        given = not none or e.flag("given_" + g[0])
        for n in g:
            if given:
                kw[n] = val[n] = e.scalar(n, *rng[n])
            else:
                val[n] = e.num(dflt[n])
    return name, kw, val


@contract("C28", "defaults", [U + "set_3gpp_scenario_parameters"], runs=(12, 60))
def defaults(e):
    """a parameter that is given is kept, one that is not is the default of the scenario; an unknown scenario is rejected"""
    name = e.choose("scenario", list(DEFAULT))
    order = ["isd", "bs_height", "elevation_angle", "min_ut_height", "max_ut_height", "indoor_probability", "min_ut_velocity", "max_ut_velocity"]
    dflt = [DEFAULT[name], 600000, 80, 1.5, 1.5, 0, 0, 0]
    k = e.choose("given", order + ["none", "all"])
    kw = {n: e.scalar(n, 0, 1e5) for n in order if k in (n, "all")}
    r = e.mod("utils").set_3gpp_scenario_parameters(name, precision=e.choose("precision", [None, "single", "double"]), **kw)
    e.ensure("eight parameters", len(r) == 8)
    for n, d, v in zip(order, dflt, r):
        e.ensure(n, e.eq(e.value(v), kw.get(n, e.num(d)), tol=1e-6))
    e.ensure("unknown scenario rejected", e.raises(lambda: e.mod("utils").set_3gpp_scenario_parameters("umi")))


def singles(e, m, B, N):
    """candidates: (draw shared by all UTs, two separate draws per UT)"""
    one = [d for d in e.draws(m) if d.kind == "uniform" and all(e.same(x, 1) for x in d.dims)]
    per = e.assign_draws(m, [("uniform", (B, N)), ("uniform", (B, N))], exact=False)
    return [[c] + list(p) for c in one for p in per]


@contract("C28", "drop", [U + "drop_uts_in_sector"], runs=(12, 80))
def drop(e):
    """the UTs are spread uniformly and independently over a square of side isd whose centre sees the satellite under the requested
    elevation (its horizontal distance from the sub-satellite point is h cot(elevation))"""
    B, N = e.dim("B"), e.dim("N")
    h, el, isd = e.scalar("h", 100, 4e7), e.scalar("elev", 10, 90), e.scalar("isd", 1, 1e5)
    m = e.mark()
    xy = e.mod("utils").drop_uts_in_sector(B, N, h, el, isd)
    e.shape_is("locations", xy, (B, N, 2))
    R = h * e.cos(e.deg(el)) / e.sin(e.deg(el))

    def spec(d):
        c, dx, dy = d
        x0 = e.at(c.value, *[0] * len(c.dims))
        e.ensure("centre on the ring", e.and_(e.le(0, x0), e.le(x0 * x0, R * R * e.num("1.0001"))))
        off = lambda z: lambda b, u: isd * (e.at(z.raw, b, u) - e.num("0.5"))
        e.forall("x", (B, N), lambda b, u: e.eq(e.at(xy, b, u, 0), x0 + off(dx)(b, u), tol=1e-4))
        y = lambda b, u: e.at(xy, b, u, 1) - off(dy)(b, u)
        e.forall("y", (B, N), lambda b, u: e.and_(e.le(-R * e.num("0.001") if not e.symbolic else 0, y(b, u)),
                                                  e.eq(y(b, u) ** 2 + x0 ** 2, R * R, tol=2e-3)))
    e.some("centre and offset draws", singles(e, m, B, N), spec)


@contract("C28", "uts", [U + "generate_uts_topology"], runs=(12, 80))
def uts(e):
    """each dropped UT gets its own height and speed within the given limits and a horizontal heading, is outdoors, and its panel faces
    the satellite above the origin: bearing along its own position, boresight raised by the elevation"""
    B, N = e.dim("B"), e.dim("N")
    name, kw, v = params(e, none=False)
    area = e.choose("drop_area", ["sector", "cell"])
    prec = e.choose("precision", [None, "single", "double"])
    U_ = e.mod("utils")
    xy = e.tensor("dropped", (B, N, 2), sample=(-5e4, 5e4))
    xy2 = e.tensor("relocated", (B, N, 2), sample=(-5e4, 5e4))
    cell = e.tensor("cell", (2,), sample=(-5e4, 5e4))
    if prec:
        xy, xy2, cell = (e.cast(t, prec) for t in (xy, xy2, cell))
    calls = {}
    e.stub(U_, "drop_uts_in_sector", xy, calls)
    e.stub(U_, "relocate_uts", xy2, calls)
    m = e.mark()
    loc, ori, vel, ind = U_.generate_uts_topology(
        B, N, area, cell, v["bs_height"], v["elevation_angle"], v["isd"], v["min_ut_height"], v["max_ut_height"], e.num(0) if e.symbolic else 0.,
        v["min_ut_velocity"], v["max_ut_velocity"], precision=prec)
    a, r = calls["drop_uts_in_sector"], calls["relocate_uts"]
    for n, w in (("bs_height", v["bs_height"]), ("elevation_angle", v["elevation_angle"]), ("isd", v["isd"])):
        e.ensure("dropped with the given " + n, e.eq(e.value(a[n]), w, tol=1e-6))
    e.ensure("dropped UTs", e.and_(e.same(e.value(a["batch_size"]), B), e.same(e.value(a["num_ut"]), N)))
    e.forall("relocated UTs", (B, N, 2), lambda *i: e.eq(e.at(r["ut_loc"], *i), e.at(xy, *i)))
    e.forall("relocated to the given cell", (2,), lambda k: e.eq(e.at(r["cell_loc"], k), e.at(cell, k)))
    if area == "sector":
        e.ensure("first sector", e.eq(e.value(r["sector_id"]), 0))
    for n, t, s in (("locations", loc, 3), ("orientations", ori, 3), ("velocities", vel, 3)):
        e.shape_is(n, t, (B, N, s))
        e.ensure("precision of " + n, t.dtype == xy2.dtype)
    e.shape_is("indoor", ind, (B, N))
    e.dtype_is("indoor", ind, "b")
    e.forall("outdoors", (B, N), lambda *i: e.not_(e.at(ind, *i)))
    e.forall("horizontal location", (B, N, 2), lambda *i: e.eq(e.at(loc, *i), e.at(xy2, *i)))
    slack = lambda x: x + e.num("0.0001")
    e.forall("height within the limits", (B, N), lambda b, u: e.and_(e.le(v["min_ut_height"], slack(e.at(loc, b, u, 2))),
                                                                    e.le(e.at(loc, b, u, 2), slack(v["max_ut_height"]))))
    tol = 1e-3
    e.forall("bearing", (B, N), lambda b, u: e.eq_mod(e.at(ori, b, u, 0), e.atan2(e.at(xy2, b, u, 1), e.at(xy2, b, u, 0)), 2 * e.pi, tol=tol))
    e.forall("downtilt", (B, N), lambda b, u: e.eq_mod(e.at(ori, b, u, 1), e.deg(v["elevation_angle"] + 180), 2 * e.pi, tol=tol))
    e.forall("slant", (B, N), lambda b, u: e.eq_mod(e.at(ori, b, u, 2), e.deg(v["elevation_angle"] + 90), 2 * e.pi, tol=tol))
    e.forall("level flight", (B, N), lambda b, u: e.eq(e.at(vel, b, u, 2), 0))

    def spec(d):
        ang, nrm = d
        heading = lambda b, u: e.pi * (2 * e.at(ang.raw, b, u) - 1)
        speed = lambda b, u: v["min_ut_velocity"] + (v["max_ut_velocity"] - v["min_ut_velocity"]) * e.at(nrm.raw, b, u)
        e.forall("east velocity", (B, N), lambda b, u: e.eq(e.at(vel, b, u, 0), speed(b, u) * e.cos(heading(b, u)), tol=1e-4))
        e.forall("north velocity", (B, N), lambda b, u: e.eq(e.at(vel, b, u, 1), speed(b, u) * e.sin(heading(b, u)), tol=1e-4))
    e.some("heading and speed draws", e.assign_draws(m, [("uniform", (B, N)), ("uniform", (B, N))], exact=False), spec)
    e.some("height draw", e.assign_draws(m, [("uniform", (B, N))], exact=False), lambda d: e.forall(
        "own height", (B, N), lambda b, u: e.eq(e.at(loc, b, u, 2), v["min_ut_height"] + (v["max_ut_height"] - v["min_ut_height"]) * e.at(d[0].raw, b, u), tol=1e-4)))


@contract("C28", "single_sector", [U + "gen_single_sector_topology"], runs=(12, 80))
def single_sector(e):
    """the satellite of each batch example is above the origin at the given or default altitude looking straight down, and the UTs are those
    generated from the given or default parameters"""
    B, N = e.dim("B"), e.dim("N")
    name, kw, v = params(e)
    prec = e.choose("precision", [None, "double"])
    U_ = e.mod("utils")
    ts = [e.tensor(n, (B, N, 3)) for n in ("loc", "ori", "vel")] + [e.tensor("ind", (B, N), kind="b")]
    calls = {}
    e.stub(U_, "generate_uts_topology", tuple(ts), calls)
    loc, bs, ori, bo, vel, ind = U_.gen_single_sector_topology(B, N, name, precision=prec, **kw)
    a = calls["generate_uts_topology"]
    for n in v:
        e.ensure("UTs generated with " + n, e.eq(e.value(a[n]), v[n], tol=1e-6))
    e.ensure("sector", a["drop_area"] == "sector")
    e.ensure("UTs of all examples", e.and_(e.same(e.value(a["batch_size"]), B), e.same(e.value(a["num_ut"]), N)))
    e.forall("cell at the origin", (2,), lambda k: e.eq(e.at(a["cell_loc_xy"], k), 0))
    e.ensure("precision handed on", a["precision"] == prec)
    for n, g, w in (("locations", loc, ts[0]), ("orientations", ori, ts[1]), ("velocities", vel, ts[2])):
        e.forall("UT " + n, (B, N, 3), lambda *i: e.eq(e.at(g, *i), e.at(w, *i)))
    e.forall("UT indoor states", (B, N), lambda *i: e.same(e.at(ind, *i), e.at(ts[3], *i)))
    e.shape_is("BS locations", bs, (B, 1, 3))
    e.shape_is("BS orientations", bo, (B, 1, 3))
    e.forall("satellite above the origin", (B,), lambda b: e.and_(e.eq(e.at(bs, b, 0, 0), 0), e.eq(e.at(bs, b, 0, 1), 0)))
    e.forall("altitude", (B,), lambda b: e.eq(e.at(bs, b, 0, 2), v["bs_height"], tol=1e-6))

    def boresight(b):
        m = e.matmul(e.matmul(e.rot("z", e.at(bo, b, 0, 0)), e.rot("y", e.at(bo, b, 0, 1))), e.rot("x", e.at(bo, b, 0, 2)))
        return e.matvec(m, [1, 0, 0])
    for k, w in enumerate((0, 0, -1)):
        e.forall("boresight straight down %s" % "xyz"[k], (B,), lambda b: e.eq(boresight(b)[k], w, tol=1e-5))


@contract("C29", "relocate", [U + "relocate_uts"], runs=(16, 100))
def relocate(e):
    """every UT is rotated about the origin by 120 degrees times its own sector number and moved by its own cell's position: sectors may be
    given once, per UT or per batch example and UT, and so may cells"""
    B, N = e.dim("B"), e.dim("N")
    loc = e.tensor("loc", (B, N, 2), sample=(-5e3, 5e3))
    sk = e.choose("sector", ["scalar", "per UT", "per batch example and UT"])
    ck = e.choose("cell", ["one", "per UT", "per batch example and UT"])
    sd = {"scalar": (), "per UT": (N,), "per batch example and UT": (B, N)}[sk]
    cd = {"one": (2,), "per UT": (N, 2), "per batch example and UT": (B, N, 2)}[ck]
    sec = e.tensor("sec", sd, 0, 2, kind="i")
    cell = e.tensor("cell_loc", cd, sample=(-5e3, 5e3))
    r = e.mod("utils").relocate_uts(loc, sec, cell)
    e.shape_is("locations", r, (B, N, 2))
    s = lambda b, u: e.at(sec, *(b, u)[2 - len(sd):])
    c = lambda b, u, k: e.at(cell, *(b, u, k)[3 - len(cd):])
    ang = lambda b, u: s(b, u) * 2 * e.pi / 3
    x = lambda b, u: e.at(loc, b, u, 0)
    y = lambda b, u: e.at(loc, b, u, 1)
    e.forall("x", (B, N), lambda b, u: e.eq(e.at(r, b, u, 0), e.cos(ang(b, u)) * x(b, u) - e.sin(ang(b, u)) * y(b, u) + c(b, u, 0), tol=1e-3))
    e.forall("y", (B, N), lambda b, u: e.eq(e.at(r, b, u, 1), e.sin(ang(b, u)) * x(b, u) + e.cos(ang(b, u)) * y(b, u) + c(b, u, 1), tol=1e-3))
