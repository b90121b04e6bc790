"""C17, C20 - C25: channel coefficients"""
from ntnvc.registry import contract
from contracts.common import *

G = "ChannelCoefficientsGenerator."


class Field:
    """an element pattern: any field on the sphere"""

    def __init__(self, e, name):
        self.e, self.n = e, name

    def field(self, theta, phi):
        return self.e.ufield(self.n + ".t", theta, phi), self.e.ufield(self.n + ".p", theta, phi)

    def at(self, theta, phi):
        return [self.e.ufun(self.n + ".t", theta, phi), self.e.ufun(self.n + ".p", theta, phi)]


class Arr:
    """an antenna array known only by its contract (C18, C19): positions, elements' fields and polarization partition"""

    def __init__(self, e, name, pol):
        self.polarization = pol
        k = e.dim("pol2_" + name, sample=2)
        n = k + e.dim("pol1_" + name, sample=2)
        self.n, self.k = n, k
        self.ant_pos = e.tensor("pos_" + name, (n, 3), sample=(-0.2, 0.2))
        self.ant_pol1 = Field(e, name + "1")
        if pol == "dual":
            self.ant_pol2 = Field(e, name + "2")
            self.num_ant = e.tscalar(n, "i") if not e.symbolic else e.tf.shape(self.ant_pos)[0]
            self.ant_ind_pol2 = e.tensor("ind_" + name, (k,), 0, n - 1, kind="i", gen=lambda r, d: r.permutation(max(int(n), d[0]))[:d[0]])
        else:
            self.num_ant = e.tf.shape(self.ant_pos)[0]

    def count(self, e, ant):
        """how often an antenna is listed with the second polarization"""
        return e.sum(self.k, lambda j: e.ite(e.same(e.at(self.ant_ind_pol2, j), ant), 1, 0))

    def partition(self, e, ant):
        """each antenna has one polarization (C19)"""
        return True if self.polarization == "single" else e.le(self.count(e, ant), 1)


def generator(e, tx=None, rx=None, sub=True):
    fc, band = carrier(e, "S")
    return e.mod("channel_coefficients").ChannelCoefficientsGenerator(fc, tx, rx, subclustering=sub), fc


def R(e, o):
    """rotation of TR 38.901 (7.1-2): bearing about z, downtilt about y, slant about x"""
    return e.matmul(e.matmul(e.rot("z", o[0]), e.rot("y", o[1])), e.rot("x", o[2]))


def T_(m):
    return [list(r) for r in zip(*m)]


def unit(e, th, ph):
    return [e.sin(th) * e.cos(ph), e.sin(th) * e.sin(ph), e.cos(th)]


@contract("C17", "rotation", [G + "_forward_rotation_matrix", G + "_reverse_rotation_matrix", G + "_rot_pos", G + "_unit_sphere_vector"], runs=(8, 60))
def rotation(e):
    """orientation (bearing, downtilt, slant) acts as the rotation Rz Ry Rx; its inverse is the transpose"""
    g, fc = generator(e)
    B, N, K = e.dim("B"), e.dim("N"), e.dim("K")
    o = e.tensor("orient", (B, N, 3), sample=(-4., 4.))
    ang = lambda b, n: [e.at(o, b, n, k) for k in range(3)]
    f = g._forward_rotation_matrix(o)
    r = g._reverse_rotation_matrix(o)
    e.shape_is("rotation", f, (B, N, 3, 3))
    e.shape_is("inverse rotation", r, (B, N, 3, 3))
    e.forall("rotation", (B, N, 3, 3), lambda b, n, i, j: e.eq(e.at(f, b, n, i, j), R(e, ang(b, n))[int(e.evalint(i))][int(e.evalint(j))], tol=1e-5))
    e.forall("inverse rotation", (B, N, 3, 3), lambda b, n, i, j: e.eq(
        sum((e.at(r, b, n, i, k) * e.at(f, b, n, k, j) for k in range(3)), 0), 1 if e.evalint(i) == e.evalint(j) else 0, tol=1e-4))
    p = e.tensor("pos", (B, N, 3, 1))
    q = g._rot_pos(o, p)
    e.shape_is("rotated position", q, (B, N, 3, 1))
    e.forall("rotated position", (B, N, 3), lambda b, n, i: e.eq(
        e.at(q, b, n, i, 0), e.matvec(R(e, ang(b, n)), [e.at(p, b, n, k, 0) for k in range(3)])[e.evalint(i)], tol=1e-4))
    th, ph = e.tensor("theta", (B, N), sample=(0., 3.14)), e.tensor("phi", (B, N), sample=(-4., 4.))
    u = g._unit_sphere_vector(th, ph)
    e.shape_is("unit vector", u, (B, N, 3, 1))
    e.forall("unit vector", (B, N, 3), lambda b, n, i: e.eq(e.at(u, b, n, i, 0), unit(e, e.at(th, b, n), e.at(ph, b, n))[e.evalint(i)], tol=1e-5))


@contract("C17", "local_angles", [G + "_gcs_to_lcs"], runs=(8, 60))
def local_angles(e):
    """a direction seen by a rotated array is the inversely rotated direction"""
    g, fc = generator(e)
    B, N, D = e.dim("B"), e.dim("N"), e.dim("D")
    o = e.tensor("orient", (B, N, 1, 3), sample=(-4., 4.))
    th, ph = e.tensor("theta", (B, N, D), sample=(0., 3.14)), e.tensor("phi", (B, N, D), sample=(-4., 4.))
    t, p = g._gcs_to_lcs(o, th, ph)
    e.shape_is("zenith", t, (B, N, D))
    e.shape_is("azimuth", p, (B, N, D))

    def loc(b, n, d):
        return e.matvec(T_(R(e, [e.at(o, b, n, 0, k) for k in range(3)])), unit(e, e.at(th, b, n, d), e.at(ph, b, n, d)))

    def near_pole(b, n, d):
        z = loc(b, n, d)[2]
        return e.and_(e.lt(-0.999, z), e.lt(z, 0.999)) if not e.symbolic else True
    clip = lambda z: e.max2(-1, e.min2(1, z))
    e.forall("zenith", (B, N, D), lambda b, n, d: e.eq(e.at(t, b, n, d), e.acos(clip(loc(b, n, d)[2])), tol=2e-3))
    e.forall("azimuth", (B, N, D), lambda b, n, d: e.eq_mod(e.at(p, b, n, d), e.atan2(loc(b, n, d)[1], loc(b, n, d)[0]), 2 * e.pi, tol=2e-3), hyp=near_pole)


def psi_cs(e, o, th, ph):
    """the polarization basis of the rotated array, seen in the global one: its zenith unit vector is the projection of its z axis"""
    e3 = [r[2] for r in R(e, o)]
    st, ct, sp, cp = e.sin(th), e.cos(th), e.sin(ph), e.cos(ph)
    u = -e.dot([ct * cp, ct * sp, -st], e3)
    w = -e.dot([-sp, cp, 0], e3)
    psi = e.atan2(w, u)
    return e.cos(psi), e.sin(psi)


def to_global(e, f, o, th, ph):
    c, s = psi_cs(e, o, th, ph)
    return [c * f[0] - s * f[1], s * f[0] + c * f[1]]


@contract("C17", "polarization_rotation", [G + "_l2g_response", G + "_compute_psi"], runs=(8, 60))
def polarization_rotation(e):
    """the field of a rotated element is its local field, rotated by the angle between local and global zenith directions"""
    g, fc = generator(e)
    B, N, D = e.dim("B"), e.dim("N"), e.dim("D")
    o = e.tensor("orient", (B, N, 1, 3), sample=(-4., 4.))
    th, ph = e.tensor("theta", (B, N, D), sample=(0., 3.14)), e.tensor("phi", (B, N, D), sample=(-4., 4.))
    f = e.tensor("field", (B, N, D, 2), sample=(-2., 2.))
    r = g._l2g_response(f, o, th, ph)
    e.shape_is("field", r, (B, N, D, 2, 1))
    e.forall("field", (B, N, D, 2), lambda b, n, d, i: e.eq(e.at(r, b, n, d, i, 0), to_global(
        e, [e.at(f, b, n, d, 0), e.at(f, b, n, d, 1)], [e.at(o, b, n, 0, k) for k in range(3)], e.at(th, b, n, d), e.at(ph, b, n, d))[e.evalint(i)], tol=1e-3))
    e.forall("energy is kept", (B, N, D), lambda b, n, d: e.eq(
        e.at(r, b, n, d, 0, 0) ** 2 + e.at(r, b, n, d, 1, 0) ** 2, e.at(f, b, n, d, 0) ** 2 + e.at(f, b, n, d, 1) ** 2, tol=1e-4))


# ------------------------------------------------------------------ step 11
def angles(e, dims, n):
    return e.tensor(n, dims, sample=(0., 3.14) if n.startswith("z") else (-4., 4.))


class Ctx:
    """a network of abstract arrays, its topology and rays"""

    def __init__(self, e, pol=None, los=False, M=None, C=None, sub=True, doppler=None):
        self.e = e
        pt, pr = pol or e.choose("polarizations", [("single", "single"), ("dual", "single"), ("single", "dual"), ("dual", "dual")])
        self.tx, self.rx = Arr(e, "tx", pt), Arr(e, "rx", pr)
        self.g, self.fc = generator(e, self.tx, self.rx, sub)
        self.down = e.choose("direction", ["downlink", "uplink"]) == "downlink"
        self.B, self.NT, self.NR = e.dim("B"), e.dim("NTX"), e.dim("NRX")
        self.link = (self.B, self.NT, self.NR)
        self.C = C if C is not None else e.dim("C")
        self.M = M if M is not None else e.dim("M")
        self.T = e.dim("T")
        self.d5 = self.link + (self.C, self.M)
        self.vel = e.tensor("vel", (self.B, self.NR if self.down else self.NT, 3), sample=(-30., 30.))
        self.ot = e.tensor("tx_or", (self.B, self.NT, 3), sample=(-4., 4.))
        self.orx = e.tensor("rx_or", (self.B, self.NR, 3), sample=(-4., 4.))
        self.los = {n: angles(e, self.link, "los_" + n) for n in ("aoa", "aod", "zoa", "zod")}
        self.NB = self.NT if self.down else self.NR
        self.h = e.tensor("bs_height", (self.B, self.NB), 0, 5e7, sample=(1e5, 1.1e6))
        self.elev = elevation(e)
        self.doppler = e.choose("doppler_enabled", [True, False]) if doppler is None else doppler
        self.d3 = e.tensor("d3", self.link, 0, 1e8, sample=(0., 10.))
        self.is_los = e.tensor("los", self.link, kind="b")
        self.top = e.mod("channel_coefficients").Topology(
            velocities=self.vel, moving_end="rx" if self.down else "tx", los_aoa=self.los["aoa"], los_aod=self.los["aod"], los_zoa=self.los["zoa"],
            los_zod=self.los["zod"], los=self.is_los, distance_3d=self.d3, tx_orientations=self.ot, rx_orientations=self.orx, bs_height=self.h,
            elevation_angle=self.elev, doppler_enabled=self.doppler)
        self.speed = e.tensor("sat_speed", (self.B, self.NB), sample=(-7500., 7500.))
        self.top.sat_speed = self.speed
        self.t = e.tensor("t", (self.T,), 0, 1, sample=(0., 1e-6 if self.doppler else 3e-4))  # phases within float32

    def rays(self):
        e = self.e
        self.ray = {n: angles(e, self.d5, n) for n in ("aoa", "aod", "zoa", "zod")}
        self.xpr = e.tensor("xpr", self.d5, 0, 1e6, lo_open=True, sample=(0.5, 100.))
        self.P = e.tensor("P", self.d5[:4], 0, 1)
        self.delays = e.tensor("delays", self.d5[:4], 0, 1)
        self.phi = e.tensor("phi", self.d5 + (4,), sample=(-3.1, 3.1))
        return e.mod("rays").Rays(delays=self.delays, powers=self.P, aoa=self.ray["aoa"], aod=self.ray["aod"], zoa=self.ray["zoa"], zod=self.ray["zod"],
                                  xpr=self.xpr)

    def k0(self):
        """wave number"""
        return 2 * self.e.pi * self.fc / 299792458

    def bs(self, x, i):
        """value of x of the BS of link i"""
        return self.e.at(x, i[0], i[1] if self.down else i[2])

    def sat(self, i):
        return self.e.le(600000, self.bs(self.h, i))

    def ang(self, a, i):
        return {n: self.e.at(a[n], *i) for n in a}

    def doppler_at(self, a, i, t):
        """(7.5-22) and TR 38.811 6.8.1"""
        e = self.e
        v = [e.at(self.vel, i[0], i[2] if self.down else i[1], k) for k in range(3)]
        u = unit(e, a["zoa"], a["aoa"]) if self.down else unit(e, a["zod"], a["aod"])
        s = e.ite(self.sat(i), self.bs(self.speed, i), 0) if self.doppler else 0
        return e.cis(self.k0() * (e.dot(u, v) + s) * e.at(self.t, t))

    def offset_at(self, a, i, ra, ta):
        e = self.e
        pos = lambda arr, o, n, k: e.matvec(R(e, [e.at(o, i[0], n, j) for j in range(3)]), [e.at(arr.ant_pos, k, j) for j in range(3)])
        return e.cis(self.k0() * (e.dot(unit(e, a["zoa"], a["aoa"]), pos(self.rx, self.orx, i[2], ra)) +
                                  e.dot(unit(e, a["zod"], a["aod"]), pos(self.tx, self.ot, i[1], ta))))

    def field_at(self, arr, ant, o, n, b, th, ph):
        """global field of an antenna"""
        e = self.e
        o = [e.at(o, b, n, j) for j in range(3)]
        x, y, z = e.matvec(T_(R(e, o)), unit(e, th, ph))
        lt, lp = e.acos(e.max2(-1, e.min2(1, z))), e.atan2(y, x)
        f = arr.ant_pol1.at(lt, lp)
        if arr.polarization == "dual":
            two = e.not_(e.same(arr.count(e, ant), 0))
            f2 = arr.ant_pol2.at(lt, lp)
            f = [e.ite(two, q, p) for p, q in zip(f, f2)]
        return to_global(e, f, o, th, ph)

    def ftx(self, a, i, ta): return self.field_at(self.tx, ta, self.ot, i[1], i[0], a["zod"], a["aod"])
    def frx(self, a, i, ra): return self.field_at(self.rx, ra, self.orx, i[2], i[0], a["zoa"], a["aoa"])

    def phase_at(self, i):
        e = self.e
        q = e.sqrt(e.div(1, e.at(self.xpr, *i)))
        c = [e.cis(e.at(self.phi, *(tuple(i) + (k,)))) for k in range(4)]
        return [[c[0], q * c[1]], [q * c[2], c[3]]]

    def faraday(self, i, m):
        """m applied behind the Faraday rotation of (TR 38.811 6.6.3) by 108/f^2 degrees, f in GHz, for satellites"""
        e = self.e
        f = self.fc / 1000000000
        psi = e.deg(e.div(108, f * f))
        c, s = e.cos(psi), e.sin(psi)
        mf = [[m[r][0] * c + m[r][1] * s, m[r][1] * c - m[r][0] * s] for r in range(2)]
        return [[e.ite(self.sat(i), mf[r][k], m[r][k]) for k in range(2)] for r in range(2)]

    def coupling(self, m, fr, ft):
        return sum((m[r][k] * fr[r] * ft[k] for r in range(2) for k in range(2)), 0)


@contract("C20", "satellite_speed", ["Topology.__init__", "compute_satellite_speed"], runs=(8, 60))
def satellite_speed(e):
    """the radial speed of each satellite is its own orbital speed sqrt(G M / (R_E + h)), times cos(elevation) and the cosine of a
    direction drawn uniformly in [0, 2 pi) per batch example"""
    m = e.mark()
    x = Ctx.__new__(Ctx)
    e2 = e
    B, NB, NU = dims3(e)
    h = e.tensor("bs_height", (B, NB), 0, 5e7, sample=(1e5, 3.7e7))
    a = angles(e, (B, NB, NU), "los_aoa")
    el = elevation(e)
    top = e.mod("channel_coefficients").Topology(
        velocities=a, moving_end="rx", los_aoa=a, los_aod=a, los_zoa=a, los_zod=a, los=a, distance_3d=a, tx_orientations=a, rx_orientations=a, bs_height=h,
        elevation_angle=el, doppler_enabled=True)
    e.shape_is("speed", top.sat_speed, (B, NB))
    mu = e.num("6.6743e-11") * e.num("5.972e24") if e.symbolic else 6.6743e-11 * 5.972e24
    sp = e.mod("utils").compute_satellite_speed(h)
    e.shape_is("orbital speed", sp, (B, NB))
    v = lambda b, n: e.at(sp, b, n)
    near = lambda q: e.and_(e.le(e.num("0.99999"), q), e.le(q, e.num("1.00001")))
    e.forall("orbital speed", (B, NB), lambda b, n: e.and_(e.le(0, v(b, n)), near(v(b, n) ** 2 * (6371000 + e.at(h, b, n)) / mu)))

    def spec(d):
        z = d[0]
        e.forall("speed", (B, NB), lambda b, n: e.eq(e.at(top.sat_speed, b, n), v(b, n) * e.cos(e.deg(el)) * e.cos(2 * e.pi * e.at(z.raw, b)), tol=1e-3))
    e.some("direction", e.assign_draws(m, [("uniform", (B,))]), spec)


@contract("C20", "doppler", [G + "_step_11_doppler_matrix"], runs=(12, 80))
def doppler(e):
    """the phase of each ray advances by 2 pi / lambda times the speed of the UT along the ray and, behind a satellite of at least
    600 km altitude with Doppler enabled, its own radial speed"""
    x = Ctx(e, ("single", "single"))
    x.rays()
    a = x.ray
    h = x.g._step_11_doppler_matrix(x.top, a["aoa"], a["zoa"], a["aod"], a["zod"], x.t)
    e.shape_is("phases", h, x.d5 + (x.T,))
    e.forall("phases", x.d5 + (x.T,), lambda *i: e.eq(e.at(h, *i), x.doppler_at(x.ang(a, i[:5]), i, i[5]), tol=3e-3))


@contract("C21", "array_offsets", [G + "_step_11_array_offsets", G + "_step_11_get_tx_antenna_positions", G + "_step_11_get_rx_antenna_positions"], runs=(12, 80))
def array_offsets(e):
    """antenna pairs see the phase 2 pi / lambda times the projection of their rotated positions on the ray's directions"""
    x = Ctx(e, ("single", "single"))
    x.rays()
    a = x.ray
    h = x.g._step_11_array_offsets(x.top, a["aoa"], a["aod"], a["zoa"], a["zod"])
    dims = x.d5 + (x.rx.n, x.tx.n)
    e.shape_is("offsets", h, dims)
    e.forall("offsets", dims, lambda *i: e.eq(e.at(h, *i), x.offset_at(x.ang(a, i[:5]), i, i[5], i[6]), tol=3e-3))


@contract("C22", "rotation_matrix", [G + "_step_11_faraday_rotation"], runs=(8, 60))
def faraday(e):
    """the Faraday rotation matrix turns by 108/f^2 degrees for every ray"""
    fc, band = carrier(e)
    g = generator(e)[0]
    d5 = tuple(e.dim(n) for n in ("B", "N1", "N2", "C", "M"))
    m = g._step_11_faraday_rotation(carrier_frequency=fc, aod_shape=e.tf.shape(e.tensor("aod", d5)))
    f = fc / 1000000000
    psi = e.deg(e.div(108, f * f))
    c, s = e.cos(psi), e.sin(psi)
    e.shape_is("matrix", m, d5 + (2, 2))
    e.forall("matrix", d5 + (2, 2), lambda *i: e.eq(e.at(m, *i), [[c, -s], [s, c]][e.evalint(i[5])][e.evalint(i[6])], tol=1e-5))


@contract("C23", "phase_matrix", [G + "_step_11_phase_matrix", G + "_step_10"], runs=(8, 60))
def phase_matrix(e):
    """each ray has its own phases, uniform on [-pi, pi), and cross-polar terms attenuated by the square root of its XPR"""
    x = Ctx(e, ("single", "single"))
    r = x.rays()
    m = x.g._step_11_phase_matrix(x.phi, r)
    e.shape_is("matrix", m, x.d5 + (2, 2))
    e.forall("matrix", x.d5 + (2, 2), lambda *i: e.eq(e.at(m, *i), x.phase_at(i[:5])[e.evalint(i[5])][e.evalint(i[6])], tol=1e-4))
    k = e.mark()
    p = x.g._step_10(e.tf.shape(r.aoa))
    e.shape_is("phases", p, x.d5 + (4,))

    def spec(d):
        e.forall("phases", x.d5 + (4,), lambda *i: e.eq(e.at(p, *i), e.pi * (2 * e.at(d[0].raw, *i) - 1), tol=1e-5))
    e.some("draw", e.assign_draws(k, [("uniform", x.d5 + (4,))]), spec)


@contract("C23", "field_matrix", [G + "_step_11_field_matrix"], runs=(12, 80), shards=4)
def field_matrix(e):
    """each antenna pair couples through F_rx^T Phi F_tx, with the fields of its own elements (by polarization index) in the direction
    of the ray as seen by the rotated arrays, turned back to the global polarization basis"""
    x = Ctx(e)
    x.rays()
    a = x.ray
    ph = e.tensor("phase", x.d5 + (2, 2), kind="c", sample=(-2., 2.))
    h = x.g._step_11_field_matrix(x.top, a["aoa"], a["aod"], a["zoa"], a["zod"], ph)
    dims = x.d5 + (x.rx.n, x.tx.n)
    e.shape_is("field", h, dims)

    def want(*i):
        q = x.ang(a, i[:5])
        m = [[e.at(ph, *(i[:5] + (r, k))) for k in range(2)] for r in range(2)]
        return x.coupling(m, x.frx(q, i, i[5]), x.ftx(q, i, i[6]))
    e.forall("field", dims, lambda *i: e.eq(e.at(h, *i), want(*i), tol=5e-3), hyp=lambda *i: e.and_(x.rx.partition(e, i[5]), x.tx.partition(e, i[6])))


def nlos_at(x, i, ra, ta, t):
    """(7.5-28) for one ray i = (batch, tx, rx, cluster, ray)"""
    e = x.e
    a = x.ang(x.ray, i)
    m = x.faraday(i, x.phase_at(i))
    f = x.coupling(m, x.frx(a, i, ra), x.ftx(a, i, ta))
    return f * x.offset_at(a, i, ra, ta) * x.doppler_at(a, i, t) * e.sqrt(e.at(x.P, *i[:4]) / x.M)


def los_at(x, i, ra, ta, t):
    """(7.5-29) for one link i = (batch, tx, rx)"""
    e = x.e
    a = x.ang(x.los, i)
    m = x.faraday(i, [[e.cx(1, 0), e.cx(0, 0)], [e.cx(0, 0), e.cx(-1, 0)]])
    f = x.coupling(m, x.frx(a, i, ra), x.ftx(a, i, ta))
    return f * x.offset_at(a, i, ra, ta) * x.doppler_at(a, i, t) * e.cis(x.k0() * e.at(x.d3, *i))


PART = lambda x: lambda *i: x.e.and_(x.rx.partition(x.e, i[-3]), x.tx.partition(x.e, i[-2]))


@contract("C22", "nlos_rays", [G + "_step_11_nlos"], runs=(12, 80), shards=4)
def nlos_rays(e):
    """a NLoS ray is sqrt(P/M) times its field coupling (Faraday rotated behind a satellite of at least 600 km), array offset and Doppler"""
    x = Ctx(e)
    r = x.rays()
    h = x.g._step_11_nlos(x.phi, x.top, r, x.t, x.fc)
    dims = x.d5 + (x.rx.n, x.tx.n, x.T)
    e.shape_is("rays", h, dims)
    e.forall("rays", dims, lambda *i: e.eq(e.at(h, *i), nlos_at(x, i[:5], *i[5:]), tol=1e-2), hyp=PART(x))


@contract("C22", "los_path", [G + "_step_11_los"], runs=(12, 80), shards=4)
def los_path(e):
    """the LoS path is its field coupling diag(1,-1) (Faraday rotated likewise), array offset, Doppler and the phase of its length"""
    x = Ctx(e)
    h = x.g._step_11_los(x.top, x.t, x.fc)
    dims = x.link + (1, x.rx.n, x.tx.n, x.T)
    e.shape_is("path", h, dims)
    e.forall("path", dims, lambda *i: e.eq(e.at(h, *i), los_at(x, i[:3], *i[4:]), tol=2e-2), hyp=PART(x))


SUB = [[0, 1, 2, 3, 4, 5, 6, 7, 18, 19], [8, 9, 10, 11, 16, 17], [12, 13, 14, 15]]  # Table 7.5-5
OFF = ["0", "1.28", "2.56"]


def reduced(e, sub, C, M, P, delays, c_ds, H, i):
    """number of paths of link i, and delay and coefficient of path q before sorting; H(cluster, ray) is the coefficient of a ray"""
    if not sub:
        return C, (lambda q: e.at(delays, *i, q)), (lambda q: e.sum(M, lambda m: H(q, m)))
    s = lambda k: e.order(C, lambda c: e.at(P, *i, c), k, True)

    def delay(q):
        d = e.at(delays, *i, s(q - 4))
        for k in range(6):
            d = e.ite(e.same(q, k), e.at(delays, *i, s(e.num(k % 2) if e.symbolic else k % 2)) + e.num(OFF[k // 2]) * e.at(c_ds, *i), d)
        return d

    def coeff(q):
        h = e.sum(M, lambda m: H(s(q - 4), m))
        for k in (2, 1, 0):
            h = e.ite(e.lt(q, 2 * k + 2), sum((H(s(q - 2 * k), m) for m in SUB[k]), 0), h)
        return h
    if not e.symbolic:      # s(q - 4) is meaningful for q >= 6 only
        f, g = delay, coeff
        dl = [e.at(delays, *i, s(k % 2)) + e.num(OFF[k // 2]) * e.at(c_ds, *i) for k in range(6)]
        delay = lambda q: dl[q] if q < 6 else e.at(delays, *i, s(q - 4))
        coeff = lambda q: sum((H(s(q % 2), m) for m in SUB[q // 2]), 0) if q < 6 else e.sum(M, lambda m: H(s(q - 4), m))
    return C + 4, delay, coeff


@contract("C24", "clusters", [G + "_step_11_reduce_nlos"], runs=(12, 80), shards=2)
def clusters(e):
    """the rays of a cluster add up to one path; the two strongest clusters split into three sub-clusters each, of fixed rays and delay
    offsets 0, 1.28 and 2.56 times the cluster delay spread; paths come in the order of their delays"""
    sub = e.choose("subclustering", [True, False])
    g, fc = generator(e, sub=sub)
    link = (e.dim("B"), e.dim("NTX"), e.dim("NRX"))
    C = e.dim("C", lo=2, sample=4)
    M = 20 if sub else e.dim("M")
    ra, ta, T = e.dim("RA"), e.dim("TA"), e.dim("T")
    P = e.tensor("P", link + (C,), 0, 1)
    d = e.tensor("delays", link + (C,), 0, 1)
    c_ds = e.tensor("c_ds", link, 0, 1)
    h = e.tensor("h", link + (C, M, ra, ta, T), kind="c", sample=(-2., 2.))
    z = e.tensor("aoa", link + (C, M))
    rays = e.mod("rays").Rays(delays=d, powers=P, aoa=z, aod=z, zoa=z, zod=z, xpr=z)
    hr, dr = g._step_11_reduce_nlos(h, rays, c_ds)
    N = C + (4 if sub else 0)
    e.shape_is("coefficients", hr, link + (N, ra, ta, T))
    e.shape_is("delays", dr, link + (N,))

    def want(i, k, tail=None):
        n, dl, co = reduced(e, sub, C, M, P, d, c_ds, (lambda c, m: e.at(h, *i, c, m, *tail)) if tail else None, i)
        o = e.order(n, dl, k)
        return dl(o) if tail is None else co(o)
    e.forall("delays", link + (N,), lambda b, t, r, k: e.eq(e.at(dr, b, t, r, k), want((b, t, r), k), tol=1e-5))
    e.forall("coefficients", link + (N, ra, ta, T), lambda b, t, r, k, *tail: e.eq(e.at(hr, b, t, r, k, *tail), want((b, t, r), k, tail), tol=1e-4))


@contract("C25", "combination", [G + "_step_11"], runs=(12, 80), shards=2)
def combination(e):
    """a LoS link is its NLoS paths weighted by sqrt(1/(K+1)) plus the LoS path weighted by sqrt(K/(K+1)) on the earliest path; other
    links are their NLoS paths"""
    x = Ctx(e, ("single", "single"), doppler=True)
    K = e.tensor("K", x.link, 0, 1e6, sample=(0., 10.))
    Q = e.dim("Q")
    cds = e.tensor("c_ds", x.link)
    r = x.rays()
    tail = (x.rx.n, x.tx.n, x.T)
    hf = e.tensor("h_full", x.d5 + tail, kind="c")
    hn = e.tensor("h_nlos", x.link + (Q,) + tail, kind="c")
    hl = e.tensor("h_los", x.link + (1,) + tail, kind="c")
    dl = e.tensor("delays_nlos", x.link + (Q,))
    e.havoc(x.g, "_step_11_nlos", lambda *a, **k: hf)
    e.havoc(x.g, "_step_11_reduce_nlos", lambda *a, **k: (hn, dl))
    e.havoc(x.g, "_step_11_los", lambda *a, **k: hl)
    h, d = x.g._step_11(x.phi, x.top, K, r, x.t, cds, x.fc)
    check_combination(e, x, K, Q, (lambda i, q, t: e.at(hn, *i, q, *t)), (lambda i, t: e.at(hl, *i, 0, *t)), (lambda i, q: e.at(dl, *i, q)), h, d, tail)


def check_combination(e, x, K, Q, nlos, los, delay, h, d, tail, hyp=None, tol=1e-4):
    e.shape_is("coefficients", h, x.link + (Q,) + tail)
    e.shape_is("delays", d, x.link + (Q,))
    e.forall("delays", x.link + (Q,), lambda b, t, r, q: e.eq(e.at(d, b, t, r, q), delay((b, t, r), q), tol=1e-5))

    def want(b, t, r, q, *tl):
        i = (b, t, r)
        k = e.at(K, *i)
        n = nlos(i, q, tl)
        first = e.ite(e.same(q, 0), los(i, tl) * e.sqrt(e.div(k, k + 1)), e.cx(0, 0))
        return e.ite(e.at(x.is_los, *i), n * e.sqrt(e.div(1, k + 1)) + first, n)
    e.forall("coefficients", x.link + (Q,) + tail, lambda *i: e.eq(e.at(h, *i), want(*i), tol=tol), hyp=hyp)


@contract("C25", "call", [G + "__call__", G + "_step_10", G + "_step_11"], runs=(12, 80))
def call(e):
    """a call draws four independent phases uniform on (-pi, pi) per ray, samples time at n / f_s, and hands these and the given topology,
    rays, K-factors and cluster delay spreads to the functions that make the NLoS rays, their clusters and the LoS path"""
    x = Ctx(e, ("single", "single"), doppler=True)
    K = e.tensor("K", x.link, 0, 1e6, sample=(0., 10.))
    Q = e.dim("Q")
    cds = e.tensor("c_ds", x.link)
    r = x.rays()
    fs = e.scalar("fs", 1, 1e9, sample=(1e6, 1e8))
    tail = (x.rx.n, x.tx.n, x.T)
    hf = e.tensor("h_full", x.d5 + tail, kind="c")
    hn = e.tensor("h_nlos", x.link + (Q,) + tail, kind="c")
    hl = e.tensor("h_los", x.link + (1,) + tail, kind="c")
    dl = e.tensor("delays_nlos", x.link + (Q,))
    calls = {}
    e.stub(x.g, "_step_11_nlos", hf, calls)
    e.stub(x.g, "_step_11_reduce_nlos", (hn, dl), calls)
    e.stub(x.g, "_step_11_los", hl, calls)
    m = e.mark()
    h, d = x.g(x.T, fs, K, r, x.top, cds)
    a, b, c = (calls[k] for k in ("_step_11_nlos", "_step_11_reduce_nlos", "_step_11_los"))
    for k, s in (("rays", a), ("rays of clusters", b)):
        for f, dims in (("aoa", x.d5), ("aod", x.d5), ("zoa", x.d5), ("zod", x.d5), ("xpr", x.d5), ("delays", x.d5[:4]), ("powers", x.d5[:4])):
            e.forall(k + " " + f, dims, lambda *i: e.eq(e.at(getattr(s["rays"], f), *i), e.at(getattr(r, f), *i)))
    for k, s in (("time", a), ("time of LoS", c)):
        e.forall(k, (x.T,), lambda n: e.eq(e.at(s["t"], n), n / fs, tol=1e-5))
        e.ensure(k + ": topology", s["topology"] is x.top)
        e.ensure(k + ": carrier", e.eq(e.value(s["carrier_frequency"]), x.fc))
    e.forall("NLoS rays", x.d5 + tail, lambda *i: e.eq(e.at(b["h_full"], *i), e.at(hf, *i)))
    e.forall("cluster delay spread", x.link, lambda *i: e.eq(e.at(b["c_ds"], *i), e.at(cds, *i)))
    e.some("phases", e.assign_draws(m, [("uniform", x.d5 + (4,))]),
           lambda dr: e.forall("phases", x.d5 + (4,), lambda *i: e.eq(e.at(a["phi"], *i), e.at(dr[0].value, *i))))
    check_combination(e, x, K, Q, (lambda i, q, t: e.at(hn, *i, q, *t)), (lambda i, t: e.at(hl, *i, 0, *t)), (lambda i, q: e.at(dl, *i, q)), h, d, tail)


@contract("C25", "whole_step", [G + "_step_11", G + "__call__", G + "_step_11_nlos", G + "_step_11_reduce_nlos", G + "_step_11_los"], runs=(12, 80), shards=2, symbolic=False, bounded="random runs of the complete step over small sizes; the same statement is proved function by function in the contracts of C22-C25")
def whole_step(e):
    """the channel coefficients as a whole: random phases, sample times n/f_s, all rays, sub-clusters, LoS path and their combination"""
    sub = e.choose("subclustering", [True, False])
    x = Ctx(e, ("single", "single"), M=20 if sub else None, C=e.dim("C", lo=2, sample=4), sub=sub, doppler=True)
    K = e.tensor("K", x.link, 0, 1e6, sample=(0., 10.))
    cds = e.tensor("c_ds", x.link, 0, 1)
    r = x.rays()
    fs = e.scalar("fs", 1, 1e9, sample=(1e6, 1e8))
    m = e.mark()
    h, d = x.g(x.T, fs, K, r, x.top, cds)

    def spec(dr):
        x.phi = dr[0].value
        x.t = e.build((x.T,), lambda n: n / fs)
        tail = (x.rx.n, x.tx.n, x.T)
        ray = lambda i, tl: lambda c, mm: nlos_at(x, i + (c, mm), *tl)
        N = x.C + (4 if sub else 0)

        def nlos(i, q, tl):
            n, de, co = reduced(e, sub, x.C, x.M, x.P, x.delays, cds, ray(i, tl), i)
            return co(e.order(n, de, q))

        def delay(i, q):
            n, de, co = reduced(e, sub, x.C, x.M, x.P, x.delays, cds, None, i)
            return de(e.order(n, de, q))
        check_combination(e, x, K, N, nlos, lambda i, tl: los_at(x, i, *tl), delay, h, d, tail, tol=3e-2)
    e.some("phases", e.assign_draws(m, [("uniform", x.d5 + (4,))]), spec)
