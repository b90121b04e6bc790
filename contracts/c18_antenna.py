"""C18, C19 - antenna elements and arrays"""
from ntnvc.registry import contract
from contracts.common import *

E_ = "AntennaElement."
PATTERNS = ["omni", "38.901", "dlp", "aperture"]


def gain(e, pattern, th, ph):
    """power pattern in the direction (zenith, azimuth), radians"""
    if pattern == "omni":
        return e.num(1)
    if pattern == "aperture":           # TR 38.811 6.4.1, aperture radius of ten wavelengths
        c = e.sin(th) * e.cos(ph)
        s = e.sqrt(e.max2(1 - c * c, 0)) if not e.symbolic else e.sqrt(1 - c * c)
        x = 20 * e.pi * s
        return e.ite(e.same(c, 1), e.num(1), e.ite(e.lt(c, 0), e.num(0), 4 * e.div(e.j1(x) ** 2, x * x)))
    d = lambda r: r * 180 / e.pi
    w, sla, am, g = (65, 30, 30, 8) if pattern == "38.901" else (90, 25, 25, 0)
    av = e.min2(12 * (e.div(d(th) - 90, w)) ** 2, sla)
    ah = e.min2(12 * (e.div(d(ph), w)) ** 2, am)
    return e.pow10(e.div(g - e.min2(av + ah, am), 10))


@contract("C18", "pattern", [E_ + "field", E_ + "_radiation_pattern_omni", E_ + "_radiation_pattern_38901", E_ + "_radiation_pattern_co_phased_DLp",
                             E_ + "_radiation_pattern_circular_aperture", E_ + "__init__"], runs=(20, 200))
def pattern(e):
    """an element's field is the square root of its documented power pattern, split by the cosine and sine of its slant angle; it is
    finite, not negative in power and at most the pattern's maximum"""
    p = e.choose("pattern", PATTERNS)
    s = e.scalar("slant", sample=(-4., 4.))
    el = e.mod("antenna").AntennaElement(p, s)
    N, K = e.dim("N"), e.dim("K")
    th = e.tensor("theta", (N, K), 0, 3.1415926)
    ph = e.tensor("phi", (N, K), -3.1415926, 3.1415926)
    ft, fp = el.field(th, ph)
    e.shape_is("theta", ft, (N, K))
    e.shape_is("phi", fp, (N, K))
    g = lambda i, k: gain(e, p, e.at(th, i, k), e.at(ph, i, k))
    tol = 2e-2 if p == "aperture" else 1e-3
    e.forall("theta component", (N, K), lambda i, k: e.eq(e.at(ft, i, k), e.sqrt(g(i, k)) * e.cos(s), tol=tol))
    e.forall("phi component", (N, K), lambda i, k: e.eq(e.at(fp, i, k), e.sqrt(g(i, k)) * e.sin(s), tol=tol))
    e.defined("field", (N, K), ft)
    if p in ("38.901", "dlp"):
        top = e.pow10(e.num("0.8")) if e.symbolic and p == "38.901" else 10 ** 0.8 if p == "38.901" else 1
        e.forall("bounded", (N, K), lambda i, k: e.le(e.at(ft, i, k) ** 2 + e.at(fp, i, k) ** 2, top))


SLANT = {"V": [0], "H": [90], "VH": [0, 90], "cross": [-45, 45]}


@contract("C18", "slants", ["PanelArray.__init__", "Antenna.__init__", "AntennaArray.__init__"], runs=(12, 60))
def slants(e):
    """polarisation V is slanted by 0, H by 90, VH by 0 and 90, and cross by -45 and 45 degrees; both polarisations use the array's pattern"""
    fc, band = carrier(e)
    t = e.choose("polarization", list(SLANT))
    p = e.choose("pattern", PATTERNS)
    kw = dict(polarization="single" if len(SLANT[t]) == 1 else "dual", polarization_type=t, antenna_pattern=p, carrier_frequency=fc)
    k = e.choose("class", ["PanelArray", "Antenna", "AntennaArray"])
    a = e.pkg.PanelArray(num_rows_per_panel=1, num_cols_per_panel=2, **kw) if k == "PanelArray" else \
        e.pkg.Antenna(**kw) if k == "Antenna" else e.pkg.AntennaArray(num_rows=2, num_cols=1, **kw)
    N = e.dim("N")
    th = e.tensor("theta", (N,), 0, 3.1415926)
    ph = e.tensor("phi", (N,), -3.1415926, 3.1415926)
    for n, (el, s) in enumerate(zip([a.ant_pol1] + ([a.ant_pol2] if len(SLANT[t]) == 2 else []), SLANT[t])):
        ft, fp = el.field(th, ph)
        g = lambda i: gain(e, p, e.at(th, i), e.at(ph, i))
        c, sn = e.cos(e.deg(e.num(s))), e.sin(e.deg(e.num(s)))
        tol = 2e-2 if p == "aperture" else 1e-3
        e.forall("theta component of %d" % n, (N,), lambda i: e.eq(e.at(ft, i), e.sqrt(g(i)) * c, tol=tol))
        e.forall("phi component of %d" % n, (N,), lambda i: e.eq(e.at(fp, i), e.sqrt(g(i)) * sn, tol=tol))


def half(e, n):
    return e.div(n - 1, 2)


def grid(e, name, t, dims, p, lam, ev, eh, pv=None, ph=None, only=None):
    """positions in a tensor of antennas, panel by panel, polarisation by polarisation, column by column: centred grids of elements and
    panels in the yz plane; with `only` the tensor lists the antennas of that polarisation alone"""
    PC, PR, C, R = dims
    for q in range(p):
        if only not in (None, q):
            continue
        w = p if only is None else 1
        s = q if only is None else 0
        at = lambda j, i, c, l, x: e.at(t, ((j * PR + i) * w + s) * R * C + c * R + l, x)
        tag = "%s of polarisation %d" % (name, q + 1)
        e.forall(tag + " x", dims, lambda j, i, c, l: e.eq(at(j, i, c, l, 0), 0, tol=1e-4))
        e.forall(tag + " y", dims, lambda j, i, c, l: e.eq(at(j, i, c, l, 1), ((c - half(e, C)) * eh + (0 if ph is None else (j - half(e, PC)) * ph)) * lam, tol=1e-4))
        e.forall(tag + " z", dims, lambda j, i, c, l: e.eq(at(j, i, c, l, 2), ((half(e, R) - l) * ev + (0 if pv is None else (half(e, PR) - i) * pv)) * lam, tol=1e-4))


@contract("C19", "geometry", ["PanelArray.__init__", "AntennaPanel.__init__"], runs=(20, 120))
def geometry(e):
    """elements form a centred grid in the yz plane, half a wavelength or the given spacing apart, panels likewise; the two
    polarisations share each position, and the two lists of antenna indices are disjoint, of equal length and cover all antennas"""
    R, C, PR, PC = e.dim("R", sample=4), e.dim("C", sample=4), e.dim("PR"), e.dim("PC")
    dual = e.choose("polarization", ["single", "dual"]) == "dual"
    fc, band = carrier(e, "S")
    given = e.choose("spacings", ["default", "given"]) == "given"
    kw = {}
    ev = eh = e.num("0.5") if e.symbolic else 0.5
    pv, ph = (R - 1) * ev + ev, (C - 1) * eh + eh
    if given:
        ev, eh = e.scalar("ev", 0.1, 2), e.scalar("eh", 0.1, 2)
        pv, ph = (R - 1) * ev + e.scalar("gv", 0.1, 2), (C - 1) * eh + e.scalar("gh", 0.1, 2)
        kw = dict(panel_vertical_spacing=pv, panel_horizontal_spacing=ph, element_vertical_spacing=ev, element_horizontal_spacing=eh)
    a = e.pkg.PanelArray(num_rows_per_panel=R, num_cols_per_panel=C, polarization="dual" if dual else "single", polarization_type="VH" if dual else "V",
                         antenna_pattern="omni", carrier_frequency=fc, num_rows=PR, num_cols=PC, **kw)
    p = 2 if dual else 1
    n = R * C * PR * PC
    dims = (PC, PR, C, R)
    e.ensure("number of antennas", e.same(e.value(a.num_ant), n * p))
    e.shape_is("positions", a.ant_pos, (n * p, 3))
    lam = e.div(299792458, fc)
    grid(e, "position", a.ant_pos, dims, p, lam, ev, eh, pv, ph)
    for q, idx in enumerate([a.ant_ind_pol1] + ([a.ant_ind_pol2] if dual else [])):
        e.shape_is("indices of polarisation %d" % (q + 1), idx, (n,))
        e.forall("indices of polarisation %d" % (q + 1), dims, lambda j, i, c, l: e.same(
            e.at(idx, ((j * PR + i) * C + c) * R + l), ((j * PR + i) * p + q) * R * C + c * R + l))
    for q, t in enumerate([a.ant_pos_pol1] + ([a.ant_pos_pol2] if dual else [])):
        e.shape_is("positions of polarisation %d" % (q + 1), t, (n, 3))
        grid(e, "own position", t, dims, p, lam, ev, eh, pv, ph, only=q)


@contract("C19", "special_cases", ["AntennaArray.__init__", "Antenna.__init__", "AntennaPanel.__init__", "PanelArray.__init__"], runs=(14, 80))
def special(e):
    """an antenna array is a single panel with the given spacings (half a wavelength by default), an antenna a single element of each
    polarisation at the origin; a panel is the grid in wavelengths; every object reports the parameters it was given"""
    kind = e.choose("class", ["array", "array with spacings", "antenna", "panel", "panels", "element"])
    fc, band = carrier(e, "S")
    dual = e.choose("polarization", ["single", "dual"]) == "dual"
    p = 2 if dual else 1
    pol = "dual" if dual else "single"
    num = lambda x: e.num(str(x)) if e.symbolic and isinstance(x, float) else x
    lam = e.div(299792458, fc)
    val = lambda name, got, want: e.ensure(name, e.eq(e.value(got), num(want), tol=1e-5))
    if kind == "element":
        pat = e.choose("pattern", PATTERNS)
        a, b = e.pkg.antenna.AntennaElement(pat), e.pkg.antenna.AntennaElement(pat, 0.0)
        n = e.dim("n")
        th, ph = e.tensor("theta", (n,), 0, 3.14), e.tensor("phi", (n,), -3.14, 3.14)
        for i, (x, y) in enumerate(zip(a.field(th, ph), b.field(th, ph))):
            e.forall("no slant by default %d" % i, (n,), lambda k: e.eq(e.at(x, k), e.at(y, k)))
        return
    R, C = (1, 1) if kind == "antenna" else (e.dim("R", sample=4), e.dim("C", sample=4))
    ev = eh = 0.5
    if kind in ("array with spacings", "panel", "panels"):
        ev, eh = e.scalar("ev", 0.1, 2), e.scalar("eh", 0.1, 2)
    P = (1, 1)
    if kind == "panel":
        a = e.pkg.antenna.AntennaPanel(R, C, pol, ev, eh)
        lam = 1
    else:
        kw = dict(polarization=pol, polarization_type="VH" if dual else "V", antenna_pattern="omni", carrier_frequency=fc)
        if kind == "antenna":
            a = e.pkg.Antenna(**kw)
        elif kind == "panels":
            P = (e.dim("PR"), e.dim("PC"))
            pv, ph = (R - 1) * ev + e.scalar("gv", 0.1, 2), (C - 1) * eh + e.scalar("gh", 0.1, 2)
            a = e.pkg.PanelArray(num_rows_per_panel=R, num_cols_per_panel=C, num_rows=P[0], num_cols=P[1], panel_vertical_spacing=pv, panel_horizontal_spacing=ph,
                                 element_vertical_spacing=ev, element_horizontal_spacing=eh, **kw)
            val("panel vertical spacing", a.panel_vertical_spacing, pv)
            val("panel horizontal spacing", a.panel_horizontal_spacing, ph)
        else:
            a = e.pkg.AntennaArray(num_rows=R, num_cols=C, **dict(kw, vertical_spacing=ev, horizontal_spacing=eh) if "spacings" in kind else kw)
        val("element vertical spacing", a.element_vertical_spacing, ev)
        val("element horizontal spacing", a.element_horizontal_spacing, eh)
        e.ensure("polarization", a.polarization == pol and a.polarization_type == kw["polarization_type"])
        n = R * C * P[0] * P[1] * p
        for name, got, want in (("rows", a.num_rows, P[0]), ("columns", a.num_cols, P[1]), ("rows per panel", a.num_rows_per_panel, R), ("columns per panel", a.num_cols_per_panel, C),
                                ("panels", a.num_panels, P[0] * P[1]), ("antennas per panel", a.num_panels_ant, R * C * p), ("antennas", a.num_ant, n)):
            e.ensure("number of " + name, e.same(e.value(got), want))
        if not dual:
            for prop in ("ant_pol2", "ant_pos_pol2", "ant_ind_pol2"):
                e.ensure("no " + prop, e.raises(lambda: getattr(a, prop)))
    if kind == "panel":
        e.ensure("rows", e.same(e.value(a.num_rows), R))
        e.ensure("columns", e.same(e.value(a.num_cols), C))
        val("vertical spacing", a.vertical_spacing, ev)
        val("horizontal spacing", a.horizontal_spacing, eh)
    if kind == "panels":
        return
    e.shape_is("positions", a.ant_pos, (R * C * p, 3))
    grid(e, "position", a.ant_pos, (1, 1, C, R), p, lam, num(ev), num(eh))
