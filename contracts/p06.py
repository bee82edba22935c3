"""P06 azimuth references, header angles and units"""
from .common import *
from pyvc.arrays import PyRaise

FILES = ["welleng/survey.py"]
S_ = "welleng.survey."
META = dict(
    title="True, grid and magnetic azimuths agree with convergence and declination",
    statement="Whatever reference the azimuths are given in, and whether in degrees or radians, the survey's true azimuth equals the grid azimuth plus convergence and its magnetic azimuth equals the true azimuth minus declination at every station; the azimuths of the given reference are the given ones, inclinations are as given, and degree and radian values agree. "
              "Header angles (dip, declination, convergence, vertical section azimuth, vertical inclination limit) given in degrees are held in radians of the same size, those given in radians are held unchanged, the other header values as given, and depth units are normalised to metres or feet. "
              "The same listing given in degrees and in radians, or re-expressed in another reference, therefore gives the same survey.",
    over=["inputs", "configurations"], quantifier="all three references, both angle units, all stations, convergences and declinations",
    why="There are six combinations of reference and unit handled by separate branches; tests use one or two of them with zero convergence, where every sign error is invisible.",
    mechanism=[("reference handling", "welleng/survey.py:Survey._process_azi_ref"), ("angles", "welleng/survey.py:Survey._make_angles"), ("header angles", "welleng/survey.py:SurveyHeader._get_mag_data"), ("units", "welleng/survey.py:get_unit")],
    observe_at="Survey.azi_true_deg/rad, azi_mag_deg/rad, azi_grid_deg/rad, inc_deg/rad, survey_deg, survey_rad; SurveyHeader attributes")


def s_ref(v, ref, deg):
    n, md, inc, azi, h, s = survey(v, ref=ref, deg=deg)
    conv, decl = v.get(h, "convergence"), v.get(h, "declination")
    k = v.idx(n)
    g = lambda nm: v.at(v.get(s, nm), k)
    given = {"grid": "azi_grid", "true": "azi_true", "magnetic": "azi_mag"}[ref]
    v.ensure("given azimuth kept", T.eq(g(given + "_rad"), v.at(azi, k)))
    v.ensure("inclination kept", T.eq(g("inc_rad"), v.at(inc, k)))
    v.ensure("true = grid + convergence", T.eq(g("azi_true_rad"), add(g("azi_grid_rad"), conv)))
    v.ensure("magnetic = true - declination", T.eq(g("azi_mag_rad"), sub(g("azi_true_rad"), decl)))
    for nm in ("inc", "azi_grid", "azi_true", "azi_mag"):
        v.ensure("%s degrees and radians agree" % nm, T.eq(mul(g(nm + "_deg"), T.PI), mul(g(nm + "_rad"), 180)))
    for c, nm in enumerate(("md", "inc", "azi_grid")):
        for u in ("deg", "rad"):
            v.ensure("survey_%s column %s" % (u, nm), T.eq(v.at(v.get(s, "survey_" + u), k, c), g(nm if c == 0 else nm + "_" + u)))
    v.ensure("md kept", T.eq(g("md"), v.at(md, k)))


def s_header(v, deg):
    from pyvc.interp import Model

    class Calculator:
        def _no(I, *a, **k):
            raise PyRaise(ValueError, ("service not reachable",))
        calculate = Model(_no, "calculate")
    v.external(S_ + "MagneticFieldCalculator", lambda I, *a, **k: Calculator())
    A = {x: v.real(x) for x in ("b_total", "dip", "declination", "convergence", "vertical_inc_limit", "vertical_section_azimuth", "G", "earth_rate", "grid_scale_factor", "altitude")}
    h = v.call(S_ + "SurveyHeader", deg=deg, depth_unit="ft", surface_unit="m", azi_reference="grid", survey_date="2020-01-01", **A)
    for x in A:
        ang = x in ("dip", "declination", "convergence", "vertical_inc_limit", "vertical_section_azimuth")
        v.ensure("header " + x, T.eq(mul(v.get(h, x), 180), mul(A[x], T.PI)) if ang and deg else T.eq(v.get(h, x), A[x]))


SPECS = [Spec("header/deg", lambda v: s_header(v, True)), Spec("header/rad", lambda v: s_header(v, False))]
SPECS += [Spec("%s/%s" % (r, "deg" if d else "rad"), lambda v, r=r, d=d: s_ref(v, r, d)) for r in ("grid", "true", "magnetic") for d in (True, False)]


def g(d):
    c = gen_stations(d, maxdl=3.0, hi=6)
    c.update(conv=d.real(-10, 10), decl=d.real(-40, 40), dip=d.real(-90, 90), vsa=d.real(0, 360), vil=d.real(0, 1), btot=d.real(20000, 70000), G=d.real(9.7, 9.9),
             er=d.real(0.2, 0.3), gsf=d.real(.9, 1.1), unit=d.choice(["m", "meters", "ft", "feet"]), hdeg=d.bool(), refs=[d.choice(["grid", "true", "magnetic"]), d.choice(["grid", "true", "magnetic"])],
             deg=d.bool())
    return c


def ck(c):
    import welleng as we
    k = 1 if c["hdeg"] else math.pi / 180
    unit = "meters" if c["unit"][0] == "m" else "feet"

    def header(ref):
        return we.survey.SurveyHeader(azi_reference=ref, convergence=c["conv"] * k, declination=c["decl"] * k, dip=c["dip"] * k, vertical_section_azimuth=c["vsa"] * k,
                                      vertical_inc_limit=c["vil"] * k, b_total=c["btot"], G=c["G"], earth_rate=c["er"], grid_scale_factor=c["gsf"], depth_unit=c["unit"], deg=c["hdeg"])
    off = {"grid": 0, "true": c["conv"], "magnetic": c["conv"] - c["decl"]}
    grid = np.array(c["azi"])
    out = []
    for ref in c["refs"]:
        h = header(ref)
        for nm, e in (("dip", c["dip"]), ("declination", c["decl"]), ("convergence", c["conv"]), ("vertical_section_azimuth", c["vsa"]), ("vertical_inc_limit", c["vil"])):
            if not close(getattr(h, nm), math.radians(e), 1e-12, 1e-12):
                return "header %s is %r for %r degrees" % (nm, getattr(h, nm), e)
        for nm, e in (("b_total", c["btot"]), ("G", c["G"]), ("earth_rate", c["er"]), ("grid_scale_factor", c["gsf"]), ("depth_unit", unit), ("azi_reference", ref)):
            if getattr(h, nm) != e:
                return "header %s is %r, given %r" % (nm, getattr(h, nm), e)
        u = 1 if c["deg"] else math.pi / 180
        azi = (grid + off[ref]) * u
        inc = np.array(c["inc"]) * u
        keep = azi.copy(), inc.copy()
        s = we.survey.Survey(md=c["md"], inc=inc, azi=azi, header=h, deg=c["deg"], unit=unit)
        if not (np.array_equal(azi, keep[0]) and np.array_equal(inc, keep[1])):
            return "input angles modified"
        for nm, e in (("azi_grid", grid), ("azi_true", grid + c["conv"]), ("azi_mag", grid + c["conv"] - c["decl"]), ("inc", np.array(c["inc"]))):
            for sfx, x in (("_deg", e), ("_rad", np.radians(e))):
                if not close(getattr(s, nm + sfx), x, 1e-11, 1e-9):
                    return "%s%s from %s azimuths in %s: %s" % (nm, sfx, ref, "degrees" if c["deg"] else "radians", worst(getattr(s, nm + sfx), x))
        if not close(s.survey_deg, np.column_stack([c["md"], c["inc"], grid]), 1e-11, 1e-9) or not close(s.survey_rad, np.column_stack([c["md"], np.radians(c["inc"]), np.radians(grid)]), 1e-11, 1e-9):
            return "listing columns"
        out.append(s)
    if not close(out[0].pos_nev, out[1].pos_nev, 1e-9, 1e-6):
        return "positions depend on the reference %s: %s" % (c["refs"], worst(out[0].pos_nev, out[1].pos_nev))


DYN = [Dyn("references", g, ck, n=(1500, 20000))]
