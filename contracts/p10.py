"""P10 vertical section"""
from .common import *
from .p07 import gen_full, full_survey, full_ref, snapshot, same_snapshot

FILES = ["welleng/survey.py"]
S_ = "welleng.survey."
META = dict(
    title="The vertical section is the horizontal displacement along its azimuth",
    statement="At every station the vertical section along an azimuth is the displacement in north and east from the first station resolved along that azimuth, the azimuth being read in the survey's own reference (true, grid or magnetic) and in degrees or radians as asked; it is zero at the first station. "
              "The section a survey carries is that along its header's vertical section azimuth, setting another replaces both, in radians in the header, and the azimuth of the section survives re-referencing of the header to grid. "
              "Sections along perpendicular azimuths and the closure satisfy Pythagoras, and the hypot of an interval is its horizontal chord.",
    over=["inputs", "configurations"], quantifier="all surveys, azimuths, references, units",
    why="Tests do not look at the vertical section; a wrong projection is invisible on wells that run straight along the section azimuth.",
    mechanism=[("projection", "welleng/survey.py:Survey.get_vertical_section"), ("initial section", "welleng/survey.py:Survey._get_vertical_section"), ("setting", "welleng/survey.py:Survey.set_vertical_section"), ("header", "welleng/survey.py:_get_grid_header")],
    observe_at="Survey.vertical_section, get_vertical_section, set_vertical_section, hypot, header.vertical_section_azimuth")


def grid_azi(v, h, ref, a):
    c, d = v.get(h, "convergence"), v.get(h, "declination")
    return {"grid": a, "true": sub(a, c), "magnetic": sub(add(a, d), c)}[ref]


def s_vs(v, ref, deg):
    n, h, s = survey_obj(v, ref=ref)
    a = v.real("a")
    given = div(mul(180, a), T.PI) if deg else a
    r = v.method(s, "get_vertical_section", given, deg=deg)
    k = v.idx(n)
    N, E = v.get(s, "n"), v.get(s, "e")
    dn, de = sub(v.at(N, k), v.at(N, 0)), sub(v.at(E, k), v.at(E, 0))
    g = grid_azi(v, h, ref, a)
    e = add(mul(dn, T.cos(g)), mul(de, T.sin(g)))
    v.ensure("section is the displacement along the azimuth", T.eq(v.at(r, k), e))
    v.ensure("zero at the first station", T.eq(v.at(r, 0), 0))
    q = add(g, div(T.PI, 2))
    o = add(mul(dn, T.cos(q)), mul(de, T.sin(q)))
    v.ensure("perpendicular sections make up the closure", T.eq(add(mul(e, e), mul(o, o)), add(mul(dn, dn), mul(de, de))))
    v.method(s, "set_vertical_section", given, deg=deg)
    v.ensure("setting stores radians", T.eq(v.get(h, "vertical_section_azimuth"), a))
    v.ensure("setting replaces the section", T.eq(v.at(v.get(s, "vertical_section"), k), e))
    h2 = v.call(S_ + "_get_grid_header", h)
    v.ensure("same direction in the grid header", T.eq(v.get(h2, "vertical_section_azimuth"), g))
    v.ensure("grid header is grid", T.TRUE if v.get(h2, "azi_reference") == "grid" else T.FALSE)
    v.ensure("header not changed by it", T.land(T.eq(v.get(h, "vertical_section_azimuth"), a), T.TRUE if v.get(h, "azi_reference") == ref else T.FALSE))


def s_init(v, ref, none=False):
    n, h, s = survey_obj(v, ref=ref)
    a = v.get(h, "vertical_section_azimuth")
    if none:
        h.attrs["vertical_section_azimuth"] = None
    v.method(s, "_get_vertical_section")
    N, E = v.get(s, "n"), v.get(s, "e")
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    dn, de = sub(v.at(N, k1), v.at(N, k)), sub(v.at(E, k1), v.at(E, k))
    y = v.at(v.get(s, "hypot"), k)
    v.ensure("hypot is the horizontal chord", T.land(T.le(0, y), T.eq(mul(y, y), add(mul(dn, dn), mul(de, de)))))
    if none:
        v.ensure("no section without an azimuth", T.TRUE if v.get(s, "vertical_section") is None else T.FALSE)
        return
    g = grid_azi(v, h, ref, a)
    dn, de = sub(v.at(N, k), v.at(N, 0)), sub(v.at(E, k), v.at(E, 0))
    v.ensure("initial section along the header's azimuth", T.eq(v.at(v.get(s, "vertical_section"), k), add(mul(dn, T.cos(g)), mul(de, T.sin(g)))))


def replay(env, tab):
    out = []
    for ref in ("grid", "true", "magnetic"):
        out.append(("section", {"md": [0., 100., 250., 400.], "inc": [0., 20., 45., 60.], "azi": [10., 30., 60., 100.], "gsf": 1.0, "nev": [10., -20., 5.], "xyz": [0., 0., 0.],
                                "unit": "meters", "ref": ref, "conv": 2.0, "decl": -7.0, "vsa": 35.0, "C": None, "a": math.degrees(env.get("a", .7)) % 360, "deg": True}))
    return out


SPECS = [Spec("section/%s/%s" % (r, "deg" if d else "rad"), lambda v, r=r, d=d: s_vs(v, r, d), replay=replay) for r in ("grid", "true", "magnetic") for d in (True, False)]
SPECS += [Spec("initial/" + r, lambda v, r=r: s_init(v, r), replay=replay) for r in ("grid", "true", "magnetic")] + [Spec("initial/none", lambda v: s_init(v, "grid", True))]


def g(d):
    c = gen_full(d, maxdl=3.0, hi=7)
    c["a"] = d.real(-720, 720, (0., 90., 180., 270., 360.))
    c["deg"] = d.bool()
    return c


def ck(c):
    s = full_survey(c)
    off = {"grid": 0, "true": c["conv"], "magnetic": c["conv"] - c["decl"]}[c["ref"]]
    P = full_ref(c)[0] * [c["gsf"], c["gsf"], 1]
    sc = 1e-9 * (1 + np.abs(P).max() + max(abs(x) for x in c["nev"]))
    E = lambda a: P[:, 0] * math.cos(math.radians(a - off)) + P[:, 1] * math.sin(math.radians(a - off))
    if not close(s.vertical_section, E(c["vsa"]), 1e-8, 10 * sc):
        return "initial section along %r: %s" % (c["vsa"], worst(s.vertical_section, E(c["vsa"])))
    if not close(s.hypot, np.hypot(*np.diff(P[:, :2], axis=0).T), 1e-8, 10 * sc):
        return "horizontal chords"
    snap = snapshot(s)
    k = 1 if c["deg"] else math.pi / 180
    r = s.get_vertical_section(c["a"] * k, deg=c["deg"])
    if not close(r, E(c["a"]), 1e-8, 10 * sc):
        return "section along %r (%s): %s" % (c["a"], c["ref"], worst(r, E(c["a"])))
    bad = same_snapshot(s, snap)
    if bad:
        return bad
    s.set_vertical_section(c["a"] * k, deg=c["deg"])
    if not close(s.vertical_section, r) or not close(s.header.vertical_section_azimuth, math.radians(c["a"]), 1e-12, 1e-12):
        return "set_vertical_section: header %r" % s.header.vertical_section_azimuth
    nd = s.interpolate_survey(step=max(1.0, (c["md"][-1] - c["md"][0]) / 5))
    if not close(nd.vertical_section[-1], r[-1], 1e-5, 1e-3 + 1e-6 * np.abs(P).max()):
        return "section of the resampled survey ends at %r, not %r" % (nd.vertical_section[-1], r[-1])


DYN = [Dyn("section", g, ck, n=(1200, 15000))]
