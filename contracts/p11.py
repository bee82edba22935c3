"""P11 slicing and splicing surveys"""
from .common import *
from .p07 import gen_full, full_survey, full_ref, snapshot, same_snapshot

FILES = ["welleng/survey.py"]
S_ = "welleng.survey."
META = dict(
    title="A slice is part of the same path, and splicing consecutive slices restores it",
    statement="slice_survey(survey, start, stop) holds exactly the stations start..stop-1 with their depths, directions, grid and local positions, radii, covariances and error model, with the header re-expressed in grid. "
              "splice_surveys joins surveys end to end, keeping every station once, its direction in the first survey's reference, radius and covariance, following the minimum-curvature path from the first survey's start with its header and unit; "
              "splicing the consecutive slices of a survey gives back its stations, and neither operation changes its arguments.",
    over=["inputs", "configurations"], quantifier="all surveys, all cut points, all references, units and start positions, any number of parts",
    why="Slices are re-anchored, re-referenced and re-integrated, so a convergence or an offset applied twice only shows for surveys that are not grid-referenced from the origin.",
    mechanism=[("slicing", "welleng/survey.py:slice_survey"), ("parts", "welleng/survey.py:SurveyData"), ("splicing", "welleng/survey.py:splice_surveys"), ("header", "welleng/survey.py:_get_grid_header")],
    observe_at="Survey returned by slice_survey and splice_surveys")


def s_slice(v, ref="grid", cov=True):
    n, h, s = survey_obj(v, ref=ref, cov=cov)
    s.attrs["error_model"] = "ISCWSA MWD Rev5.11"
    if cov:
        s.attrs["cov_hla"] = v.arr("H", n, 3, 3)
    a, b = v.int("a", lo=0), v.int("b")
    v.assume(T.le(T.iadd(a, 2), b), T.le(b, n))
    made = []
    r = v.call(S_ + "slice_survey", s, a, b)
    m = T.isub(b, a)
    j = v.idx(m)
    ja = T.iadd(a, j)
    for x in ("md", "inc_rad", "n", "e", "tvd", "radius"):
        v.ensure("station " + x, T.eq(v.at(v.get(r, x), j), v.at(v.get(s, x), ja)))
    v.ensure("station azimuth", T.eq(v.at(v.get(r, "azi_grid_rad"), j), v.at(v.get(s, "azi_grid_rad"), ja)))
    for x in ("md", "n", "tvd", "cov_nev") if cov else ("md", "n", "tvd"):
        v.ensure("as many stations as cut (%s)" % x, T.eq(v.get(r, x).shape[0], m))
    for c in "xyz":
        v.ensure("starts at the station's " + c, T.eq(v.at(v.get(r, c), 0), v.at(v.get(s, c), a)))
    for c in range(3):
        v.ensure("path anchored at the station", T.eq(v.at(v.get(r, "pos_nev"), 0, c), v.at(v.get(s, ("n", "e", "tvd")[c]), a)))
    if cov:
        for nm in ("cov_nev", "cov_hla"):
            for p in range(3):
                for q in range(p, 3):
                    v.ensure("%s of the station" % nm, T.eq(v.at(v.get(r, nm), j, p, q), v.at(v.get(s, nm), ja, p, q)))
    else:
        v.ensure("no covariance invented", T.TRUE if v.get(r, "cov_nev") is None and v.get(r, "cov_hla") is None else T.FALSE)
    v.ensure("error model, unit and reference", T.TRUE if v.get(r, "error_model") == "ISCWSA MWD Rev5.11" and v.get(r, "unit") == v.get(s, "unit")
             and v.get(v.get(r, "header"), "azi_reference") == "grid" and v.get(h, "azi_reference") == ref else T.FALSE)


def s_splice(v, ref, ref2, cov=True):
    """two surveys; the constructor is called by its contract (P02, P06: it takes what it is given)"""
    n1, h1, s1 = survey_obj(v, ref=ref, cov=cov)
    v2 = _second(v, ref2, cov)
    n2, h2, s2 = v2
    rec = []
    cls = v.object(S_ + "Survey") if hasattr(v, "object") else None
    v.assume(T.eq(v.at(v.get(s1, "md"), T.isub(n1, 1)), v.at(v.get(s2, "md"), 0)))
    for s, h in ((s1, h1), (s2, h2)):
        A = v.get(s, "azi_grid_rad")
        c, d = v.get(h, "convergence"), v.get(h, "declination")
        from pyvc.arrays import SArr
        n_ = A.shape[0]
        s.attrs["azi_true_rad"] = SArr((n_,), lambda ix, A=A, c=c: add(A.at(ix), c), "f")
        s.attrs["azi_mag_rad"] = SArr((n_,), lambda ix, A=A, c=c, d=d: sub(add(A.at(ix), c), d), "f")
        s.attrs["azi_ref_lookup"] = {"true": "true", "magnetic": "mag", "grid": "grid"}
        s.attrs["cov_hla"] = None
    sd = v.call(S_ + "SurveyData", s1)
    v.method(sd, "append_survey", s2)
    m = T.isub(T.iadd(n1, n2), 1)
    j = v.idx(m)
    key = {"grid": "azi_grid_rad", "true": "azi_true_rad", "magnetic": "azi_mag_rad"}[ref]
    j2 = T.iadd(T.isub(j, n1), 1)
    first = T.lt(j, n1)

    def pick(x, *c):
        return T.ite(first, v.at(v.get(s1, x), j, *c), v.at(v.get(s2, x), j2, *c))
    for x, y in (("md", "md"), ("inc", "inc_rad"), ("azi", key), ("radius", "radius")):
        v.ensure("every station once: " + x, T.land(T.eq(v.get(sd, x).shape[0], m), T.eq(v.at(v.get(sd, x), j), pick(y))))
    if cov:
        for p in range(3):
            for q in range(p, 3):
                v.ensure("covariance of the station", T.eq(v.at(v.get(sd, "cov_nev"), j, p, q), pick("cov_nev", p, q)))
    else:
        v.ensure("no covariance invented", T.TRUE if v.get(sd, "cov_nev") is None else T.FALSE)
    r = v.method(sd, "get_survey")
    k = v.idx(m)
    for x, y in (("md", "md"), ("inc_rad", "inc"), (key, "azi"), ("radius", "radius")):
        v.ensure("survey made of it: " + x, T.eq(v.at(v.get(r, x), k), v.at(v.get(sd, y), k)))
    for c in range(3):
        v.ensure("starts where the first starts " + "NEV"[c], T.eq(v.at(v.get(r, "pos_nev"), 0, c), v.at(v.get(s1, "pos_nev"), 0, c)))
        v.ensure("starts where the first starts " + "xyz"[c], T.eq(v.at(v.get(r, "pos_xyz"), 0, c), v.at(v.get(s1, "pos_xyz"), 0, c)))
    v.ensure("header and unit of the first", T.TRUE if v.get(r, "header") is h1 and v.get(r, "unit") == v.get(s1, "unit") else T.FALSE)


def _second(v, ref, cov, pre="b_"):
    class W:
        """same generators with other names"""
        def __getattr__(self, k):
            f = getattr(v, k)
            if k in ("real", "int", "arr"):
                return lambda name, *a, **kw: f(pre + name, *a, **kw)
            return f
    return survey_obj(W(), ref=ref, cov=cov)


def s_join(v, k, refs=("grid", "true", "magnetic")):
    """splice_surveys on a list of k surveys of any lengths: every station once, in order"""
    ss = [survey_obj(v, ref=refs[0], cov=True)] + [_second(v, refs[i], True, "bc"[i - 1] + "_") for i in range(1, k)]
    from pyvc.arrays import SArr
    for n, h, s in ss:
        A, c, d = v.get(s, "azi_grid_rad"), v.get(h, "convergence"), v.get(h, "declination")
        s.attrs["azi_true_rad"] = SArr((n,), lambda ix, A=A, c=c: add(A.at(ix), c), "f")
        s.attrs["azi_mag_rad"] = SArr((n,), lambda ix, A=A, c=c, d=d: sub(add(A.at(ix), c), d), "f")
        s.attrs["azi_ref_lookup"] = {"true": "true", "magnetic": "mag", "grid": "grid"}
    for (n, _, a), (_, _, b) in zip(ss, ss[1:]):
        v.assume(T.eq(v.at(v.get(a, "md"), T.isub(n, 1)), v.at(v.get(b, "md"), 0)))
    r = v.call(S_ + "splice_surveys", [s for _, _, s in ss])
    m, starts = ss[0][0], [0]
    for n, _, _ in ss[1:]:
        starts.append(T.isub(m, 1))
        m = T.isub(T.iadd(m, n), 1)
    j = v.idx(m)
    key = {"grid": "azi_grid_rad", "true": "azi_true_rad", "magnetic": "azi_mag_rad"}[refs[0]]

    def pick(x, *c):
        # the station shared by two surveys is the upper one's last
        w = v.at(v.get(ss[0][2], x), j, *c)
        for (n, _, s), o in list(zip(ss, starts))[1:]:
            w = T.ite(T.lt(o, j), v.at(v.get(s, x), T.isub(j, o), *c), w)
        return w
    v.ensure("every station once", T.eq(v.get(r, "md").shape[0], m))
    for x, y in (("md", "md"), ("inc_rad", "inc_rad"), (key, key), ("radius", "radius")):
        v.ensure("station " + x, T.eq(v.at(v.get(r, x), j), pick(y)))
    for p in range(3):
        for q in range(3):
            v.ensure("covariance", T.eq(v.at(v.get(r, "cov_nev"), j, p, q), pick("cov_nev", p, q)))
    for c in range(3):
        v.ensure("start", T.eq(v.at(v.get(r, "pos_nev"), 0, c), v.at(v.get(ss[0][2], "pos_nev"), 0, c)))
        v.ensure("start", T.eq(v.at(v.get(r, "pos_xyz"), 0, c), v.at(v.get(ss[0][2], "pos_xyz"), 0, c)))
    v.ensure("header", T.TRUE if v.get(r, "header") is ss[0][1] else T.FALSE)
    v.ensure("unit", T.TRUE if v.get(r, "unit") == v.get(ss[0][2], "unit") else T.FALSE)


SPECS = [Spec("slice/grid", s_slice), Spec("slice/true", lambda v: s_slice(v, "true")), Spec("slice/magnetic", lambda v: s_slice(v, "magnetic")), Spec("slice/no covariance", lambda v: s_slice(v, "grid", False))]
SPECS += [Spec("splice/%s+%s" % (a, b), lambda v, a=a, b=b: s_splice(v, a, b)) for a in ("grid", "true", "magnetic") for b in ("grid", "magnetic")] + [Spec("splice/no covariance", lambda v: s_splice(v, "grid", "grid", False))]


def g(d):
    c = gen_full(d, maxdl=3.0, lo=4, hi=9)
    n = len(c["md"])
    c["radius"] = [d.real(.05, .5) for _ in c["md"]]
    cuts = sorted(d.r.sample(range(1, n - 1), d.int(1, min(3, n - 2))))
    c["cuts"] = cuts
    c["k"] = sorted(d.r.sample(range(n), 2))
    return c


def cmp_stations(r, s, a, b, sc, what):
    sl = slice(a, b)
    for nm in ("md", "inc_deg", "inc_rad", "azi_grid_deg", "azi_grid_rad", "azi_true_deg", "azi_mag_deg", "n", "e", "tvd", "x", "y", "z", "pos_nev", "pos_xyz", "vec_nev", "radius"):
        x, y = getattr(r, nm), getattr(s, nm)[sl]
        if not close(x, y, 1e-9, 1e-9 * sc):
            return "%s of the %s: %s" % (nm, what, worst(x, y))


def ck(c):
    import welleng as we
    s = full_survey(c, radius=np.array(c["radius"]))
    snap = snapshot(s)
    n = len(c["md"])
    P = full_ref(c)[0]
    sc = 1 + np.abs(P).max() + max(abs(x) for x in c["nev"] + c["xyz"])
    a, b = c["k"]
    if b - a >= 1:
        for stop in (b + 1, None):
            r = we.survey.slice_survey(s, a, stop)
            e = n if stop is None else stop
            bad = cmp_stations(r, s, a, e, sc, "slice %s:%s" % (a, stop))
            if bad:
                return bad
            if r.error_model != s.error_model or r.unit != s.unit:
                return "error model or unit lost"
            if c["C"] is not None and not close(r.cov_nev, s.cov_nev[a:e], 1e-12, 1e-12):
                return "slice covariance"
            if (r.cov_nev is None) != (s.cov_nev is None):
                return "slice covariance present: %r" % (r.cov_nev is not None)
            if not close(np.diff(r.vertical_section), np.diff(s.vertical_section[a:e]), 1e-7, 1e-8 * sc):
                return "vertical section of the slice runs along another azimuth"
    ends = [0] + c["cuts"] + [n - 1]
    parts = [we.survey.slice_survey(s, i, j + 1) for i, j in zip(ends, ends[1:])]
    snaps = [snapshot(p) for p in parts]
    bad = same_snapshot(s, snap)
    if bad:
        return "slicing: " + bad
    for lst, what in ((parts, "spliced slices"), ([s], "splice of one")):
        r = we.survey.splice_surveys(lst)
        bad = cmp_stations(r, s, 0, n, sc, what)
        if bad:
            return bad
        if c["C"] is not None and not close(r.cov_nev, s.cov_nev, 1e-12, 1e-12):
            return "covariance of the " + what
    for p, q in zip(parts, snaps):
        bad = same_snapshot(p, q)
        if bad:
            return "splicing: " + bad
    # an original first part keeps its reference
    h = s.header
    first = we.survey.Survey(md=c["md"][:ends[1] + 1], inc=s.inc_rad[:ends[1] + 1], azi={"grid": s.azi_grid_rad, "true": s.azi_true_rad, "magnetic": s.azi_mag_rad}[c["ref"]][:ends[1] + 1],
                             header=h, unit=s.unit, deg=False, start_nev=s.start_nev, start_xyz=s.start_xyz, radius=s.radius[:ends[1] + 1]) if ends[1] >= 1 else None
    if first is not None:
        r = we.survey.splice_surveys([first] + parts[1:])
        if r.header.azi_reference != c["ref"]:
            return "reference of the splice"
        bad = cmp_stations(r, s, 0, n, sc, "splice in its own reference")
        if bad:
            return bad
        if r.cov_nev is not None and c["C"] is None:
            return "covariance invented"
    return same_snapshot(s, snap)


SPECS += [Spec("splice_surveys/%s" % w, lambda v, k=k: s_join(v, k), bounded=None if k < 3 else "lists of three surveys (of any lengths)")
          for k, w in ((1, "one"), (2, "two"), (3, "three"))]
DYN = [Dyn("slice and splice", g, ck, n=(1000, 12000))]
