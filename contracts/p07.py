"""P07 interpolation at a measured depth"""
from .common import *

FILES = ["welleng/survey.py", "welleng/utils.py"]
S_ = "welleng.survey."
U = "welleng.utils."
META = dict(
    title="A point interpolated at a measured depth lies on the survey's own arc",
    statement="For every survey and every measured depth between its first and last station, the interpolated node has exactly that measured depth, the position reached by travelling the difference along the circular arc (or straight line) of the interval from the station before it, scaled in north and east by the grid scale factor, and the unit tangent of that arc there; it is flagged as interpolated exactly when the depth is not a station's. "
              "At a station's depth the station's own position and direction come back; at or above the first station the first station comes back, and beyond the last nothing does. "
              "Interpolating within an interval also interpolates its covariance linearly, and leaves the survey unchanged.",
    over=["inputs", "configurations"], quantifier="all surveys with increasing depths and doglegs below 180 degrees, all depths, all references, start positions and scale factors",
    why="Tests interpolate a few depths of one well; interval selection at boundaries and the spherical interpolation of direction must be right for each of infinitely many depths.",
    mechanism=[("interval selection", "welleng/survey.py:interpolate_md"), ("arc", "welleng/survey.py:_interpolate_survey"), ("node", "welleng/survey.py:get_node"), ("reference", "welleng/survey.py:_get_grid_header")],
    observe_at="Node md, pos_nev, vec_nev, interpolated; Survey returned by the module function")


def s_interp(v, ref="grid", cov=False, straight=False, vsa=True):
    """the survey is arbitrary with the constructor's invariants (P02, P06); get_angles by its contract (P04)"""
    n, h, s = survey_obj(v, ref=ref, cov=cov)
    if not vsa:
        h.attrs["vertical_section_azimuth"] = None
    g = v.get(h, "grid_scale_factor")
    md, inc, ga = [v.get(s, x) for x in ("md", "inc_rad", "azi_grid_rad")]
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    x = v.real("x")
    L = sub(v.at(md, k1), v.at(md, k))
    v.assume(T.lt(0, x), T.le(x, L))
    t1, t2 = tangent(v.at(inc, k), v.at(ga, k)), tangent(v.at(inc, k1), v.at(ga, k1))
    D = v.at(v.get(s, "dogleg"), k1)
    if straight:
        v.assume(T.eq(D, 0))
    else:
        v.assume(T.lt(0, D), T.lt(D, T.PI), T.lt(0, T.sin(D)))
    raw = []
    rec = use_get_angles(v, raw)
    r = v.call(S_ + "_interpolate_survey", s, x, k)
    md2 = v.get(r, "md")
    v.ensure("depth of the station before", T.eq(v.at(md2, 0), v.at(md, k)))
    v.ensure("depth of the point", T.eq(v.at(md2, 1), add(v.at(md, k), x)))
    v.ensure("interpolated flag", T.eq(T.tobool(v.at(v.get(r, "interpolated"), 1)), T.lnot(T.eq(x, L))))
    P = v.get(r, "pos_nev")
    N = [v.get(s, c) for c in ("n", "e", "tvd")]
    VN = v.get(r, "vec_nev")
    R = [v.get(r, c) for c in ("n", "e", "tvd")]
    for c in range(3):
        v.ensure("starts at the station before " + "NEV"[c], T.eq(v.at(P, 0, c), v.at(N[c], k)))
        v.ensure("direction of the station before " + "NEV"[c], T.eq(v.at(VN, 0, c), t1[c]))
        v.ensure("n, e, tvd agree with the position " + "NEV"[c], T.eq(v.at(R[c], 1), v.at(P, 1, c)))
    X = v.get(r, "pos_xyz")
    for c in range(3):
        v.ensure("x, y, z start at the station before", T.eq(v.at(X, 0, c), v.at(v.get(s, "xyz"[c]), k)))
    rf = v.at(v.get(r, "rf"), 1)
    dl = v.at(v.get(r, "dogleg"), 1)
    i2, a2 = v.at(v.get(r, "inc_rad"), 1), v.at(v.get(r, "azi_grid_rad"), 1)
    tt = tangent(i2, a2)
    for c in range(3):
        v.ensure("direction of the point " + "NEV"[c], T.eq(v.at(VN, 1, c), tt[c]))
    if straight:
        v.ensure("direction unchanged", T.land(T.eq(i2, v.at(inc, k)), T.eq(a2, v.at(ga, k))))
        v.ensure("straight ratio factor", T.eq(rf, 1))
    else:
        # the angles taken are those of the spherical interpolation of t1 and t2 (the arc's tangent, see the lemma)
        v.ensure("one direction is interpolated", T.TRUE if len(rec) == 1 else T.FALSE)
        i_, a_, u = rec[0]
        d = mul(x, div(D, L))
        w = [div(add(mul(T.sin(sub(D, d)), t1[c]), mul(T.sin(d), t2[c])), T.sin(D)) for c in range(3)]
        q = norm2(w)
        v.assume(T.lt(0, q))
        y = raw[0]
        for c, z in enumerate(cross(y, w)):
            v.ensure("direction is along the arc's tangent " + "NEV"[c], T.eq(z, 0))
        v.ensure("direction is forward along the arc's tangent", T.lt(0, dot(y, w)))
        v.ensure("angles of the point are those of its direction", T.land(T.eq(i2, i_), T.eq(a2, a_)))
        v.ensure("ratio factor of the arc", T.eq(rf, v.call(U + "get_rf", dl)))
        v.ensure("dogleg of the arc", T.eq(dl, v.call(U + "get_dogleg", v.at(inc, k), v.at(ga, k), i2, a2)))
    dt = dogleg_lemmas(v, t1, tt)
    v.assume(T.lt(0, add(1, dt)))        # the part's dogleg is below 180 degrees, as the interval's is
    f = {rf: T.var("rf_1")} if isinstance(rf, Term) and rf.op not in ("const", "var") else {}
    for c in range(3):
        sc = g if c < 2 else 1
        # the step is the minimum-curvature step between the two directions (P01/P02: the chord of the arc tangent to both)
        v.ensure("advances by the arc's chord " + "NEV"[c], T.subst(T.eq(sub(v.at(P, 1, c), v.at(P, 0, c)), M(x, rf, 0.5, sc, add(t1[c], tt[c]))), f))
    if cov:
        m = div(x, L)
        C, C2 = v.get(s, "cov_nev"), v.get(r, "cov_nev")
        for a in range(3):
            for b in range(3):
                v.ensure("covariance at the station %d%d" % (a, b), T.eq(v.at(C2, 0, a, b), v.at(C, k, a, b)))
                v.ensure("covariance interpolated %d%d" % (a, b), T.eq(v.at(C2, 1, a, b), add(mul(sub(1, m), v.at(C, k, a, b)), mul(m, v.at(C, k1, a, b)))))
    v.ensure("header of the source keeps its reference", T.TRUE if v.get(h, "azi_reference") == ref else T.FALSE)


def s_lemma(v):
    """slerp lemma: with cos D = t1.t2, (sin(D-d) t1 + sin d t2)/sin D is a unit vector at angle d from t1 in the plane of t1, t2"""
    t1, t2 = vec3(v, "p"), vec3(v, "q")
    D, d = v.real("D", gt=0), v.real("d")
    v.assume(T.lt(D, T.PI), T.lt(0, T.sin(D)))
    w = [div(add(mul(T.sin(sub(D, d)), t1[c]), mul(T.sin(d), t2[c])), T.sin(D)) for c in range(3)]
    n1, n2, dt = sub(norm2(t1), 1), sub(norm2(t2), 1), sub(dot(t1, t2), T.cos(D))
    # |w|^2 - 1 and w.t1 - cos d vanish modulo |t1|=1, |t2|=1, t1.t2 = cos D (explicit multipliers)
    a, b = div(T.sin(sub(D, d)), T.sin(D)), div(T.sin(d), T.sin(D))
    v.ensure("|w|^2 = 1", T.eq(sub(norm2(w), 1), S(M(a, a, n1), M(b, b, n2), M(2, a, b, dt))))
    v.ensure("w.t1 = cos d", T.eq(sub(dot(w, t1), T.cos(d)), S(mul(a, n1), mul(b, dt))))
    for c in range(3):
        nrm = div(sub(t2[c], mul(T.cos(D), t1[c])), T.sin(D))
        v.ensure("w = cos d t1 + sin d n", T.eq(w[c], add(mul(T.cos(d), t1[c]), mul(T.sin(d), nrm))))


def s_select(v):
    """which interval a depth falls in (the interval step itself is under contract above)"""
    n, h, s = survey_obj(v)
    md = v.get(s, "md")
    m = v.real("m")
    rec = []

    def step(I, survey, x=0, index=0):
        rec.append((x, index))
        return survey
    v.contract(S_ + "_interpolate_survey", step)
    r = v.call(S_ + "interpolate_md", s, m)
    if not rec:
        v.ensure("nothing only beyond the last station", T.land(T.TRUE if r is None else T.FALSE, T.lt(v.at(md, T.isub(n, 1)), m)))
        return
    x, i = rec[0]
    v.ensure("index in range", T.land(T.le(0, i), T.lt(i, T.isub(n, 1))))
    a, b = v.at(md, i), v.at(md, T.iadd(i, 1))
    v.ensure("interval contains the depth, or it is at or above the first station",
             T.lor(T.land(T.lt(a, m), T.le(m, b), T.eq(x, sub(m, a))), T.land(T.eq(i, 0), T.eq(x, 0), T.le(m, v.at(md, 0)))))


def s_node(v):
    n, h, s = survey_obj(v, cov=True)
    md = v.get(s, "md")
    k = v.idx(n)
    nd = v.call(S_ + "get_node", s, k, True)
    N = [v.get(s, c) for c in ("n", "e", "tvd")]
    for c in range(3):
        v.ensure("node position " + "NEV"[c], T.eq(v.at(v.get(nd, "pos_nev"), c), v.at(N[c], k)))
        v.ensure("node direction " + "NEV"[c], T.eq(v.at(v.get(nd, "vec_nev"), c), v.at(v.get(s, "vec_nev"), k, c)))
    v.ensure("node depth", T.eq(v.get(nd, "md"), v.at(md, k)))
    Cn = v.get(nd, "cov_nev")
    for a in range(3):
        for b in range(3):
            v.ensure("node covariance %d%d" % (a, b), T.eq(v.at(Cn, 0, a, b), v.at(v.get(s, "cov_nev"), k, a, b)))
    v.ensure("node flag", T.tobool(v.get(nd, "interpolated")))


def replay(env, tab):
    return []


SPECS = [Spec("arc", s_interp), Spec("arc/true", lambda v: s_interp(v, "true")), Spec("arc/magnetic", lambda v: s_interp(v, "magnetic")), Spec("arc/covariance", lambda v: s_interp(v, cov=True)),
         Spec("straight", lambda v: s_interp(v, straight=True)), Spec("lemma: spherical interpolation", s_lemma), Spec("interval selection", s_select), Spec("node", s_node)]


def gen_full(d, **kw):
    """survey listing with header, start position, units and optional covariances"""
    c = gen_stations(d, **kw)
    n = len(c["md"])
    c["gsf"] = d.real(0.9, 1.1) if d.bool(.4) else 1.0
    c["nev"] = [d.real(-2000, 2000) for _ in range(3)] if d.bool(.5) else [0.0, 0.0, 0.0]
    c["xyz"] = [d.real(-2000, 2000) for _ in range(3)] if d.bool(.4) else [0.0, 0.0, 0.0]
    c["unit"] = d.choice(["meters", "meters", "feet"])
    c["ref"] = d.choice(["grid", "true", "magnetic"])
    c["conv"], c["decl"] = (d.real(-10, 10), d.real(-30, 30)) if d.bool(.7) else (0.0, 0.0)
    c["vsa"] = d.choice([0.0, d.real(0, 360)])
    if d.bool(.4):
        c["C"] = []
        for _ in range(n):
            A = np.array([[d.plain(-1, 1) for _ in range(3)] for _ in range(3)])
            c["C"].append((A @ A.T).tolist())
    else:
        c["C"] = None
    return c


def full_survey(c, **kw):
    import welleng as we
    h = we.survey.SurveyHeader(azi_reference=c["ref"], grid_scale_factor=c["gsf"], depth_unit=c["unit"], convergence=c["conv"], declination=c["decl"], b_total=50000, dip=70,
                               vertical_section_azimuth=c["vsa"])
    off = {"grid": 0, "true": c["conv"], "magnetic": c["conv"] - c["decl"]}[c["ref"]]
    return we.survey.Survey(md=c["md"], inc=c["inc"], azi=np.array(c["azi"]) + off, header=h, unit=c["unit"], start_nev=c["nev"], start_xyz=c["xyz"],
                            cov_nev=None if c.get("C") is None else np.array(c["C"]), **kw)


def full_ref(c):
    """independent: unscaled path from the origin, tangents"""
    I, A = np.radians(c["inc"]), np.radians(c["azi"])
    return ref_path(c["md"], I, A), [ref_tan(i, a) for i, a in zip(I, A)]


def ref_at(c, md, ref=None):
    """independent: (nev, tangent, interval) at a depth inside the survey"""
    P, t = ref or full_ref(c)
    k = 0
    while k < len(c["md"]) - 2 and md > c["md"][k + 1]:
        k += 1
    L = c["md"][k + 1] - c["md"][k]
    p, u = ref_point(P[k], t[k], t[k + 1], L, md - c["md"][k])
    return p * [c["gsf"], c["gsf"], 1] + c["nev"], u, k


def snapshot(s):
    return {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for k, v in vars(s).items() if k != "header"}, dict(vars(s.header))


def same_snapshot(s, snap):
    for k, v in snap[0].items():
        w = getattr(s, k, None)
        if isinstance(v, np.ndarray):
            if not (isinstance(w, np.ndarray) and w.shape == v.shape and np.array_equal(w, v, equal_nan=v.dtype.kind == "f")):
                return "attribute %s changed" % k
        elif isinstance(v, (int, float, str, bool)) and v != w:
            return "attribute %s changed" % k
    for k, v in snap[1].items():
        if isinstance(v, (int, float, str, bool)) and getattr(s.header, k, None) != v:
            return "header %s changed from %r to %r" % (k, v, getattr(s.header, k, None))
    return None


def g(d):
    c = gen_full(d, maxdl=2.9, hi=7)
    md = c["md"]
    q = []
    for _ in range(4):
        m = d.r.random()
        if m < .3:
            q.append(d.choice(md))
        elif m < .4:
            q.append(md[0] - d.real(0, 50))
        elif m < .5:
            q.append(md[-1] + d.real(0.001, 50))
        elif m < .65:
            k = d.int(0, len(md) - 2)
            q.append(md[k] + (md[k + 1] - md[k]) * d.choice([1e-6, 1e-3, .5, 1 - 1e-3, 1 - 1e-6]))
        else:
            q.append(d.real(md[0], md[-1]))
    c["q"] = q
    return c


def ck(c):
    import welleng as we
    s = full_survey(c)
    snap = snapshot(s)
    ref = full_ref(c)
    sc = 1 + np.abs(ref[0]).max() + max(abs(x) for x in c["nev"] + c["xyz"])
    for m in c["q"]:
        nd = s.interpolate_md(m)
        if m > c["md"][-1]:
            if nd is not None:
                return "depth %r beyond the last station gave a node at %r" % (m, nd.md)
            continue
        if nd is None:
            return "no node at depth %r inside the survey" % m
        at = max(m, c["md"][0])
        p, u, k = ref_at(c, at, ref)
        if not close(nd.md, at, 1e-12, 1e-9):
            return "asked for depth %r, got %r" % (m, nd.md)
        L = c["md"][k + 1] - c["md"][k]
        if not close(nd.pos_nev, p, 1e-7, 1e-8 * sc + 1e-7 * L):
            return "position at %r: %s" % (m, worst(nd.pos_nev, p))
        if not close(nd.vec_nev, u, 1e-6, 1e-6):
            return "direction at %r: %s" % (m, worst(nd.vec_nev, u))
        if bool(nd.interpolated) != (m > c["md"][0] and m not in c["md"]):
            x = [abs(m - y) for y in c["md"]]
            if min(x) == 0 or min(x) > 1e-9 * (1 + abs(m)):
                return "depth %r flagged interpolated=%r" % (m, nd.interpolated)
        if nd.unit != c["unit"]:
            return "node unit %r" % nd.unit
        r = we.survey.interpolate_md(s, m)
        if c["C"] is not None and k + 1 < len(c["C"]):
            f = (at - c["md"][k]) / L
            e = (1 - f) * np.array(c["C"][k]) + f * np.array(c["C"][k + 1])
            if not close(r.cov_nev[-1], e, 1e-8, 1e-8):
                return "covariance at %r: %s" % (m, worst(r.cov_nev[-1], e))
            if getattr(nd, "cov_nev", None) is None or not close(nd.cov_nev[0], e, 1e-8, 1e-8):
                return "covariance of the node at %r: %s" % (m, None if nd.cov_nev is None else worst(nd.cov_nev[0], e))
    return same_snapshot(s, snap)


DYN = [Dyn("interpolate_md", g, ck, n=(1200, 20000))]
