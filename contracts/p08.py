"""P08 resampling a survey at a step"""
from .common import *
from .p07 import gen_full, full_survey, full_ref, ref_at, snapshot, same_snapshot

FILES = ["welleng/survey.py", "welleng/connector.py"]
S_ = "welleng.survey."
C_ = "welleng.connector."
U = "welleng.utils."
META = dict(
    title="Resampling a survey keeps its stations and follows its arcs",
    statement="interpolate_survey at any step, or with none, returns a survey that contains every original station (depth, direction and position) flagged as not interpolated and, between them, points flagged as interpolated that lie on the interval's arc or line, no further apart than the step if there is one. "
              "Every point carries the wellbore radius of the station at or before it, and when the survey has errors the covariance interpolated linearly in depth; the start position, header and unit carry over and the survey itself is unchanged.",
    over=["inputs", "configurations"], quantifier="all surveys with increasing depths and doglegs below 179 degrees, all steps, references, units, start positions",
    why="Tests look at one well and one step; rounding makes a recomputed depth differ from the station's for a fraction of depths, which shows only for particular numbers.",
    mechanism=[("resampling", "welleng/survey.py:interpolate_survey"), ("sections to listing", "welleng/survey.py:from_connections"), ("curve", "welleng/connector.py:interpolate_curve"),
               ("hold", "welleng/connector.py:interpolate_hold"), ("duplicates", "welleng/survey.py:_remove_duplicates")],
    observe_at="Survey returned by Survey.interpolate_survey: md, vec_nev, pos_nev, interpolated, radius, cov_nev")


def s_curve(v, endpoint=False):
    """interpolate_curve: points on the arc at every multiple of the step, including the start"""
    md1, L, D, step = v.real("md1", lo=0), v.real("L", gt=0), v.real("D", gt=0), v.real("step", gt=0)
    # every pair of unit vectors at an angle D: t1 = tangent(i, a), t2 = cos D t1 + sin D (cos w h + sin w r)
    i, a, w = v.real("i", lo=0), v.real("a"), v.real("w")
    v.assume(T.lt(D, T.PI), T.le(T.const(1e-9), T.sin(D)), T.le(i, T.PI))
    t1 = tangent(i, a)
    h = [mul(T.cos(i), T.cos(a)), mul(T.cos(i), T.sin(a)), neg(T.sin(i))]
    rt = [neg(T.sin(a)), T.cos(a), T.const(0)]
    nrm = [add(mul(T.cos(w), h[c]), mul(T.sin(w), rt[c])) for c in range(3)]
    t2 = [add(mul(T.cos(D), t1[c]), mul(T.sin(D), nrm[c])) for c in range(3)]
    v.cut("|t1 x t2| = sin D", T.eq(v.call("numpy.linalg.norm", v.call("numpy.cross", arr3(v, t1), arr3(v, t2))), T.sin(D)))
    raw = []
    P = vec3(v, "o")

    def ga(I, vec, nev=False):
        raw.append((vec, nev))
        n = vec.shape[0]
        from pyvc.arrays import SArr
        return SArr((n, 2), lambda ix: T.app("ang%d" % ix[1], (ix[0],)), "f")
    v.contract(U + "get_angles", ga)
    r = v.call(C_ + "interpolate_curve", md1, arr3(v, P), arr3(v, t1), arr3(v, t2), L, D, v.real("f"), step, endpoint)
    md, vec = r["md"], r["vec"]
    n = md.shape[0]
    v.ensure("starts at the first depth", T.eq(v.at(md, 0), md1))
    if endpoint:
        v.ensure("ends at the end of the curve", T.eq(v.at(md, T.isub(n, 1)), add(md1, L)))
        return
    k = v.idx(T.isub(n, 1))
    s = sub(v.at(md, k), md1)
    d = mul(div(D, L), s)
    y = [v.at(vec, k, c) for c in range(3)]
    f = v.angles(y, d, "d")
    for c in range(3):
        v.ensure("direction of the arc " + "NEV"[c], T.subst(T.eq(y[c], add(mul(T.cos(d), t1[c]), mul(T.sin(d), nrm[c]))), f))
    k1 = T.iadd(k, 1)
    a, b = v.at(md, k), v.at(md, k1)
    v.ensure("depths increase", T.lt(a, b))
    v.ensure("steps no longer than asked", T.le(sub(b, a), step))
    v.ensure("within the curve", T.lt(b, add(md1, L)))


def s_hold(v, endpoint=False):
    """interpolate_hold: the same direction at every multiple of the step, including the start"""
    md1, md2, step = v.real("md1", lo=0), v.real("md2"), v.real("step", gt=0)
    v.assume(T.lt(md1, md2))
    i, a = v.real("i", lo=0), v.real("a")
    t1 = tangent(i, a)

    def ga(I, vec, nev=False):
        from pyvc.arrays import SArr
        return SArr((vec.shape[0], 2), lambda ix: T.app("ang%d" % ix[1], (ix[0],)), "f")
    v.contract(U + "get_angles", ga)
    r = v.call(C_ + "interpolate_hold", md1, arr3(v, vec3(v, "o")), arr3(v, t1), md2, step, endpoint)
    md, vec = r["md"], r["vec"]
    n = md.shape[0]
    v.ensure("starts at the first depth", T.eq(v.at(md, 0), md1))
    if endpoint:
        v.ensure("ends at the end of the hold", T.eq(v.at(md, T.isub(n, 1)), md2))
        return
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    a, b = v.at(md, k), v.at(md, k1)
    for c in range(3):
        v.ensure("direction held " + "NEV"[c], T.eq(v.at(vec, k1, c), t1[c]))
    v.ensure("depths increase", T.lt(a, b))
    v.ensure("steps no longer than asked", T.le(sub(b, a), step))
    v.ensure("within the hold", T.lt(b, md2))


def s_flags(v, pos=0):
    """flags, radii and covariances of the resampled survey, for 3 stations and one interpolated point (the resampled listing by contract)"""
    from pyvc.arrays import as_arr
    n, h, s = survey_obj(v, n=3, cov=True)
    s.attrs["error_model"] = "ISCWSA MWD Rev5.11"
    md = [v.at(v.get(s, "md"), j) for j in range(3)]
    v.assume(*[T.lt(md[j], md[j + 1]) for j in range(2)])
    C, R = v.get(s, "cov_nev"), v.get(s, "radius")
    x = v.real("x")
    v.assume(T.lt(md[pos], x), T.lt(x, md[pos + 1]))
    out = md[:pos + 1] + [x] + md[pos + 1:]
    m, h2, s2 = survey_obj(v, n=4, h=h)
    s2.attrs["md"] = as_arr(out)

    def fc(I, *a, **k):
        return s2
    v.contract(S_ + "from_connections", fc)
    v.contract("welleng.utils.NEV_to_HLA", lambda I, *a, **k: None)
    v.external("welleng.connector.Connector", lambda I, *a, **k: v.obj("welleng.connector.Connector", node_end=None))
    v.external("welleng.node.Node", lambda I, *a, **k: v.obj("welleng.node.Node"))
    r = v.call(S_ + "interpolate_survey", s, v.real("step", gt=0))
    fl, rad, cov = v.get(r, "interpolated"), v.get(r, "radius"), v.get(r, "cov_nev")
    for j in range(4):
        v.ensure("flag %d" % j, T.eq(T.tobool(v.at(fl, j)), T.TRUE if j == pos + 1 else T.FALSE))
        u = j if j <= pos else j - 1
        v.ensure("radius %d is that of the station at or before" % j, T.eq(v.at(rad, j), v.at(R, u)))
        for a in range(3):
            for b in range(a, 3):
                e = v.at(C, u, a, b)
                if j == pos + 1:
                    e = add(e, mul(div(sub(x, md[u]), sub(md[u + 1], md[u])), sub(v.at(C, u + 1, a, b), e)))
                v.ensure("covariance %d is linear in depth" % j, T.eq(v.at(cov, j, a, b), e))


def s_intervals(v, ref, n=3):
    """interpolate_survey resamples the connection of each station to the next, in the survey's own reference (connectors and their listing by contract)"""
    _, h, s = survey_obj(v, n=n, ref=ref)
    s.attrs["error_model"] = None
    md, inc = v.get(s, "md"), v.get(s, "inc_rad")
    for j in range(n - 1):
        v.assume(T.lt(v.at(md, j), v.at(md, j + 1)))
    for q in ("true", "mag"):
        s.attrs["azi_%s_rad" % q] = v.arr("azi_" + q, n)
    azi = v.get(s, {"grid": "azi_grid_rad", "true": "azi_true_rad", "magnetic": "azi_mag_rad"}[ref])
    nodes, cons, out = [], [], []

    def node(I, *a, **k):
        o = v.obj("welleng.node.Node")
        nodes.append((o, dict(zip(("pos", "vec", "md", "inc", "azi", "unit", "degrees"), a), **k)))
        return o

    def con(I, *a, **k):
        e = v.obj("welleng.node.Node")
        o = v.obj("welleng.connector.Connector", node_end=e)
        k = dict(zip(("node1", "node2"), a), **k)
        cons.append((o, k["node1"], k["node2"], k, e))
        return o

    def fc(I, *a, **k):
        k = dict(zip(("section_data", "step", "survey_header", "start_nev", "start_xyz"), a), **k)
        out.append(k)
        return s
    v.external("welleng.node.Node", node)
    v.external("welleng.connector.Connector", con)
    v.contract(S_ + "from_connections", fc)
    step = v.real("step", gt=0)
    v.call(S_ + "interpolate_survey", s, step)
    k = out[0]
    v.ensure("a connection for each interval, in order", T.TRUE if len(cons) == n - 1 and [id(x) for x in k["section_data"]] == [id(c[0]) for c in cons] else T.FALSE)
    v.ensure("at the step", T.eq(k["step"], step))
    v.ensure("the survey's header, start and unit", T.TRUE if k["survey_header"] is h and k["depth_unit"] == v.get(s, "unit") and k.get("error_model") is None else T.FALSE)
    v.ensure("start coordinates", T.land(*[T.eq(v.at(k["start_xyz"], c), v.at(v.get(s, "start_xyz"), c)) for c in range(3)]))
    if k.get("start_nev") is not None:
        v.ensure("no further offset", T.land(*[T.eq(x, 0) for x in k["start_nev"]]))
    N = {id(o): kw for o, kw in nodes}
    for j, (o, a, b, kw, e) in enumerate(cons):
        if j:
            v.ensure("connection %d starts where the last ends" % j, T.TRUE if a is cons[j - 1][4] else T.FALSE)
        else:
            q = N[id(a)]
            v.ensure("first station", T.land(T.eq(q["md"], v.at(md, 0)), T.eq(q["inc"], v.at(inc, 0)), T.eq(q["azi"], v.at(azi, 0)), T.TRUE if q["degrees"] is False else T.FALSE,
                                             *[T.eq(v.at(q["pos"], c), v.at(v.get(s, "start_nev"), c)) for c in range(3)]))
        q = N[id(b)]
        v.ensure("station %d" % (j + 1), T.land(T.eq(q["md"], v.at(md, j + 1)), T.eq(q["inc"], v.at(inc, j + 1)), T.eq(q["azi"], v.at(azi, j + 1)), T.TRUE if q["degrees"] is False else T.FALSE,
                                                T.TRUE if q["unit"] == v.get(s, "unit") and q.get("pos") is None and q.get("vec") is None else T.FALSE))
        v.ensure("curved all the way %d" % j, T.TRUE if kw["force_min_curve"] is True and kw["unit"] == v.get(s, "unit") else T.FALSE)


def s_listing(v, header, two=True):
    """from_connections: the sections' points in order, the joint once (their points by contract)"""
    import types as ty
    from pyvc.arrays import as_arr
    n = (2, 3) if two else (3,)
    secs, rows, cons = [], [], []
    m = [v.real("m%d" % i) for i in range(sum(n) - (1 if two else 0))]
    R = lambda x: T.mk("round", (T.toreal(x), T.toint(4)), "R")
    for a, b in zip(m, m[1:]):
        v.assume(T.lt(a, b), T.ne(R(a), R(b)))
    k = 0
    for j, c in enumerate(n):
        I_, A_ = [v.real("i%d%d" % (j, q)) for q in range(c)], [v.real("a%d%d" % (j, q)) for q in range(c)]
        M_ = m[k:k + c]
        k += c - 1
        secs.append(dict(md=as_arr(M_), inc=as_arr(I_), azi=as_arr(A_)))
        rows += list(zip(M_, I_, A_))[(1 if j else 0):]
        cons.append(v.obj("welleng.connector.Connector", md1=M_[0], md_target=M_[-1], pos1=arr3(v, vec3(v, "p%d" % j))))
    calls, made = [], []

    def iw(I, *a, **kw):
        calls.append(dict(zip(("sections", "step"), a), **kw))
        return secs
    v.contract(C_ + "interpolate_well", iw)
    v.external(S_ + "Survey", lambda I, *a, **kw: made.append(dict(zip(("md", "inc", "azi"), a), **kw)) or v.obj(S_ + "Survey"))
    h = v.obj(S_ + "SurveyHeader", azi_reference="grid") if header else None
    step, nev, xyz, rad = v.real("step", gt=0), vec3(v, "s"), vec3(v, "x"), v.real("radius")
    given = (cons if two else cons[0])
    v.call(S_ + "from_connections", given, step=step, survey_header=h, start_nev=arr3(v, nev), start_xyz=arr3(v, xyz), radius=rad, depth_unit="feet")
    c, k = calls[0], made[0]
    v.ensure("of those sections at that step", T.land(T.TRUE if [id(x) for x in c["sections"]] == [id(x) for x in cons] else T.FALSE, T.eq(c["step"], step)))
    v.ensure("number of stations", T.TRUE if k["md"].shape[0] == len(rows) else T.FALSE)
    for j, r in enumerate(rows):
        v.ensure("station %d" % j, T.land(*[T.eq(v.at(k[q], j), x) for q, x in zip(("md", "inc", "azi"), r)]))
    p = v.get(cons[0], "pos1")
    v.ensure("start", T.land(*[T.land(T.eq(v.at(k["start_nev"], q), add(v.at(p, q), nev[q])), T.eq(v.at(k["start_xyz"], q), xyz[q])) for q in range(3)]))
    v.ensure("radius, unit and angles", T.land(T.eq(k["radius"], rad), T.TRUE if k["unit"] == "feet" and k["deg"] is False and k.get("error_model") is None else T.FALSE))
    hd = k["header"]
    v.ensure("header", T.TRUE if (hd is h if header else v.get(hd, "azi_reference") == "grid" and v.get(hd, "depth_unit") == "feet") else T.FALSE)
    ends = {0, n[0] - 1, len(rows) - 1}
    for j in range(len(rows)):
        v.ensure("flag %d" % j, T.eq(T.tobool(v.at(k["interpolated"], j)), T.FALSE if j in ends else T.TRUE))


SPECS = [Spec("curve", s_curve), Spec("curve/endpoint", lambda v: s_curve(v, True)), Spec("hold", s_hold), Spec("hold/endpoint", lambda v: s_hold(v, True)),
         Spec("flags", s_flags, bounded="3 stations, one interpolated point in the first interval"), Spec("flags/2", lambda v: s_flags(v, 1), bounded="3 stations, one interpolated point in the second interval")]

SPECS += [Spec('intervals/%s' % r, lambda v, r=r: s_intervals(v, r), bounded='3 stations') for r in ('grid', 'true', 'magnetic')]
SPECS += [Spec('listing/%s' % k, lambda v, a=a, b=b: s_listing(v, a, b), bounded='one or two sections of up to three points') for k, a, b in (('two', True, True), ('two/no header', False, True), ('one', True, False))]


def g(d):
    err = d.bool(.25)
    c = gen_full(d, maxdl=3.1, lo=3, hi=6, maxinc=100.0) if err else gen_full(d, maxdl=3.1, hi=6)
    c["gsf"] = 1.0 if d.bool(.5) else c["gsf"]
    k = d.r.random()
    if k < .5:
        q = d.choice([0, 1, 2, 3])
        c["md"] = [round(x, q) for x in c["md"]]
    for j in range(1, len(c["md"])):
        if c["md"][j] - c["md"][j - 1] < .05:
            c["md"][j] = c["md"][j - 1] + .05
    c["step"] = d.choice([30, 10, 1.0, d.real(.5, 60), d.real(5, 500), d.real(5, 500), None])
    c["radius"] = [d.real(.05, .5) for _ in c["md"]] if d.bool(.5) else None
    c["err"] = err
    c["C"] = None
    return c


def ck(c):
    import welleng as we
    kw = {}
    if c["radius"] is not None:
        kw["radius"] = np.array(c["radius"])
    if c["err"]:
        kw["error_model"] = "ISCWSA MWD Rev5.11"
    s = full_survey(c, **kw)
    if c["step"] and (c["md"][-1] - c["md"][0]) / c["step"] > 3000:
        raise Skip
    snap = snapshot(s)
    I, A = np.radians(c["inc"]), np.radians(c["azi"])
    T_ = [ref_tan(i, a) for i, a in zip(I, A)]
    for a, b in zip(T_, T_[1:]):
        if ref_angle(a, b) > 3.12:
            raise Skip
    ref = full_ref(c)
    sc = 1 + np.abs(ref[0]).max() + max(abs(x) for x in c["nev"] + c["xyz"])
    r = s.interpolate_survey(step=c["step"])
    md = np.array(r.md)
    tol = 1.2e-4
    near = [int(np.abs(md - m).argmin()) for m in c["md"]]
    for m, j in zip(c["md"], near):
        if abs(md[j] - m) > tol:
            return "station at %r is missing" % m
    if len(set(near)) != len(near):
        raise Skip
    for j in range(len(md)):
        if bool(r.interpolated[j]) == (j in near):
            return "point at %r (%s station) flagged interpolated=%r" % (md[j], "a" if j in near else "not a", r.interpolated[j])
    gaps = np.diff(md)
    if np.any(gaps <= 0):
        return "depths do not increase at %r" % md[:-1][gaps <= 0][0]
    if c["step"] and gaps.max() > c["step"] + tol:
        return "gap of %r for step %r" % (gaps.max(), c["step"])
    for j in range(len(md)):
        p, u, k = ref_at(c, min(max(md[j], c["md"][0]), c["md"][-1]), ref)
        L = c["md"][k + 1] - c["md"][k]
        dl = ref_angle(T_[k], T_[k + 1])
        loose = 1e-6 + 2e-4 * dl / max(L, 1e-3)
        if dl > 3:
            loose += 1e-4
        if not close(r.vec_nev[j], u, 1e-6, loose):
            return "direction at %r: %s" % (md[j], worst(r.vec_nev[j], u))
        if not close(r.pos_nev[j], p, 1e-6, 1e-6 * sc + 1e-3 * len(md) ** .5 * (1 if dl > 3 else .2)):
            return "position at %r: %s" % (md[j], worst(r.pos_nev[j], p))
        k = 0
        while k + 1 < len(near) and near[k + 1] <= j:
            k += 1
        if not close(r.radius[j], s.radius[k], 1e-12, 1e-12):
            return "radius at %r: %r, station before has %r" % (md[j], r.radius[j], s.radius[k])
        if c["err"]:
            f = 0 if k + 1 == len(near) else (md[j] - c["md"][k]) / (c["md"][k + 1] - c["md"][k])
            e = s.cov_nev[k] + f * (s.cov_nev[min(k + 1, len(near) - 1)] - s.cov_nev[k])
            if not close(r.cov_nev[j], e, 1e-6, 1e-5):
                return "covariance at %r: %s" % (md[j], worst(r.cov_nev[j], e))
    X = np.array([s.x[0], s.y[0], s.z[0]])
    if not close([r.x[0], r.y[0], r.z[0]], X, 1e-9, 1e-9) or r.unit != s.unit:
        return "start or unit not carried over"
    for k, w in snap[1].items():
        if k not in ("azi_reference", "vertical_section_azimuth") and isinstance(w, (int, float, str, bool)) and not (getattr(r.header, k, None) == w):
            return "header %s is %r, was %r" % (k, getattr(r.header, k, None), w)
    if not close(np.array(r.vertical_section)[near], s.vertical_section, 1e-5, 1e-5 * sc + 1e-2 * len(md) ** .5):
        return "vertical section of the stations: %s" % worst(np.array(r.vertical_section)[near], s.vertical_section)
    return same_snapshot(s, snap)


DYN = [Dyn("interpolate_survey", g, ck, n=(1000, 12000))]
