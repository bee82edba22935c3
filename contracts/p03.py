"""P03 curvature attributes of a survey"""
from .common import *

FILES = ["welleng/survey.py", "welleng/utils.py"]
S_ = "welleng.survey."
U = "welleng.utils."
META = dict(
    title="Dogleg severity, curve radius, toolface and rates describe the interval's arc",
    statement="For every survey, the dogleg severity of a station is the angle in degrees between its direction and the previous station's, divided by the interval's length, per 30 m (per 100 ft when the survey is in feet), zero at the first station, and the curve radius is the interval length divided by that angle in radians (infinite where the interval is straight). "
              "The toolface of every station but the last is the angle, measured clockwise from high side about the hole direction, of the arc towards the next station; the last station's is that of the arc it ends, in 0..360 degrees. "
              "The build rate is the magnitude of dogleg severity times cos(toolface), the turn rate the magnitude of dogleg severity times sin(toolface)/sin(inclination); interval normals are the unit cross product of the two directions. "
              "get_circle_radius gives the centre of every curved interval's arc from both of its ends (grid scale factor one): the interval's curve radius away from each station, across its direction, on the side the arc turns to.",
    over=["inputs", "configurations"], quantifier="all surveys with two or more stations, metres and feet, all headers",
    why="Tests read these attributes for a few wells in metres only; that severity, radius and toolface agree with the geometry must hold for every pair of directions and both units.",
    mechanism=[("severity", "welleng/utils.py:MinCurve"), ("toolface and rates", "welleng/survey.py:Survey._get_toolface_and_rates"), ("rate", "welleng/survey.py:Survey._curvature_to_rate"), ("pairs", "welleng/survey.py:SplitSurvey"), ("centres", "welleng/survey.py:get_circle_radius")],
    observe_at="Survey.dls, curve_radius, toolface, build_rate, turn_rate, normals; get_circle_radius(...)")


def high(i, a):
    return [mul(T.cos(i), T.cos(a)), mul(T.cos(i), T.sin(a)), neg(T.sin(i))]


def right(i, a):
    return [neg(T.sin(a)), T.cos(a), T.const(0)]


def s_curv(v, unit):
    n, md, inc, azi, h, s = survey(v, unit=unit)
    X = 30 if unit == "meters" else 100
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    i1, a1, i2, a2 = [v.at(x, q) for q in (k, k1) for x in (inc, azi)]
    t1, t2 = tangent(i1, a1), tangent(i2, a2)
    dm = sub(v.at(md, k1), v.at(md, k))
    v.assume(T.lt(0, dm))
    dogleg_lemmas(v, t1, t2)
    dl = v.at(v.get(s, "dogleg"), k1)
    dls = v.at(v.get(s, "dls"), k1)
    cr = v.at(v.get(s, "curve_radius"), k1)
    v.ensure("severity of the first station", T.eq(v.at(v.get(s, "dls"), 0), 0))
    v.ensure("dls * length = dogleg in degrees * unit length", T.eq(mul(dls, dm), M(dl, div(180, T.PI), X)))
    v.ensure("curve radius * dogleg = length", T.implies(T.lt(0, dl), T.eq(mul(cr, dl), dm)))
    tf = v.at(v.get(s, "toolface"), k)
    y, x = dot(t2, right(i1, a1)), dot(t2, high(i1, a1))
    v.assume(T.lor(T.ne(x, 0), T.ne(y, 0)))
    v.ensure("toolface = atan2(right, high)", T.eq(tf, T.atan2(y, x)))
    v.ensure("lemma: right^2 + high^2 = 1 - (t1.t2)^2", T.eq(add(mul(x, x), mul(y, y)), sub(1, mul(dot(t1, t2), dot(t1, t2)))))
    # the last station: forward continuation of the arc ending there
    l2, l1 = T.isub(n, 1), T.isub(n, 2)
    j1, b1, j2, b2 = [v.at(q, p) for p in (l1, l2) for q in (inc, azi)]
    u1 = tangent(j1, b1)
    y, x = neg(dot(u1, right(j2, b2))), neg(dot(u1, high(j2, b2)))
    te = v.at(v.get(s, "toolface"), l2)
    at = T.atan2(y, x)
    v.assume(T.lor(T.ne(x, 0), T.ne(y, 0)))
    v.ensure("last toolface", T.eq(te, T.ite(T.lt(at, 0), add(at, mul(2, T.PI)), at)))
    tf = v.at(v.get(s, "toolface"), k1)
    br, tr = v.at(v.get(s, "build_rate"), k1), v.at(v.get(s, "turn_rate"), k1)
    v.assume(T.lt(0, dl))
    X_, L_ = T.var("any toolface"), T.var("any severity")     # generalised: the rates depend on these only
    br, tr, dls, tf = [T.subst(q, {tf: X_, dls: L_}) for q in (br, tr, dls, tf)]
    v.assume(T.lt(0, dls))
    v.ensure("build rate^2", T.implies(T.lt(0, T.cos(tf)), T.eq(mul(br, br), M(dls, dls, T.cos(tf), T.cos(tf)))))
    v.ensure("turn rate^2", T.implies(T.land(T.ne(0, T.sin(tf)), T.ne(0, T.sin(i2))), T.eq(M(tr, tr, T.sin(i2), T.sin(i2)), M(dls, dls, T.sin(tf), T.sin(tf)))))
    N = v.get(s, "normals")
    cr_ = cross(t1, t2)
    m2 = norm2(cr_)
    v.assume(T.lt(0, m2))
    v.ensure("normal is unit", T.eq(S(*[mul(v.at(N, k, c), v.at(N, k, c)) for c in range(3)]), 1))
    for c in range(3):
        v.ensure("normal along t1 x t2 " + "NEV"[c], T.eq(mul(v.at(N, k, c), T.sqrt(m2)), cr_[c]))


def s_centre(v, end):
    """get_circle_radius: each interval's centre from its two ends (severity, radius and normals of a survey under contract above)"""
    n, h, s = survey_obj(v)
    m = T.isub(n, 1)
    k = v.idx(m)
    k1 = T.iadd(k, 1)
    s.attrs["vec_nev"] = t = v.arr("t", n, 3)
    s.attrs["vec_xyz"] = v.table((n, 3), lambda j, c: T.ite(T.eq(c, 0), v.at(t, j, 1), T.ite(T.eq(c, 1), v.at(t, j, 0), v.at(t, j, 2))))
    s.attrs["normals"] = N = v.arr("N", m, 3)
    starts, ends = v.call(S_ + "get_circle_radius", s)
    v.ensure("two rows for every interval", T.land(T.eq(starts.shape[0], T.iadd(m, m)), T.eq(ends.shape[0], T.iadd(m, m))))
    row, at = (k, k) if end == "start" else (T.iadd(m, k), k1)
    d = [v.at(t, at, c) for c in range(3)]
    b = cross([v.at(N, k, c) for c in range(3)], d)
    m2 = norm2(b)
    v.assume(T.eq(m2, 1))                                       # the normal is a unit vector across both directions
    R = v.at(v.get(s, "curve_radius"), k1)
    for c, q in enumerate(("n", "e", "tvd")):
        v.ensure("the station " + q, T.eq(v.at(ends, row, c), v.at(v.get(s, q), at)))
        v.ensure("a radius of that interval away, towards the inside " + q, T.eq(sub(v.at(starts, row, c), v.at(v.get(s, q), at)), mul(R, b[c])))


SPECS = [Spec("centre/start", lambda v: s_centre(v, "start")), Spec("centre/end", lambda v: s_centre(v, "end"))]
SPECS += [Spec("curvature/meters", lambda v: s_curv(v, "meters")), Spec("curvature/feet", lambda v: s_curv(v, "feet"))]


def g(d):
    c = gen_stations(d, maxdl=3.0, hi=8)
    c["unit"] = d.choice(["meters", "feet"])
    c["ref"] = d.choice(["grid", "true", "magnetic"])
    c["conv"], c["decl"] = d.real(-10, 10), d.real(-30, 30)
    return c


def ck(c):
    import welleng as we
    h = we.survey.SurveyHeader(azi_reference=c["ref"], depth_unit=c["unit"], convergence=c["conv"], declination=c["decl"], b_total=50000, dip=70)
    s = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=h, unit=c["unit"])
    off = {"grid": 0, "true": c["conv"], "magnetic": c["conv"] - c["decl"]}[c["ref"]]
    I, A = np.radians(c["inc"]), np.radians(np.array(c["azi"]) - off)
    X = 30 if c["unit"] == "meters" else 100
    t = [ref_tan(i, a) for i, a in zip(I, A)]
    n = len(I)
    hi = [np.array([math.cos(i) * math.cos(a), math.cos(i) * math.sin(a), -math.sin(i)]) for i, a in zip(I, A)]
    rt = [np.array([-math.sin(a), math.cos(a), 0]) for i, a in zip(I, A)]
    for nm in ("dls", "curve_radius", "toolface", "build_rate", "turn_rate", "dogleg"):
        if len(getattr(s, nm)) != n:
            return "%s has %d values for %d stations" % (nm, len(getattr(s, nm)), n)
    if s.dls[0] != 0:
        return "severity of the first station is %r" % s.dls[0]

    with np.errstate(all="ignore"):
        st, en = we.survey.get_circle_radius(s)
    if len(st) != 2 * (n - 1) or not np.array_equal(en, np.vstack((s.pos_nev[:-1], s.pos_nev[1:]))):
        return "get_circle_radius: ends %r" % (en,)
    for k in range(1, n):
        dl, L = ref_angle(t[k - 1], t[k]), c["md"][k] - c["md"][k - 1]
        cr = np.cross(t[k - 1], t[k])
        if dl > 1e-3 and np.linalg.norm(cr) > 1e-3:
            R, w = L / dl, cr / np.linalg.norm(cr)
            for row, j in ((k - 1, k - 1), (n - 1 + k - 1, k)):
                want = np.array(s.pos_nev[j]) + R * np.cross(w, t[j])
                if not close(st[row], want, 1e-6, 1e-5 * (1 + R)):
                    return "centre of interval %d from station %d: %s" % (k, j, worst(st[row], want))

    def angd(a, b):
        return abs((a - b + math.pi) % (2 * math.pi) - math.pi)
    for k in range(1, n):
        dl, L = ref_angle(t[k - 1], t[k]), c["md"][k] - c["md"][k - 1]
        if not close(s.dls[k] * L, math.degrees(dl) * X, 1e-6, 1e-5 * X):
            return "dls[%d] = %r expected %r" % (k, s.dls[k], math.degrees(dl) * X / L)
        if dl > 1e-4:
            if not close(s.curve_radius[k] * dl, L, 1e-6, 0):
                return "curve_radius[%d] = %r expected %r" % (k, s.curve_radius[k], L / dl)
            y, x = t[k] @ rt[k - 1], t[k] @ hi[k - 1]
            if math.hypot(x, y) > 1e-5 and angd(s.toolface[k - 1], math.atan2(y, x)) > 1e-6 / math.hypot(x, y) * 1e-4 + 1e-7:
                return "toolface[%d] = %r expected %r" % (k - 1, s.toolface[k - 1], math.atan2(y, x))
            if k == n - 1 and math.hypot(x, y) > 1e-5:
                y, x = -(t[k - 1] @ rt[k]), -(t[k - 1] @ hi[k])
                if angd(s.toolface[k], math.atan2(y, x)) > 1e-7:
                    return "last toolface = %r expected %r" % (s.toolface[k], math.atan2(y, x))
                if not 0 <= s.toolface[k] <= 2 * math.pi + 1e-12:
                    return "last toolface %r outside 0..2pi" % s.toolface[k]
            b = abs(s.dls[k] * math.cos(s.toolface[k]))
            if not close(s.build_rate[k], b, 1e-6, 1e-7 * (1 + s.dls[k])):
                return "build_rate[%d] = %r expected %r" % (k, s.build_rate[k], b)
            if math.sin(I[k]) > 1e-3:
                b = abs(s.dls[k] * math.sin(s.toolface[k]) / math.sin(I[k]))
                if not close(s.turn_rate[k], b, 1e-6, 1e-7 * (1 + s.dls[k])):
                    return "turn_rate[%d] = %r expected %r" % (k, s.turn_rate[k], b)
            cr = np.cross(t[k - 1], t[k])
            if np.linalg.norm(cr) > 1e-5 and not close(s.normals[k - 1], cr / np.linalg.norm(cr), 1e-6, 1e-6):
                return "normals[%d] %s" % (k - 1, worst(s.normals[k - 1], cr / np.linalg.norm(cr)))
        elif c["inc"][k] == c["inc"][k - 1] and c["azi"][k] == c["azi"][k - 1] and not (s.dls[k] == 0 and math.isinf(s.curve_radius[k])):
            return "straight interval %d has curve radius %r" % (k, s.curve_radius[k])
    return None


DYN = [Dyn("curvature", g, ck, n=(3000, 60000))]
