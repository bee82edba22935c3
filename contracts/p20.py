"""P20 geometry of the closest points between two wells"""
from .common import *

FILES = ["welleng/clearance.py", "welleng/survey.py", "welleng/utils.py"]
C = "welleng.clearance."
U = "welleng.utils."
META = dict(
    title="Closest points lie on the offset well; distances and bearings are theirs",
    statement="For every pair of wells and every station of the reference well, the closest point reported lies on the offset well's own path (at its measured depth, with the direction and x, y, z of the path there) on one of the intervals meeting at the nearest offset station, and nothing on those intervals is nearer; "
              "the reported distance is the distance between the two points, the horizontal bearing is that of the line between them in [0, 360), the toolface bearing is its direction in the reference hole's highside/right axes, and the travelling cylinder azimuth adds the hole's azimuth to it. "
              "The lines returned join each station to its closest point, both wells' results have one entry per reference station at or below the kick-off, and neither survey is changed.",
    over=["inputs"], quantifier="all pairs of surveys (intervals below half a turn) and all stations",
    why="The tests check separation factors of a fixed data set; a wrong interval, a scale factor missed in one of two interpolators or a flipped axis shows only for other geometries.",
    mechanism=[("closest points", "welleng/clearance.py:IscwsaClearance._get_closest_points"), ("point on the path", "welleng/survey.py:_interpolate_pos_nev"), ("bearings", "welleng/clearance.py:IscwsaClearance._get_delta_nev_vectors"), ("lines", "welleng/clearance.py:IscwsaClearance.get_lines"), ("kick-off", "welleng/clearance.py:Clearance._get_ref")],
    observe_at="IscwsaClearance(...).off, distance_cc, hoz_bearing_deg, toolface_bearing_deg, trav_cyl_azi_deg, get_lines()")


def s_pos(v, straight):
    """the position-only interpolation is the arc's point (same contract as the survey interpolation in P07)"""
    n, h, s = survey_obj(v)
    g = v.get(h, "grid_scale_factor")
    md, inc, ga = [v.get(s, x) for x in ("md", "inc_rad", "azi_grid_rad")]
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    x = v.real("x")
    L = sub(v.at(md, k1), v.at(md, k))
    v.assume(T.lt(0, x), T.le(x, L))
    t1, t2 = tangent(v.at(inc, k), v.at(ga, k)), tangent(v.at(inc, k1), v.at(ga, k1))
    D = v.at(v.get(s, "dogleg"), k1)
    if straight:
        v.assume(T.eq(D, 0))
    else:
        v.assume(T.lt(0, D), T.lt(D, T.PI), T.lt(0, T.sin(D)))
    raw = []
    rec = use_get_angles(v, raw)
    r = v.call("welleng.survey._interpolate_pos_nev", s, x, k)
    N = [v.get(s, c) for c in ("n", "e", "tvd")]
    if straight:
        for c in range(3):
            v.ensure("straight on " + "NEV"[c], T.eq(sub(v.at(r, c), v.at(N[c], k)), M(x, g if c < 2 else 1, t1[c])))
        return
    v.ensure("one direction is interpolated", T.TRUE if len(rec) == 1 else T.FALSE)
    i2, a2, u = rec[0]
    d = mul(x, div(D, L))
    w = [div(add(mul(T.sin(sub(D, d)), t1[c]), mul(T.sin(d), t2[c])), T.sin(D)) for c in range(3)]
    v.assume(T.lt(0, norm2(w)))
    for c, z in enumerate(cross(raw[0], w)):
        v.ensure("direction is along the arc's tangent " + "NEV"[c], T.eq(z, 0))
    v.ensure("direction is forward along the arc's tangent", T.lt(0, dot(raw[0], w)))
    tt = tangent(i2, a2)
    rf = v.call(U + "get_rf", v.call(U + "get_dogleg", v.at(inc, k), v.at(ga, k), i2, a2))
    f = {rf: T.var("rf_1")} if isinstance(rf, Term) and rf.op not in ("const", "var") else {}
    for c in range(3):
        v.ensure("advances by the arc's chord " + "NEV"[c], T.subst(T.eq(sub(v.at(r, c), v.at(N[c], k)), M(x, rf, 0.5, g if c < 2 else 1, add(t1[c], tt[c]))), f))


def s_fun(v):
    P, Q = vec3(v, "p"), vec3(v, "q")
    asked = []
    v.contract("welleng.survey._interpolate_pos_nev", lambda I, s, x, i: asked.append((s, x, i)) or arr3(v, P))
    o = v.obj(C + "IscwsaClearance")
    sv = v.obj("welleng.survey.Survey")
    x = v.real("x")
    r = v.method(o, "_fun", arr3(v, [x]), sv, 3, list(Q))
    v.ensure("the point asked for", T.land(T.TRUE if asked[0][0] is sv and asked[0][2] == 3 else T.FALSE, T.eq(asked[0][1], x)))
    d = [sub(a, b) for a, b in zip(P, Q)]
    v.ensure("distance", T.land(T.le(0, r), T.eq(mul(r, r), norm2(d))))


def s_vectors(v):
    n = v.int("n", lo=1)
    R, O = v.arr("R", n, 3), v.arr("O", n, 3)
    inc, azi = v.arr("inc", n), v.arr("azi", n)
    md = v.arr("md", n)
    rad = v.table((n, 3), lambda k, c: T.ite(T.eq(c, 0), v.at(md, k), T.ite(T.eq(c, 1), v.at(inc, k), v.at(azi, k))))
    ref = v.obj("welleng.survey.Survey", survey_rad=rad, azi_grid_deg=v.arr("azd", n))
    off = v.obj("welleng.survey.Survey", survey_rad=rad)
    o = v.obj(C + "IscwsaClearance", ref_nevs=R, off_nevs=O, ref=ref, off=off, reference=ref, kop_index=0)
    k = v.idx(n)
    d = [sub(v.at(O, k, c), v.at(R, k, c)) for c in range(3)]
    v.assume(T.lt(0, norm2(d)))
    v.method(o, "_get_delta_nev_vectors")
    D = v.at(v.get(o, "distance_cc"), k)
    v.cut("apart", T.lt(0, T.sqrt(norm2(d))))
    v.ensure("distance is that of the points", T.eq(D, T.sqrt(norm2(d))))
    u, w = v.get(o, "ref_delta_nevs"), v.get(o, "off_delta_nevs")
    hl = v.get(o, "ref_delta_hlas")
    for c in range(3):
        v.ensure("unit vector to the offset well " + "NEV"[c], T.eq(mul(v.at(u, k, c), D), d[c]))
        v.ensure("and back " + "NEV"[c], T.eq(mul(v.at(w, k, c), D), neg(d[c])))
    I_, A_ = v.at(inc, k), v.at(azi, k)
    axes = [[mul(T.cos(I_), T.cos(A_)), mul(T.cos(I_), T.sin(A_)), neg(T.sin(I_))], [neg(T.sin(A_)), T.cos(A_), T.const(0)], tangent(I_, A_)]
    for c in range(3):
        v.ensure("in the hole's axes " + "HLA"[c], T.eq(v.at(hl, k, c), dot(axes[c], [v.at(u, k, j) for j in range(3)])))
    two = mul(2, T.PI)
    b = T.atan2(v.at(u, k, 1), v.at(u, k, 0))
    hb = v.at(v.get(o, "hoz_bearing"), k)
    v.ensure("bearing in [0, 360)", T.land(T.le(0, hb), T.lt(hb, two)))
    dd = v.at(v.get(o, "hoz_bearing_deg"), k)
    v.ensure("bearing in degrees", T.eq(mul(dd, T.PI), mul(hb, 180)))
    tb = v.at(v.get(o, "toolface_bearing"), k)
    v.ensure("toolface bearing in [0, 360)", T.land(T.le(0, tb), T.lt(tb, two)))
    td = v.at(v.get(o, "toolface_bearing_deg"), k)
    v.ensure("toolface bearing in degrees", T.eq(mul(td, T.PI), mul(tb, 180)))
    tc = v.at(v.get(o, "trav_cyl_azi_deg"), k)
    v.ensure("travelling cylinder", T.eq(tc, T.fmod(S(v.at(v.get(ref, "azi_grid_deg"), k), td, 360), 360)))


def s_closest(v, at):
    """two reference stations whose nearest offset station is the first, an inner or the last one"""
    m = v.int("m", lo=3)
    n, h, off = survey_obj(v, n=m, cov=True)
    here = at
    at = {0: 0, 1: T.iadd(v.idx(T.isub(m, 2)), 1), 2: T.isub(m, 1)}[at]
    omd = v.get(off, "md")
    v.forall(T.isub(m, 1), lambda i: T.lt(v.at(omd, i), v.at(omd, T.iadd(i, 1))))
    off.attrs["cov_hla"] = v.arr("H", m, 3, 3)
    Q = [vec3(v, "s"), vec3(v, "t")]
    from pyvc.arrays import as_arr
    stations = as_arr([list(q) for q in Q])
    o = v.obj(C + "IscwsaClearance", offset=off, idx=as_arr([at, at]), ref_nevs=stations, offset_nevs=v.arr("on", m, 3), _off_cov_nev_corrected=None, _off_cov_hla_corrected=None)
    runs, took = [], []
    f = {}
    def pos(I, s, x, i):
        k = (T.toint(i) if not isinstance(i, Term) else i, x)
        if k not in f:
            f[k] = [v.ctx.fresh("f") for _ in range(3)]
        return arr3(v, f[k])
    v.contract("welleng.survey._interpolate_pos_nev", pos)
    def minimize(I, fun, x0, method=None, bounds=None, args=(), **kw):
        # assumed of the optimiser: it stays within the bounds and reports its value
        t = v.ctx.fresh("t")
        v.assume(T.le(bounds[0][0], t), T.le(t, bounds[0][1]))
        val = I.call(fun, [arr3(v, [t])] + list(args), {})
        r = v.obj("types.SimpleNamespace", x=arr3(v, [t]), fun=val)
        runs.append((args, bounds, t, val))
        return r
    v.external("scipy.optimize.minimize", minimize)
    pts = []
    def interp(I, s, x=0, index=0):
        q = {a: as_arr([v.ctx.fresh(a), v.ctx.fresh(a)]) for a in ("md", "inc_rad", "azi_grid_rad", "n", "e", "tvd", "x", "y", "z")}
        pts.append((x, index, q))
        return v.obj("welleng.survey.Survey", **q)
    v.contract("welleng.survey._interpolate_survey", interp)
    v.contract("welleng.survey._get_grid_header", lambda I, h_: h_)
    made = []
    def surv(I, *a, **k):
        made.append(k)
        return v.obj("welleng.survey.Survey", **k)
    v.contract("welleng.survey.Survey", surv)
    v.method(o, "_get_closest_points")
    per = 1 if here in (0, 2) else 2
    v.ensure("one search per interval at the nearest station", T.TRUE if len(runs) == 2 * per and len(pts) == 2 else T.FALSE)
    cl = v.get(o, "closest")
    k = made[0]
    for j in range(2):
        mine = runs[j * per:(j + 1) * per]
        want = {0: [0], 1: [T.isub(at, 1), at], 2: [T.isub(at, 1)]}[here]
        for (args, b, t, val), i in zip(mine, want):
            v.ensure("interval searched", T.land(T.TRUE if args[0] is off else T.FALSE, T.eq(args[1], i)))
            v.ensure("over its whole length", T.land(T.eq(b[0][0], 0), T.eq(b[0][1], sub(v.at(omd, T.iadd(i, 1)), v.at(omd, i)))))
            v.ensure("for this station", T.land(*[T.eq(args[2][c], Q[j][c]) for c in range(3)]))
        x, i, q = pts[j]
        best = [r for r in mine if v.same(r[0][1], i)]
        v.ensure("the point kept is one of those found", T.land(T.TRUE if len(best) == 1 else T.FALSE, T.eq(x, best[0][2])))
        for r in mine:
            v.ensure("and no other is nearer", T.le(best[0][3], r[3]))
        L = sub(v.at(omd, T.iadd(i, 1)), v.at(omd, i))
        for nm, a in (("md", "md"), ("inc", "inc_rad"), ("azi", "azi_grid_rad"), ("n", "n"), ("e", "e"), ("tvd", "tvd")):
            v.ensure("offset survey has the point's " + nm, T.eq(v.at(k[nm], j), v.at(q[a], 1)))
        fr = div(x, L)
        for a in range(3):
            for b_ in range(3):
                Cn = v.get(off, "cov_nev")
                v.ensure("covariance at the point %d%d" % (a, b_), T.eq(v.at(k["cov_nev"], j, 0, a, b_), add(mul(sub(1, fr), v.at(Cn, i, a, b_)), mul(fr, v.at(Cn, T.iadd(i, 1), a, b_)))))
        v.ensure("station kept with its point", T.land(*[T.eq(v.at(as_arr(cl[j][0]), c), Q[j][c]) for c in range(3)]))


SPECS = [Spec("point on the path/curved", lambda v: s_pos(v, False)), Spec("point on the path/straight", lambda v: s_pos(v, True)), Spec("distance", s_fun), Spec("vectors and bearings", s_vectors)]
SPECS += [Spec("closest points/" + w, lambda v, a=a: s_closest(v, a), bounded="two reference stations (the stations are treated one by one), any number of offset stations") for a, w in ((0, "first"), (1, "inner"), (2, "last"))]


# ---- executed against the real code
from .p19 import gen_wells, build


def ang(a, b):
    return abs((a - b + 180) % 360 - 180)


def check_geometry(c):
    import warnings
    import welleng as we
    from .p07 import ref_at, full_ref, snapshot, same_snapshot
    a, b = c["a"], c["b"]
    ref, off = build(c)
    s1, s2 = snapshot(ref), snapshot(off)
    kop = c.get("kop", 0)
    kw = dict(kop_depth=ref.md[kop]) if kop else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cl = we.clearance.IscwsaClearance(ref, off, minimize_sf=False, **kw)
    for s, sn, nm in ((ref, s1, "reference"), (off, s2, "offset")):
        r = same_snapshot(s, sn)
        if r:
            return "%s survey: %s" % (nm, r)
    n = len(ref.md) - kop
    fb = full_ref(b)
    on = np.column_stack([off.n, off.e, off.tvd])
    lines = np.asarray(cl.get_lines())
    if lines.shape != (2, n, 3):
        return "lines have shape %s" % (lines.shape,)
    shift = np.array(b["nev"])
    for j in range(n):
        k = j + kop
        p = np.array([ref.n[k], ref.e[k], ref.tvd[k]])
        q = np.array([cl.off.n[j], cl.off.e[j], cl.off.tvd[j]])
        m = float(cl.off.md[j])
        if not b["md"][0] - 1e-9 <= m <= b["md"][-1] + 1e-6:
            return "closest point at depth %r is outside the offset well" % m
        w, u, i = ref_at(b, m, fb)
        t = 1e-5 * (1 + np.abs(w).max() * 1e-3) + 1e-6
        if np.abs(w - q).max() > t:
            return "closest point of station %d is %g off the offset well's path" % (j, np.abs(w - q).max())
        cu = ref_tan(cl.off.inc_rad[j], cl.off.azi_grid_rad[j])
        if np.abs(cu - u).max() > 1e-5:
            return "direction at the closest point of station %d is not the path's" % j
        ds = np.linalg.norm(on - p, axis=1)
        near = int(np.argmin(ds))
        D = float(np.linalg.norm(q - p))
        if abs(cl.distance_cc[j] - D) > 1e-6 * (1 + D):
            return "distance of station %d is %r, its points are %r apart" % (j, float(cl.distance_cc[j]), D)
        if D > ds[near] + 1e-3:
            return "station %d: the nearest offset station is nearer (%g) than the closest point (%g)" % (j, ds[near], D)
        if sorted(ds)[1] - ds[near] > 1e-3:
            lo, hi = b["md"][max(near - 1, 0)], b["md"][min(near + 1, len(b["md"]) - 1)]
            if not lo - 1e-6 <= m <= hi + 1e-6:
                return "closest point of station %d is not next to the nearest offset station" % j
            for x in range(max(near - 1, 0), min(near + 1, len(b["md"]) - 1)):
                ms = np.linspace(b["md"][x], b["md"][x + 1], 60)
                P, tt = fb
                dd = [np.linalg.norm(ref_point(P[x], tt[x], tt[x + 1], b["md"][x + 1] - b["md"][x], z - b["md"][x])[0] * [b["gsf"], b["gsf"], 1] + shift - p) for z in ms]
                s = np.diff(dd)
                if (np.diff(np.sign(s[np.abs(s) > 1e-9])) < 0).any():
                    continue  # more than one local minimum
                if min(dd) < D - 2e-3 - 1e-6 * D:
                    return "station %d: the offset well comes within %g, the closest point is %g away" % (j, min(dd), D)
        if np.abs(lines[0, j] - p).max() > 1e-6 * (1 + np.abs(p).max()) or np.abs(lines[1, j] - q).max() > 1e-6 * (1 + np.abs(q).max()):
            return "line %d does not join the station and its closest point" % j
        if D < 1e-3:
            continue
        e = (q - p) / D
        if math.hypot(e[0], e[1]) > 1e-3:
            h = math.degrees(math.atan2(e[1], e[0])) % 360
            if not 0 <= cl.hoz_bearing_deg[j] < 360 or ang(cl.hoz_bearing_deg[j], h) > 1e-4:
                return "horizontal bearing of station %d is %r instead of %r" % (j, float(cl.hoz_bearing_deg[j]), h)
        I_, A_ = ref.inc_rad[k], ref.azi_grid_rad[k]
        H = np.array([math.cos(I_) * math.cos(A_), math.cos(I_) * math.sin(A_), -math.sin(I_)]) @ e
        R = np.array([-math.sin(A_), math.cos(A_), 0]) @ e
        if math.hypot(H, R) > 1e-3:
            tf = math.degrees(math.atan2(R, H)) % 360
            if not 0 <= cl.toolface_bearing_deg[j] < 360 or ang(cl.toolface_bearing_deg[j], tf) > 1e-4:
                return "toolface bearing of station %d is %r instead of %r" % (j, float(cl.toolface_bearing_deg[j]), tf)
            if ang(cl.trav_cyl_azi_deg[j], tf + ref.azi_grid_deg[k]) > 1e-4:
                return "travelling cylinder azimuth of station %d is %r instead of %r" % (j, float(cl.trav_cyl_azi_deg[j]), (tf + ref.azi_grid_deg[k]) % 360)


def gen_geometry(d):
    c = gen_wells(d)
    c["kop"] = d.int(1, len(c["a"]["md"]) - 1) if d.bool(.3) else 0
    if c["kop"] > len(c["a"]["md"]) - 2:
        c["kop"] = 0
    return c


def check_point(c):
    """the position-only interpolation agrees with the survey interpolation and the arc"""
    import welleng.survey as s_
    from .p07 import ref_at, full_ref
    from .p07 import full_survey
    s = full_survey(c["c"])
    k = c["k"] % (len(s.md) - 1)
    x = c["f"] * (s.md[k + 1] - s.md[k])
    got = np.asarray(s_._interpolate_pos_nev(s, x, k))
    P, t = full_ref(c["c"])
    g = [c["c"]["gsf"], c["c"]["gsf"], 1]
    p, _ = ref_point(P[k], t[k], t[k + 1], s.md[k + 1] - s.md[k], x)
    w = p * g + c["c"]["nev"]
    D = ref_angle(t[k], t[k + 1])
    tol = 1e-6 * (1 + np.abs(w).max()) + 1e-7 * x / max(math.sin(D), 1e-6) * (D > 2.9)
    if D < math.pi - .02 and np.abs(got - w).max() > tol + x * 3e-7:
        return "point at %r of interval %d is %g off the arc" % (x, k, np.abs(got - w).max())
    r = s_._interpolate_survey(s, x, k)
    if D < math.pi - .02 and np.abs(np.array([r.n[1], r.e[1], r.tvd[1]]) - got).max() > tol:
        return "the two interpolations differ by %g" % np.abs(np.array([r.n[1], r.e[1], r.tvd[1]]) - got).max()


def gen_point(d):
    from .p07 import gen_full
    return dict(c=gen_full(d), k=d.int(0, 9), f=d.choice([0.0, 1.0, d.real(0, 1)]))


DYN = [Dyn("geometry", gen_geometry, check_geometry, n=(140, 3000)), Dyn("point", gen_point, check_point, n=(600, 15000))]
