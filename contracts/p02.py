"""P02 station positions of a survey"""
from .common import *

FILES = ["welleng/survey.py", "welleng/utils.py"]
META = dict(
    title="Every station of a survey lies on the minimum-curvature path, in all frames",
    statement="For every listing of at least two stations, whatever the angle unit, azimuth reference, start position and grid scale factor: the survey's x, y, z (east, north, vertical) start at the start "
              "coordinates and advance by the minimum-curvature displacement of each interval, and n, e, tvd start at the start north/east/tvd and advance by the same displacement with north and east multiplied by the grid scale factor. "
              "The position matrices hold the same numbers as the separate coordinate columns, and the direction vectors are the unit tangents of the station's inclination and grid azimuth. "
              "If n, e and tvd are supplied they are kept as given and the path is anchored at the first of them.",
    over=["inputs", "configurations"], quantifier="all listings of two or more stations, all headers (reference, convergence, declination, scale factor, units) and start positions",
    why="The attributes are produced by separate code paths (with and without supplied coordinates, degrees or radians, four views of the same position); tests check single wells at zero offset and unit scale.",
    mechanism=[("construction", "welleng/survey.py:Survey.__init__"), ("positions", "welleng/survey.py:Survey._min_curve"), ("nev view", "welleng/survey.py:Survey.get_nev_arr"), ("path", "welleng/utils.py:MinCurve")],
    observe_at="Survey.x/y/z, Survey.n/e/tvd, pos_nev, pos_xyz, vec_nev, vec_xyz")
S_ = "welleng.survey."
U = "welleng.utils."


def s_survey(v, deg=False, given=False):
    n = v.int("n", lo=2)
    nev0 = [v.real("s" + c) for c in "nev"]
    xyz0 = [v.real("s" + c) for c in "xyz"]
    n, md, inc, azi, h, s = survey(v, n, deg=deg, start_nev=arr3(v, nev0), start_xyz=arr3(v, xyz0))
    g = v.get(h, "grid_scale_factor")
    N = [v.get(s, c) for c in ("n", "e", "tvd")]
    X = [v.get(s, c) for c in "xyz"]
    PN, PX, VN, VX = [v.get(s, c) for c in ("pos_nev", "pos_xyz", "vec_nev", "vec_xyz")]
    r = lambda t: t
    j = v.idx(n)
    for c in range(3):
        v.ensure("starts at start_nev " + "NEV"[c], T.eq(v.at(N[c], 0), nev0[c]))
        v.ensure("starts at start_xyz " + "xyz"[c], T.eq(v.at(X[c], 0), xyz0[c]))
        v.ensure("pos_nev is (n, e, tvd) " + "NEV"[c], T.eq(v.at(PN, j, c), v.at(N[c], j)))
        v.ensure("pos_xyz is (x, y, z) " + "xyz"[c], T.eq(v.at(PX, j, c), v.at(X[c], j)))
    tj = tangent(r(v.at(inc, j)), r(v.at(azi, j)))
    for c, d in ((0, 1), (1, 0), (2, 2)):
        v.ensure("vec_nev is the tangent " + "NEV"[c], T.eq(v.at(VN, j, c), tj[c]))
        v.ensure("vec_xyz is the tangent " + "NEV"[c], T.eq(v.at(VX, j, d), tj[c]))
        sc = g if c < 2 else 1
        v.ensure("grid and local coordinates agree " + "NEV"[c],
                 T.eq(sub(v.at(N[c], j), nev0[c]), mul(sc, sub(v.at(X[d], j), xyz0[d]))))
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    rf = v.at(v.get(s, "rf"), k1)
    dl = v.at(v.get(s, "dogleg"), k1)
    a = [r(v.at(x, q)) for q in (k, k1) for x in (inc, azi)]
    t1, t2 = tangent(*a[:2]), tangent(*a[2:])
    dm = sub(v.at(md, k1), v.at(md, k))
    for c, d in ((0, 1), (1, 0), (2, 2)):
        v.ensure("each station adds its interval " + "NEV"[c],
                 T.eq(sub(v.at(X[d], k1), v.at(X[d], k)), M(dm, rf, 0.5, add(t1[c], t2[c]))))
    v.ensure("interval dogleg", T.eq(dl, v.call(U + "get_dogleg", *a)))
    v.ensure("interval ratio factor", T.eq(rf, v.call(U + "get_rf", dl)))
    v.ensure("interval length", T.eq(v.at(v.get(s, "delta_md"), k1), dm))
    arr = v.method(s, "get_nev_arr")
    for c in range(3):
        v.ensure("get_nev_arr " + "NEV"[c], T.eq(v.at(arr, j, c), v.at(N[c], j)))


def s_given(v):
    """supplied n, e, tvd are kept and anchor the path"""
    n = v.int("n", lo=2)
    N0 = [v.arr(c + "0", n) for c in ("n", "e", "tvd")]
    n, md, inc, azi, h, s = survey(v, n, n=N0[0], e=N0[1], tvd=N0[2]) if False else _given(v, n, N0)
    j = v.idx(n)
    for c, nm in enumerate(("n", "e", "tvd")):
        v.ensure("supplied %s kept" % nm, T.eq(v.at(v.get(s, nm), j), v.at(N0[c], j)))
        v.ensure("path anchored at supplied %s" % nm, T.eq(v.at(v.get(s, "pos_nev"), 0, c), v.at(N0[c], 0)))
        v.ensure("start_nev is supplied %s" % nm, T.eq(v.at(v.get(s, "start_nev"), c), v.at(N0[c], 0)))


def _given(v, n, N0):
    md, inc, azi = [v.arr(x, n) for x in ("md", "inc", "azi")]
    h = header(v)
    s = v.call(S_ + "Survey", md, inc, azi, header=h, deg=False, n=N0[0], e=N0[1], tvd=N0[2])
    return n, md, inc, azi, h, s


def replay(env, tab):
    md, inc, azi = [0.0, 30.0, 75.0], [0.2, 0.5, 0.9], [0.1, 0.4, 1.9]
    for (n, ix), val in tab.items():
        if n in ("inc", "azi") and ix and 0 <= ix[0] < 3:
            (inc if n == "inc" else azi)[ix[0]] = val
    return [("positions", {"md": md, "inc": [math.degrees(x % math.pi) for x in inc], "azi": [math.degrees(x % (2 * math.pi)) for x in azi],
                           "gsf": env.get("gsf", 1.0), "nev": [env.get("sn", 0), env.get("se", 0), env.get("sv", 0)],
                           "xyz": [env.get("sx", 0), env.get("sy", 0), env.get("sz", 0)], "unit": "meters", "deg": True})]


SPECS = [Spec("Survey", s_survey, replay=replay), Spec("Survey/degrees", lambda v: s_survey(v, True), replay=replay), Spec("Survey/given", s_given)]


def g_pos(d):
    c = gen_stations(d, maxdl=3.0, hi=9)
    c["gsf"] = d.real(0.5, 1.5, (1.0, 0.9996)) if d.bool(.4) else 1.0
    c["nev"] = [d.real(-5000, 5000) for _ in range(3)] if d.bool(.5) else [0.0, 0.0, 0.0]
    c["xyz"] = [d.real(-5000, 5000) for _ in range(3)] if d.bool(.5) else [0.0, 0.0, 0.0]
    c["unit"] = d.choice(["meters", "meters", "feet"])
    c["deg"] = d.bool(.7)
    c["ref"] = d.choice(["grid", "true", "magnetic"])
    c["conv"], c["decl"] = d.real(-10, 10), d.real(-30, 30)
    return c


def c_pos(c):
    import welleng as we
    h = we.survey.SurveyHeader(azi_reference=c.get("ref", "grid"), grid_scale_factor=c["gsf"], depth_unit=c["unit"],
                               convergence=c.get("conv", 0), declination=c.get("decl", 0), b_total=50000, dip=70)
    k = 1 if c["deg"] else math.pi / 180
    azi = np.array(c["azi"])
    ref = azi - {"grid": 0, "true": c.get("conv", 0), "magnetic": c.get("conv", 0) - c.get("decl", 0)}[c.get("ref", "grid")]
    s = we.survey.Survey(md=c["md"], inc=np.array(c["inc"]) * k, azi=azi * k, header=h, unit=c["unit"], deg=c["deg"], start_nev=c["nev"], start_xyz=c["xyz"])
    ri, ra = np.radians(c["inc"]), np.radians(ref)
    P = ref_path(c["md"], ri, ra)
    sc = 1 + np.abs(P).max() + max(abs(x) for x in c["nev"] + c["xyz"])
    tol = dict(rtol=1e-8, atol=1e-8 * sc)
    nev = P * [c["gsf"], c["gsf"], 1] + c["nev"]
    xyz = P[:, [1, 0, 2]] + c["xyz"]
    for nm, got, e in (("n,e,tvd", np.array([s.n, s.e, s.tvd]).T, nev), ("pos_nev", s.pos_nev, nev), ("x,y,z", np.array([s.x, s.y, s.z]).T, xyz),
                       ("pos_xyz", s.pos_xyz, xyz), ("get_nev_arr", s.get_nev_arr(), nev)):
        if not close(got, e, **tol):
            return "%s: %s" % (nm, worst(got, e))
    t = np.array([ref_tan(i, a) for i, a in zip(ri, ra)])
    if not close(s.vec_nev, t, 1e-9, 1e-9) or not close(s.vec_xyz, t[:, [1, 0, 2]], 1e-9, 1e-9):
        return "tangent vectors: %s" % worst(s.vec_nev, t)
    if not close(s.md, c["md"]):
        return "measured depths changed"
    # a survey rebuilt from its own n, e, tvd keeps them
    s2 = we.survey.Survey(md=c["md"], inc=np.array(c["inc"]) * k, azi=azi * k, header=h, unit=c["unit"], deg=c["deg"], n=s.n, e=s.e, tvd=s.tvd)
    if not close(np.array([s2.n, s2.e, s2.tvd]).T, nev, **tol) or not close(s2.pos_nev, nev, **tol):
        return "rebuilt from n, e, tvd: %s" % worst(s2.pos_nev, nev)
    return None


DYN = [Dyn("positions", g_pos, c_pos, n=(2000, 30000))]
