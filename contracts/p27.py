"""P27 nodes and headers"""
from .common import *
from pyvc.arrays import PyRaise, as_arr

FILES = ["welleng/node.py", "welleng/survey.py", "welleng/utils.py"]
N_ = "welleng.node."
S_ = "welleng.survey."
U = "welleng.utils."
META = dict(
    title="A node is one point in both frames; a header keeps what it is given",
    statement="A Node holds the position and the unit direction it was made with, in north-east-vertical and in x-y-z, whichever of the two it was given in and whether the direction was given as a vector of any length or as inclination and azimuth in degrees or radians; its inclination and azimuth, in degrees and radians, are those of the direction; a node given no position or no direction has none; md, unit, covariance (zero if not given) and further attributes are kept. "
              "get_node gives the node of a survey station, with its covariance. "
              "A SurveyHeader keeps the date, place, field values and scale factor it is given, also when the magnetic field service cannot be reached, uses the defaults given for those that are missing, and refuses latitudes, longitudes, dates and azimuth references that are none; make_survey_header sets what it is given.",
    over=["inputs", "configurations", "fault_sequences"], quantifier="all positions, directions, covariances and header values, the service reachable or not",
    why="Nodes are made in five ways and headers with a dozen optional values; tests make a few of each, and the service is always unreachable or always reachable where they run.",
    mechanism=[("direction", "welleng/node.py:Node.check_angle_inputs"), ("position", "welleng/node.py:Node.get_pos"), ("station", "welleng/survey.py:get_node"), ("header", "welleng/survey.py:SurveyHeader.__init__"), ("field values", "welleng/survey.py:SurveyHeader._get_mag_data")],
    observe_at="Node and SurveyHeader attributes")


def use_angles(v):
    rec = []

    def ga(I, x, nev=False):
        a = [v.ctx.fresh("inc"), v.ctx.fresh("azi")]
        rec.append((x, nev, a))
        return as_arr([a])
    v.contract(U + "get_angles", ga)
    return rec


def flat3(v, x):
    return [x[c] if isinstance(x, (list, tuple)) else v.at(x, c) if len(x.shape) == 1 else v.at(x, 0, c) for c in range(3)]


def s_node(v, how, nev, deg):
    rec = use_angles(v)
    p, w = vec3(v, "p"), vec3(v, "w")
    cov = v.arr("cov", 1, 3, 3) if how != "none" else None
    md = v.real("md")
    kw = dict(pos=p, md=md, unit="feet", nev=nev, degrees=deg, cov_nev=cov, tag="x")
    if how == "vec":
        v.assume(T.lt(0, add(mul(w[0], w[0]), add(mul(w[1], w[1]), mul(w[2], w[2])))))
        kw["vec"] = w
    elif how == "angles":
        i, a = v.real("i"), v.real("a")
        kw.update(inc=i, azi=a)
    o = v.call(N_ + "Node", **kw)
    pn, px = [list(v.get(o, "pos_" + q)) for q in ("nev", "xyz")]
    want = p if nev else [p[1], p[0], p[2]]
    swap = lambda x: [x[1], x[0], x[2]]
    v.ensure("position", T.land(*[T.eq(pn[c], want[c]) for c in range(3)]))
    v.ensure("position in the other frame", T.land(*[T.eq(px[c], swap(want)[c]) for c in range(3)]))
    v.ensure("md, unit and attributes", T.land(T.eq(v.get(o, "md"), md), T.TRUE if v.get(o, "unit") == "feet" and v.get(o, "tag") == "x" else T.FALSE))
    c = v.get(o, "cov_nev")
    for i in range(3):
        for j in range(3):
            v.ensure("covariance %d%d" % (i, j), T.eq(v.at(c, 0, i, j), v.at(cov, 0, i, j) if cov is not None else T.const(0)))
    vn, vx = v.get(o, "vec_nev"), v.get(o, "vec_xyz")
    if how == "none":
        v.ensure("no direction", T.TRUE if all(v.get(o, q) is None for q in ("vec_nev", "vec_xyz", "inc_rad", "inc_deg", "azi_rad", "azi_deg")) else T.FALSE)
        return
    if how == "vec":
        wn = w if nev else swap(w)
        L = T.sqrt(add(mul(w[0], w[0]), add(mul(w[1], w[1]), mul(w[2], w[2]))))
        t = [div(x, L) for x in wn]
    else:
        ir, ar = (mul(i_, div(T.PI, 180)) if deg else i_ for i_ in (kw["inc"], kw["azi"]))
        t = tangent(ir, ar)
    for q in range(3):
        v.ensure("direction %d" % q, T.eq(vn[q], t[q]))
        v.ensure("direction in the other frame %d" % q, T.eq(vx[q], swap(t)[q]))
    x, nv, a = rec[-1]
    x = flat3(v, x)
    seen = x if nv else swap(x)
    v.ensure("the angles are those of the direction", T.land(T.eq(v.get(o, "inc_rad"), a[0]), T.eq(v.get(o, "azi_rad"), a[1]), *[T.eq(seen[q], t[q]) for q in range(3)]))
    for q in ("inc", "azi"):
        v.ensure(q + " in degrees", T.eq(mul(v.get(o, q + "_deg"), T.PI), mul(v.get(o, q + "_rad"), 180)))


def s_nowhere(v, nev):
    """a node without a position has none in either frame"""
    use_angles(v)
    o = v.call(N_ + "Node", inc=v.real("i"), azi=v.real("a"), md=v.real("md"), nev=nev)
    v.ensure("no position", T.TRUE if v.get(o, "pos_nev") is None and v.get(o, "pos_xyz") is None else T.FALSE)


def s_half(v):
    use_angles(v)
    for kw in (dict(inc=1.0), dict(azi=1.0)):
        v.ensure("half a direction is refused: %s" % list(kw), T.TRUE if v.raises(v.fn(N_ + "Node"), pos=[0., 0., 0.], **kw) else T.FALSE)


def s_get(v, cov):
    n = v.int("n", lo=1)
    k = v.idx(n)
    A = {q: v.arr(q, n) for q in ("n_", "e_", "tvd", "md")}
    V = v.arr("vec", n, 3)
    C = v.arr("cov", n, 3, 3) if cov else None
    s = v.obj(S_ + "Survey", n=A["n_"], e=A["e_"], tvd=A["tvd"], md=A["md"], vec_nev=V, cov_nev=C, unit="feet")
    made = []
    v.contract(N_ + "Node", lambda I, **kw: made.append(kw) or v.obj(N_ + "Node", **kw))
    r = v.call(S_ + "get_node", s, k, True)
    kw = made[0]
    v.ensure("position", T.land(*[T.eq(kw["pos"][c], v.at(A[q], k)) for c, q in enumerate(("n_", "e_", "tvd"))]))
    v.ensure("direction", T.land(*[T.eq(flat3(v, kw["vec"])[c], v.at(V, k, c)) for c in range(3)]))
    v.ensure("depth, unit and flag", T.land(T.eq(kw["md"], v.at(A["md"], k)), T.TRUE if kw["unit"] == "feet" and kw.get("nev", True) is True and kw["interpolated"] is True else T.FALSE))
    if cov:
        for i in range(3):
            for j in range(3):
                v.ensure("covariance %d%d" % (i, j), T.eq(v.at(kw["cov_nev"], 0, i, j), v.at(C, k, i, j)))
    else:
        v.ensure("no covariance", T.TRUE if kw["cov_nev"] is None else T.FALSE)


def s_params(v):
    p, w, md = vec3(v, "p"), vec3(v, "w"), v.real("md")
    r = v.call(N_ + "get_node_params", v.obj(N_ + "Node", pos_nev=p, vec_nev=w, md=md))
    v.ensure("position, direction and depth", T.TRUE if r[0] is p and r[1] is w and r[2] is md else T.FALSE)


def service(v, reachable):
    from pyvc.interp import Model
    calls = []

    class Calculator:
        def _go(I, *a, **k):
            calls.append(k)
            if not reachable:
                raise PyRaise(ValueError, ("service not reachable",))
            return {"field-value": {"total-intensity": {"value": ans[0]}, "inclination": {"value": ans[1]}, "declination": {"value": ans[2]}}}
        calculate = Model(_go, "calculate")
    ans = [v.real("f%d" % i) for i in range(3)]
    v.external(S_ + "MagneticFieldCalculator", lambda I, *a, **k: Calculator())
    return calls, ans


FIELD = ("b_total", "dip", "declination")


def s_header(v, reachable, given, deg):
    calls, ans = service(v, reachable)
    kw = {x: v.real(x) for x in ("altitude", "G", "earth_rate", "grid_scale_factor")}
    kw["latitude"], kw["longitude"] = v.real("latitude", lo=-90, hi=90), v.real("longitude", lo=-180, hi=180)
    d = {x: v.real("default_" + x) for x in FIELD}
    got = {x: v.real(x) for x in FIELD} if given else {}
    h = v.call(S_ + "SurveyHeader", name="w", survey_date="2019-02-28", deg=deg, mag_defaults=dict(d), **kw, **got)
    for x in kw:
        v.ensure("keeps " + x, T.eq(v.get(h, x), kw[x]))
    v.ensure("keeps the name and date", T.TRUE if v.get(h, "name") == "w" and v.get(h, "survey_date") == "2019-02-28" else T.FALSE)
    for i, x in enumerate(FIELD):
        w = got[x] if given else ans[i] if reachable else d[x]
        if x == "dip" and not given:
            w = neg(w)
        conv = x != "b_total" and (deg or not given)
        v.ensure(x, T.eq(mul(v.get(h, x), 180), mul(w, T.PI)) if conv else T.eq(v.get(h, x), w))
    c = calls[0]
    v.ensure("asks for its own place", T.land(*[T.eq(c[x], kw[x]) for x in ("latitude", "longitude", "altitude")]))
    v.ensure("and date", T.TRUE if c["date"] == "2019-02-28" else T.FALSE)


def s_refuse(v):
    service(v, False)
    f = v.fn(S_ + "SurveyHeader")
    x = v.real("x")
    v.assume(T.lt(90, x))
    y = v.real("y")
    v.assume(T.lt(180, y))
    ok = dict(survey_date="2019-02-28")
    for nm, kw in (("north of the pole", dict(latitude=x)), ("south of the pole", dict(latitude=neg(x))), ("east", dict(longitude=y)), ("west", dict(longitude=neg(y))), ("reference", dict(azi_reference="north")),
                   ("date", dict(survey_date="28-02-2019"))):
        v.ensure("refused: " + nm, T.TRUE if v.raises(f, **{**ok, **kw}) else T.FALSE)


def s_make(v):
    service(v, False)
    a, b = v.real("a"), v.real("b")
    h = v.call(S_ + "make_survey_header", {"latitude": a, "dip": b, "azi_reference": "grid", "name": "n"})
    v.ensure("values set", T.land(T.eq(v.get(h, "latitude"), a), T.eq(v.get(h, "dip"), b), T.TRUE if v.get(h, "azi_reference") == "grid" and v.get(h, "name") == "n" else T.FALSE))


SPECS = [Spec("node/%s/%s/%s" % (h, "nev" if nv else "xyz", "deg" if d else "rad"), lambda v, h=h, nv=nv, d=d: s_node(v, h, nv, d)) for h in ("vec", "angles", "none") for nv in (True, False) for d in ((True, False) if h == "angles" else (True,))]
SPECS += [Spec("no position/%s" % ("nev" if nv else "xyz"), lambda v, nv=nv: s_nowhere(v, nv)) for nv in (True, False)]
SPECS += [Spec("half a direction", s_half), Spec("get_node/cov", lambda v: s_get(v, True)), Spec("get_node/bare", lambda v: s_get(v, False)), Spec("get_node_params", s_params)]
SPECS += [Spec("header/%s/%s/%s" % ("service" if r else "no service", "given" if gv else "missing", "deg" if d else "rad"), lambda v, r=r, gv=gv, d=d: s_header(v, r, gv, d)) for r in (True, False) for gv in (True, False) for d in (True, False)]
SPECS += [Spec("header/refused", s_refuse), Spec("make_survey_header", s_make)]


# ------------------------------------------------------------------ dynamic
def g(d):
    c = dict(pos=[d.real(-1e4, 1e4) for _ in range(3)], inc=d.real(0, 180, (0.0, 90.0, 180.0)), azi=d.real(0, 360, (0.0, 90.0, 270.0)), scale=d.choice([1.0, d.real(.01, 100)]), nev=d.bool(), deg=d.bool(), how=d.choice(["vec", "angles", "none"]), nowhere=d.bool(.1),
             md=d.choice([None, d.real(0, 1e4)]), cov=d.bool(), lat=d.choice([None, d.real(-90, 90), 0.0, 90.0, -90.0]), lon=d.choice([None, d.real(-180, 180), 0.0]), alt=d.choice([None, d.real(-10, 500)]),
             date=d.choice([None, "2019-02-28", "1999-12-31"]), f=[d.choice([None, d.real(20, 60)]), d.choice([None, 0.0, d.real(-80, 80)]), d.choice([None, 0.0, d.real(-30, 30)])], hdeg=d.bool(), own=d.bool(),
             reach=d.choice([True, False, "old"]), bad=d.choice([None, None, None, "lat", "lon", "ref", "date"]), as_array=d.bool())
    return c


def ck(c):
    import welleng as we
    from welleng import survey as S
    i, a = math.radians(c["inc"]), math.radians(c["azi"])
    t = np.array([math.sin(i) * math.cos(a), math.sin(i) * math.sin(a), math.cos(i)])
    p = np.array(c["pos"])
    sw = lambda q: np.array([q[1], q[0], q[2]])
    kw = {}
    wrap = (lambda q: np.array(q)) if c["as_array"] else (lambda q: list(map(float, q)))
    if c["how"] == "vec":
        kw["vec"] = wrap((t if c["nev"] else sw(t)) * c["scale"])
    elif c["how"] == "angles":
        kw.update(inc=c["inc"] if c["deg"] else i, azi=c["azi"] if c["deg"] else a)
    cov = np.arange(9.0).reshape(1, 3, 3) if c["cov"] else None
    n = we.node.Node(pos=wrap(p), md=c["md"], unit="feet", degrees=c["deg"], nev=c["nev"], cov_nev=cov, extra=5, **kw)
    want = p if c["nev"] else sw(p)
    if list(n.pos_nev) != list(want) or list(n.pos_xyz) != list(sw(want)):
        return "position %r, %r for %r" % (n.pos_nev, n.pos_xyz, list(want))
    if n.md != c["md"] or n.unit != "feet" or n.extra != 5 or not np.array_equal(n.cov_nev, np.zeros((1, 3, 3)) if cov is None else cov):
        return "md, unit, attributes or covariance not kept"
    if c["how"] == "none":
        if any(getattr(n, k) is not None for k in ("vec_nev", "vec_xyz", "inc_rad", "azi_rad", "inc_deg", "azi_deg")):
            return "a direction out of nowhere"
    else:
        if not np.allclose(n.vec_nev, t, atol=1e-12) or not np.allclose(n.vec_xyz, sw(t), atol=1e-12):
            return "direction %r for %r" % (n.vec_nev, list(t))
        if abs(n.inc_rad - i) > 2e-8 or abs(n.inc_deg - math.degrees(n.inc_rad)) > 1e-9 or abs(n.azi_deg - math.degrees(n.azi_rad)) > 1e-9:
            return "inclination %r (%r deg) for %r" % (n.inc_rad, n.inc_deg, i)
        if math.sin(i) > 1e-6 and abs(math.remainder(n.azi_rad - a, 2 * math.pi)) > 1e-8:
            return "azimuth %r for %r" % (n.azi_rad, a)
    if c["nowhere"]:
        n = we.node.Node(md=c["md"], nev=c["nev"], degrees=c["deg"], **kw)
        if n.pos_nev is not None or n.pos_xyz is not None:
            return "a position out of nowhere: %r, %r" % (n.pos_nev, n.pos_xyz)
    # header
    class Calc:
        def __init__(self, *q, **k): pass

        def calculate(self, latitude=None, longitude=None, altitude=None, date=None, **k):
            if c["reach"] is False or (c["reach"] == "old" and date == c["date"]):
                raise ValueError("unreachable")
            return {"field-value": {"total-intensity": {"value": 48000.0 + latitude}, "inclination": {"value": 66.0}, "declination": {"value": 2.5}}}
    keep = S.MagneticFieldCalculator if S.MAG_CALC else None
    S.MagneticFieldCalculator = Calc
    mc, S.MAG_CALC = S.MAG_CALC, True
    try:
        kw = dict(latitude=c["lat"], longitude=c["lon"], altitude=c["alt"], survey_date=c["date"], deg=c["hdeg"], grid_scale_factor=.9996)
        if c["f"][0] is not None:
            kw["b_total"] = c["f"][0] * 1000
        for k, x in (("dip", c["f"][1]), ("declination", c["f"][2])):
            if x is not None:
                kw[k] = x if c["hdeg"] else math.radians(x)
        if c["own"]:
            kw["mag_defaults"] = dict(b_total=40000.0, dip=50.0, declination=-3.0)
        if c["bad"]:
            kw.update({"lat": dict(latitude=90.5 + abs(c["f"][0] or 0)), "lon": dict(longitude=-180.5), "ref": dict(azi_reference="north"), "date": dict(survey_date="28/02/2019")}[c["bad"]])
            try:
                S.SurveyHeader(**kw)
            except (AssertionError, ValueError):
                return None
            return "a header with a bad %s was accepted" % c["bad"]
        h = S.SurveyHeader(**kw)
    finally:
        S.MAG_CALC = mc
        if keep is not None:
            S.MagneticFieldCalculator = keep
    if c["date"] and h.survey_date != c["date"]:
        return "survey date %r became %r" % (c["date"], h.survey_date)
    if h.latitude != (51.4934 if c["lat"] is None else c["lat"]) or h.longitude != (0.0098 if c["lon"] is None else c["lon"]) or h.altitude != (0. if c["alt"] is None else c["alt"]) or h.grid_scale_factor != .9996:
        return "place or scale factor not kept: %r" % vars(h)
    ok = c["reach"] is True or (c["reach"] == "old" and c["date"])
    base = dict(b_total=48000.0 + h.latitude, dip=-66.0, declination=2.5) if ok else dict(b_total=40000.0, dip=-50.0, declination=-3.0) if c["own"] else dict(b_total=50000.0, dip=-70.0, declination=0.0)
    if not (c["reach"] == "old" and not c["date"]):
        for k, x in zip(FIELD, c["f"]):
            w = base[k] if x is None else x * (1000 if k == "b_total" else 1)
            w = w if k == "b_total" else math.radians(w)
            if abs(getattr(h, k) - w) > 1e-9 * (1 + abs(w)):
                return "%s is %r, expected %r" % (k, getattr(h, k), w)
    return None


def g2(d):
    from .p07 import gen_full
    return dict(full=gen_full(d, hi=5), cov=d.bool(), k=d.int(0, 4))


def ck2(c):
    from .p07 import full_survey
    import welleng as we
    s = full_survey(c["full"])
    k = c["k"] % len(s.md)
    if c["cov"]:
        s.cov_nev = np.arange(9.0 * len(s.md)).reshape(-1, 3, 3)
    n = we.survey.get_node(s, k, interpolated=c["cov"])
    if not np.array_equal(n.pos_nev, s.pos_nev[k]) or not np.array_equal(n.pos_xyz, [s.pos_nev[k][1], s.pos_nev[k][0], s.pos_nev[k][2]]) or n.md != s.md[k] or n.unit != s.unit or not np.allclose(n.vec_nev, s.vec_nev[k], atol=1e-12) or bool(n.interpolated) != c["cov"]:
        return "node of station %d: %r" % (k, vars(n))
    want = s.cov_nev[k] if s.cov_nev is not None else np.zeros((3, 3))
    if np.shape(n.cov_nev) != (1, 3, 3) or not np.array_equal(n.cov_nev[0], want):
        return "covariance of station %d: %r" % (k, n.cov_nev)
    p, w, md = we.node.get_node_params(n)
    if list(p) != list(n.pos_nev) or list(w) != list(n.vec_nev) or md != n.md:
        return "get_node_params gave %r" % ((p, w, md),)
    return None


DYN = [Dyn("nodes and headers", g, ck, n=(1500, 30000)), Dyn("stations", g2, ck2, n=(200, 4000))]
