"""P26 control points and well plan files"""
from .common import *
from pyvc.arrays import as_arr

FILES = ["welleng/survey.py", "welleng/exchange/wbp.py", "welleng/exchange/csv.py"]
S_ = "welleng.survey."
W_ = "welleng.exchange.wbp."
META = dict(
    title="Control points are the survey's stations; plans survive a wbp file",
    statement="The control points of a survey (get_sections, listed by export_csv without the repeated first) are stations of it in order, from the first to the last, each with that station's depth, inclination, grid azimuth and location (east, north, minus vertical depth). There is one wherever the normals of successive intervals differ by more than the tolerances or, if asked for, their dogleg severities differ. "
              "A control point that ends a hold has no severity, rates or toolface; one that ends a curve has its own severity, the build and turn rates from the control point before (per 30 m or 100 ft, turning the short way through north) and that one's toolface, signed to the side the azimuth turns. "
              "Well plans exported to a wbp file and loaded again have the names, type, method, units, design severity, targets and control points they had, to the decimals printed; wbp_to_survey gives a survey in metres through those locations to the last depth, without its repeated stations, its header at the geographic place of the first location in the UTM zone given.",
    over=["inputs", "histories"], quantifier="all surveys and tolerances, all plans that fit the columns of the format, any number of plans in a file",
    why="No test touches the wbp module; the csv test compares one well.",
    mechanism=[("control points", "welleng/survey.py:get_sections"), ("listing", "welleng/survey.py:get_data"), ("writing", "welleng/exchange/wbp.py:export"), ("reading", "welleng/exchange/wbp.py:WellPlan._process_wbp_data"), ("to a survey", "welleng/exchange/wbp.py:wbp_to_survey"), ("duplicates", "welleng/exchange/wbp.py:strip_duplicates")],
    observe_at="get_sections(), export_csv(), WellPlan.steps, wbp_to_survey()")


def svy(v, n, unit="meters"):
    A = {k: v.arr(k, n) for k in ("md", "inc_deg", "azi_grid_deg", "e", "n", "tvd", "dls", "dogleg", "toolface")}
    for i in range(n - 1):
        v.assume(T.lt(v.at(A["md"], i), v.at(A["md"], i + 1)))
    N = v.arr("normals", n - 1, 3)
    return v.obj(S_ + "Survey", unit=unit, normals=N, **A), A, N


def close_model(v, N, m, rtol, atol, rec):
    """which successive intervals have the same normal: all cases, one at a time"""
    def isclose(I, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        rec.append((a, b, rtol, atol))
        return as_arr([[bool(x)] * 3 for x in m], kind="b") if False else bools([[bool(x)] * 3 for x in m])
    v.external("numpy.isclose", isclose)


def bools(rows):
    return np.array(rows)


def s_where(v, n, m, cont):
    """which stations are control points"""
    s, A, N = svy(v, n)
    for i in range(n):
        v.assume(T.eq(v.at(A["dogleg"], i), 0))
    rec = []
    rt, at = v.real("rtol", lo=0), v.real("atol", lo=0)
    close_model(v, N, m, rt, at, rec)
    r = v.call(S_ + "get_sections", s, rt, at)
    want = [0, 0] + [i + 1 for i, x in enumerate(m) if not x] + [n - 1]
    if v.ensure("number of control points", T.TRUE if len(r) == len(want) else T.FALSE) is False:
        return
    a, b, x, y = rec[0]
    v.ensure("normals of successive intervals compared", T.land(T.eq(x, rt), T.eq(y, at), *[T.land(T.eq(v.at(a, i, c), v.at(N, i, c)), T.eq(v.at(b, i, c), v.at(N, i + 1, c))) for i in range(n - 2) for c in range(3)]))
    for p, k in zip(r, want):
        loc = v.get(p, "location")
        v.ensure("a station", T.land(T.eq(v.get(p, "md"), v.at(A["md"], k)), T.eq(v.get(p, "inc"), v.at(A["inc_deg"], k)), T.eq(v.get(p, "azi"), v.at(A["azi_grid_deg"], k)),
                                    T.eq(loc[0], v.at(A["e"], k)), T.eq(loc[1], v.at(A["n"], k)), T.eq(loc[2], neg(v.at(A["tvd"], k)))))
        v.ensure("holds have no curvature", T.land(*[T.eq(v.get(p, q), 0) for q in ("dls", "toolface", "build_rate", "turn_rate")]))


def s_curve(v, unit, turn):
    """the numbers of a control point that ends a curve, after two intervals"""
    n = 3
    s, A, N = svy(v, n, unit)
    den = 30 if unit == "meters" else 100
    rec = []
    close_model(v, N, [False], None, None, rec)
    v.assume(T.ne(v.at(A["dogleg"], 1), 0), T.ne(v.at(A["dogleg"], 2), 0))
    az = [v.at(A["azi_grid_deg"], k) for k in range(3)]
    for x in az:
        v.assume(T.le(0, x), T.lt(x, 360))
    v.assume(T.lt(az[0], az[1]), T.lt(sub(az[1], az[0]), 180))
    d = sub(az[2], az[1])
    if turn == "right":
        v.assume(T.lt(0, d), T.lt(d, 180))
    elif turn == "left":
        v.assume(T.lt(d, 0), T.lt(-180, d))
    elif turn == "right through north":
        v.assume(T.lt(d, -180))
    elif turn == "left through north":
        v.assume(T.lt(180, d))
    r = v.call(S_ + "get_sections", s)
    v.ensure("number of control points", T.TRUE if len(r) == 4 else T.FALSE)
    for j, (p, k) in enumerate(zip(r[2:], (1, 2))):
        dm = sub(v.at(A["md"], k), v.at(A["md"], k - 1))
        da = sub(az[k], az[k - 1])
        side = 1
        if k == 2 and turn.endswith("north"):
            da = add(da, 360 if turn.startswith("right") else -360)
        if k == 2 and turn.startswith("left"):
            side = -1
        v.ensure("severity %d" % k, T.eq(v.get(p, "dls"), v.at(A["dls"], k)))
        v.ensure("turn rate %d" % k, T.eq(mul(v.get(p, "turn_rate"), dm), mul(da, den)))
        v.ensure("build rate %d" % k, T.eq(mul(v.get(p, "build_rate"), dm), mul(T.absv(sub(v.at(A["inc_deg"], k), v.at(A["inc_deg"], k - 1))), den)))
        v.ensure("toolface %d" % k, T.eq(mul(v.get(p, "toolface"), T.PI), mul(mul(180, side), T.absv(v.at(A["toolface"], k - 1)))))


def s_data(v):
    pts = []
    for i in range(4):
        pts.append({q: v.real("%s%d" % (q, i)) for q in ("md", "inc", "azi", "dls", "toolface", "build_rate", "turn_rate")})
        pts[-1]["location"] = vec3(v, "l%d" % i)
    tol = v.real("tol")
    rec = []

    def sec(I, *a, **k):
        rec.append((a, k))
        return [v.obj(S_ + "TurnPoint", **p) for p in pts]
    v.contract(S_ + "get_sections", sec)
    s = v.obj(S_ + "Survey")
    r = v.call(S_ + "get_data", tol, s, True)
    for i, p in enumerate(pts[1:]):
        want = [p["md"], p["inc"], p["azi"], p["location"][1], p["location"][0], p["location"][2], p["dls"], p["toolface"], p["build_rate"], p["turn_rate"]]
        v.ensure("row %d" % i, T.land(*[T.eq(v.at(r, i, c), w) for c, w in enumerate(want)]))
    v.ensure("rows", T.TRUE if r.shape == (3, 10) else T.FALSE)
    a, k = rec[0]
    got = dict(zip(("survey", "rtol", "atol", "dls_cont"), a), **k)
    v.ensure("of that survey with that tolerance", T.land(T.TRUE if got["survey"] is s and got["dls_cont"] is True else T.FALSE, T.eq(got["rtol"], tol), T.eq(got["atol"], tol)))


def s_strip(v):
    """successive stations that are the same are dropped, all others are kept"""
    n = 3
    A = {k: v.arr(k, n) for k in ("md", "inc_rad", "azi_grid_rad", "radius")}
    for k in range(n - 1):
        v.assume(T.le(v.at(A["md"], k), v.at(A["md"], k + 1)))
    h = v.obj(S_ + "SurveyHeader", azi_reference="grid")
    nev = arr3(v, vec3(v, "s"))
    s = v.obj(S_ + "Survey", header=h, start_nev=nev, **A)
    made = []
    v.external(S_ + "Survey", lambda I, *a, **k: made.append((a, k)) or v.obj(S_ + "Survey"))
    row = lambda k: [v.at(A[q], k) for q in ("md", "inc_rad", "azi_grid_rad", "radius")]
    keep = [0]
    for k in range(1, n):
        if not v.branch(T.land(*[T.eq(x, y) for x, y in zip(row(k), row(keep[-1]))])):
            keep.append(k)
    v.call(W_ + "strip_duplicates", s)
    a, k = made[0]
    v.ensure("stations kept", T.TRUE if k["md"].shape[0] == len(keep) else T.FALSE)
    for i, j in enumerate(keep):
        v.ensure("station %d" % i, T.land(*[T.eq(v.at(k[q], i), w) for q, w in zip(("md", "inc", "azi", "radius"), row(j))]))
    v.ensure("header, start and unit of angle", T.land(T.TRUE if k["header"] is h and k["deg"] is False else T.FALSE, *[T.eq(v.at(k["start_nev"], c), v.at(nev, c)) for c in range(3)]))


import itertools
def s_survey(v, kinds):
    """wbp_to_survey: each control point joined to the one before (connector, from_connections and strip_duplicates under contract elsewhere)"""
    import inspect
    steps, N = [], len(kinds)
    for j, turn in enumerate(kinds):
        loc = arr3(v, [v.real("%s%d" % (q, j)) for q in ("E", "N", "up")])
        a = dict(md=v.real("md%d" % j), inc=v.real("inc%d" % j), azi=v.real("azi%d" % j), location=loc)
        steps.append(v.obj(S_ + "TurnPoint", dls=v.real("dls%d" % j, lo=0), **a) if turn else v.obj(W_ + "SurveyPoint", **a))
    made, rest = [], {}
    s, out, hd = v.obj(S_ + "Survey"), v.obj(S_ + "Survey"), v.obj(S_ + "SurveyHeader")

    def connect(I, *a, **k):
        from welleng.connector import Connector
        b = dict(inspect.signature(Connector.__init__).bind(None, *a, **k).arguments)
        b.pop("self", None)
        i = len(made) + 1
        made.append(b)
        return v.obj("welleng.connector.Connector", pos_target=v.arr("pt%d" % i, 3), inc_target=v.real("it%d" % i), azi_target=v.real("at%d" % i), md_target=v.real("mt%d" % i), md1=b["md1"], md2=b["md2"])

    def survey(I, *a, **k):
        from welleng.survey import from_connections
        rest["survey"] = inspect.signature(from_connections).bind(*a, **k).arguments
        rest["given"] = list(rest["survey"]["section_data"])
        return s

    def head(I, *a, **k):
        from welleng.survey import SurveyHeader
        rest["head"] = inspect.signature(SurveyHeader.__init__).bind(None, *a, **k).arguments
        return hd

    def latlon(I, *a, **k):
        rest["utm"] = dict(zip(("easting", "northing", "zone_number", "zone_letter"), a), **k)
        return v.real("lat"), v.real("lon")
    v.external(W_ + "Connector", connect)
    v.external(W_ + "SurveyHeader", head)
    v.contract(S_ + "from_connections", survey)
    v.contract(W_ + "strip_duplicates", lambda I, q: out if q is s else None)
    v.external("utm.to_latlon", latlon)
    v.external("utm.conversion.to_latlon", latlon)
    st, conv, rad = v.real("step", gt=0), v.real("conv"), v.real("radius", gt=0)
    r = v.call(W_ + "wbp_to_survey", v.obj(W_ + "WellPlan", steps=steps), step=st, radius=rad, azi_reference="grid", convergence=conv, utm_zone=33, utm_north=False)
    yes = lambda q: T.TRUE if q else T.FALSE
    v.ensure("the survey of the connections, without repeated stations", yes(r is out))
    v.ensure("one connection for every control point after the first", yes(len(made) == N - 2))
    first = steps[1]
    e, n, u = [v.at(first.attrs["location"], c) for c in range(3)]
    for i, b in enumerate(made):
        t = steps[i + 2]
        v.ensure("%d ends at the control point's depth and direction" % i, T.land(T.eq(b["md2"], v.get(t, "md")), T.eq(b["inc2"], v.get(t, "inc")), T.eq(b["azi2"], v.get(t, "azi")), yes(b.get("pos2") is None and b.get("vec2") is None and b.get("degrees", True) is True)))
        if i == 0:
            v.ensure("the first starts at the control point before", T.land(T.eq(b["md1"], v.get(first, "md")), T.eq(b["inc1"], v.get(first, "inc")), T.eq(b["azi1"], v.get(first, "azi")), *[T.eq(v.at(as_arr(b["pos1"]), c), w) for c, w in enumerate((n, e, neg(u)))]))
        else:
            q = "%d" % i
            v.ensure("%d starts where the one before ended" % i, T.land(T.eq(b["md1"], v.real("mt" + q)), T.eq(mul(b["inc1"], T.PI), mul(180, v.real("it" + q))), T.eq(mul(b["azi1"], T.PI), mul(180, v.real("at" + q))), *[T.eq(v.at(b["pos1"], c), v.at(v.arr("pt" + q, 3), c)) for c in range(3)]))
        d = b["dls_design"]
        if kinds[i + 2]:
            d0 = v.get(t, "dls")
            v.ensure("%d as tight as planned" % i, T.implies(T.lt(0, d0), T.eq(d, d0)))
        v.ensure("%d a severity to design with" % i, T.lt(0, d))
    b = rest["survey"]
    v.ensure("all of them in order", yes(len(rest["given"]) == len(made) and all(v.get(c, "md1") is m["md1"] and v.get(c, "md2") is m["md2"] for c, m in zip(rest["given"], made))))
    v.ensure("step, radius and header", T.land(T.eq(b["step"], st), T.eq(b["radius"], rad), yes(b["survey_header"] is hd and b.get("deg", False) is False and not set(b) & {"start_nev", "start_xyz", "start_cov_nev", "error_model"})))
    q, h = rest["utm"], rest["head"]
    v.ensure("the place of the first location", T.land(T.eq(q["easting"], e), T.eq(q["northing"], n), yes(q["zone_number"] == 33 and q.get("northern") is False), T.eq(h["latitude"], v.real("lat")), T.eq(h["longitude"], v.real("lon")), T.eq(h["altitude"], u)))
    v.ensure("the reference asked for", T.land(yes(h["azi_reference"] == "grid"), T.eq(h["convergence"], conv)))


SPECS = [Spec("control points/%d/%s" % (n, "".join("01"[x] for x in m)), lambda v, n=n, m=m: s_where(v, n, m, False), bounded="%d stations, each pattern of equal normals" % n) for n in (3, 4, 5) for m in itertools.product((True, False), repeat=n - 2)]
SPECS += [Spec("curves/%s/%s" % (u, t), lambda v, u=u, t=t: s_curve(v, u, t), bounded="two intervals") for u in ("meters", "feet") for t in ("right", "left", "right through north", "left through north")]
SPECS += [Spec("listing", s_data, bounded="four control points"), Spec("duplicates", s_strip, bounded="three stations")]
SPECS += [Spec("to a survey/" + "".join("ST"[q] for q in m), lambda v, m=m: s_survey(v, m), bounded="%d control points" % len(m)) for m in ((1, 1, 1), (1, 1, 1, 1), (0, 0, 1), (1, 1, 0, 1), (1, 1, 1, 0))]


# ------------------------------------------------------------------ dynamic
def g(d):
    from .p07 import gen_full
    c = dict(full=gen_full(d, maxdl=2.9, hi=8), tol=d.choice([0.1, 0.01, d.real(0, .5)]), cont=d.bool(.4))
    f = c["full"]
    n = len(f["md"])
    for k in range(1, n):
        if d.bool(.35):
            f["inc"][k], f["azi"][k] = f["inc"][k - 1], f["azi"][k - 1]
    return c


def ck(c):
    from .p07 import full_survey
    import welleng as we
    s = full_survey(c["full"])
    n = len(s.md)
    if n < 3 or not np.all(np.isfinite(s.dls)):
        raise Skip()
    tol = c["tol"]
    ps = we.survey.get_sections(s, tol, tol, c["cont"])
    N = np.array(s.normals)
    want = [0, 0]
    for k in range(1, n - 1):
        a, b = N[k - 1], N[k]
        gap = np.abs(a - b) - (tol + tol * np.abs(b))
        if np.any(np.abs(gap) < 1e-9) and tol:
            raise Skip()
        same = all((np.isnan(x) and np.isnan(y)) or abs(x - y) <= tol + tol * abs(y) for x, y in zip(a, b))
        if c["cont"]:
            same = same and round(float(s.dls[k]), 2) == round(float(s.dls[k + 1]), 2)
        if not same:
            want.append(k)
    want.append(n - 1)
    got = [float(p.md) for p in ps]
    if got != [float(s.md[k]) for k in want]:
        return "control points at %r, expected %r" % (got, [float(s.md[k]) for k in want])
    den = 30 if s.unit == "meters" else 100
    last = None
    for j, (p, k) in enumerate(zip(ps, want)):
        if (p.inc, p.azi) != (s.inc_deg[k], s.azi_grid_deg[k]) or list(p.location) != [s.e[k], s.n[k], -s.tvd[k]]:
            return "control point %d is not station %d" % (j, k)
        if j >= 2:
            # the interval after the control point before tells a hold from a curve
            hold = s.dogleg[last + 1] == 0
            dm = s.md[k] - s.md[last]
            da = (s.azi_grid_deg[k] - s.azi_grid_deg[last] + 180) % 360 - 180
            w = (0, 0, 0) if hold else (s.dls[k], abs(s.inc_deg[k] - s.inc_deg[last]) / dm * den, da / dm * den)
            if abs(abs(da) - 180) > 1e-6 and not np.allclose((p.dls, p.build_rate, p.turn_rate), w, rtol=1e-9, atol=1e-9):
                return "control point %d has severity and rates %r, expected %r" % (j, (p.dls, p.build_rate, p.turn_rate), w)
            tf = 0 if hold else abs(math.degrees(s.toolface[last])) * (-1 if da < -1e-9 else 1)
            if abs(abs(da) - 180) > 1e-6 and abs(p.toolface - tf) > 1e-9 and (abs(da) > 1e-9 or abs(abs(p.toolface) - abs(tf)) > 1e-9):
                return "control point %d has toolface %r, expected %r" % (j, p.toolface, tf)
        elif p.dls or p.build_rate or p.turn_rate or p.toolface:
            return "curvature at the start"
        last = k
    # the listing
    df = we.exchange.csv.export_csv(s, None, dls_cont=c["cont"])
    a = df.values
    idx = [int(np.argmin(np.abs(s.md - x))) for x in a[:, 0]]
    if idx[0] != 0 or idx[-1] != n - 1 or idx != sorted(set(idx)):
        return "listing of stations %r of %d" % (idx, n)
    for r, k in zip(a, idx):
        if list(r[:6]) != [s.md[k], s.inc_deg[k], s.azi_grid_deg[k], s.n[k], s.e[k], -s.tvd[k]]:
            return "listing of station %d: %r" % (k, list(r))
    return None


def label(d, t):
    """a name, some as long as the 60 columns the file has for it"""
    k = d.choice([0, 0, 60, 59, d.int(1, 60)])
    return (t + " " + "abcdefghij" * 6)[:k - 1] + "z" if k > len(t) else t


def g2(d):
    plans = []
    for i in range(d.int(1, 3)):
        n = d.int(2, 6)
        md, inc, azi = [d.choice([0.0, d.real(0, 500)])], [d.real(0, 100)], [d.real(0, 359)]
        for _ in range(n - 1):
            md.append(md[-1] + d.real(20, 900))
            hold = d.bool(.3)
            inc.append(inc[-1] if hold else d.real(0, 120))
            azi.append(azi[-1] if hold else (azi[-1] + d.real(-60, 60)) % 360)
        plans.append(dict(md=md, inc=inc, azi=azi, e=d.real(2e5, 8e5), n=d.real(1e6, 9e6), tvd=d.real(-100, 300), name=label(d, "plan %s %d" % (d.choice(["A", "B C", "x-1/2"]), i)), parent=d.choice([None, label(d, "parent well")]),
                          type=d.choice(["unknown", "surface", "ow_sidetrack", "wp_sidetrack", "look_ahead", "site", "compass_well"]), method=d.choice(["curve_only", "curve_hold", "opt_align", "something_special"]), side=d.choice([None, "3", "1234567"]), dls=d.choice([d.real(0, 20), d.real(0, 99)]),
                          ext=d.choice([d.real(0, 9), d.real(0, 99)]), dirty=d.choice([None, "locked_plan"]), every=d.bool()))
    metric = d.bool(.4)
    if metric:
        plans[0]["every"] = True
    return dict(plans=plans, units=("meters", "meters") if metric else d.choice([("meters", "meters"), ("feet", "feet"), ("meters", "feet"), ("feet", "meters")]), file=d.bool(.3), targets=[dict(name=label(d, "T%d" % i), loc=[d.real(-1e5, 1e5) for _ in range(3)], color=d.int(0, 999)) for i in range(d.int(0, 3))],
                xpoint=not metric and d.bool(.3), step=d.choice([None, 30.0, 100.0]), parent_file=d.bool(.3), zone=d.choice([31, d.int(1, 60)]), north=d.bool())


def make_plan(c, p):
    import welleng as we
    w = we.exchange.wbp
    s = we.survey.Survey(md=p["md"], inc=p["inc"], azi=p["azi"], deg=True, start_nev=[p["n"], p["e"], p["tvd"]], header=we.survey.SurveyHeader(azi_reference="grid"))
    pl = w.WellPlan(depth_unit=c["units"][0], surface_unit=c["units"][1], survey=s, plan_name=p["name"], parent_name=p["parent"], location_type=p["type"], plan_method=p["method"], dirty_flag=p["dirty"], sidetrack_id=p["side"], dls=p["dls"], extension=p["ext"], targets=[])
    if p["every"]:
        tp = we.survey.TurnPoint
        pl.steps = [tp(md=s.md[k], inc=s.inc_deg[k], azi=s.azi_grid_deg[k], build_rate=0.0, turn_rate=0.0, dls=float(s.dls[k]), toolface=0.0, method="920", location=[s.e[k], s.n[k], -s.tvd[k]], tie_on=j == 0) for j, k in enumerate([0] + list(range(len(s.md))))]
    return s, pl


def ck2(c):
    import tempfile, os
    import welleng as we
    w = we.exchange.wbp
    made = [make_plan(c, p) for p in c["plans"]]
    env = made[0][1].env_local
    for st, row in zip(made[0][1].steps if not c["plans"][0]["every"] else [], env):
        if np.abs(row - [st.location[0] - c["plans"][0]["e"], st.location[1] - c["plans"][0]["n"], st.location[2]]).max() > 1e-6:
            return "local coordinates %r of %r" % (list(row), st.location)
    if c["xpoint"]:
        x = w.SurveyPoint(md=12.5, inc=3.25, azi=4.5, cov_xx=1.5, cov_xy=.5, cov_xz=-.25, cov_yy=2.5, cov_yz=.75, cov_zz=3.5, x_bias=.25, y_bias=-.5, z_bias=1.25, tool="MWD rev 4", location=[1.25, 2.5, -3.75])
        made[-1][1].steps.append(x)
    plans = [q for _, q in made]
    for t in c["targets"]:
        q = w.Target(t["name"], location=list(t["loc"]))
        q.geometry["color"]["color"] = t["color"]
        plans[0].targets.append(q)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.wbp")
        w.export(plans if len(plans) > 1 or c["file"] else plans[0], path, comments=["some text"] if c["file"] else None)
        got = w.load(path)
        parent = w.WellPlan(survey=made[0][0], plan_name="child", location_type="unknown", targets=[], parent_wbp_file=path) if c["parent_file"] else None
    if len(got) != len(plans):
        return "%d plans became %d" % (len(plans), len(got))
    if parent is not None:
        first = plans[0].steps[0].location
        if np.abs(parent.surface_datum - first).max() > .0051 or np.abs(parent.env_local[0][:2]).max() > .0051:
            return "surface location %r of the parent at %r" % (parent.surface_datum, first)
    if [t.name for t in got[0].targets] != [t["name"] for t in c["targets"]]:
        return "targets %r" % [t.name for t in got[0].targets]
    for t, u in zip(got[0].targets, c["targets"]):
        if np.abs(np.array(t.location) - u["loc"]).max() > .00501 or t.geometry["color"]["color"] != u["color"]:
            return "target %s at %r with colour %r, expected %r" % (t.name, t.location, t.geometry["color"]["color"], u)
    for p, a, b in zip(c["plans"], plans, got):
        if (b.plan_name, b.parent_name, b.location_type, b.plan_method, b.depth_unit, b.surface_unit, b.sidetrack_id) != (p["name"], p["parent"], p["type"], p["method"], c["units"][0], c["units"][1], p["side"]) or b.dirty_flag != str(p["dirty"]):
            return "header %r for %r" % ((b.plan_name, b.parent_name, b.location_type, b.plan_method, b.depth_unit, b.surface_unit, b.sidetrack_id, b.dirty_flag), p)
        if abs(b.dls - p["dls"]) > .00501 or abs(b.extension - p["ext"]) > 6e-6:
            return "severity %r and extension %r for %r" % (b.dls, b.extension, (p["dls"], p["ext"]))
        if len(a.steps) != len(b.steps):
            return "%d control points became %d" % (len(a.steps), len(b.steps))
        for x, y in zip(a.steps, b.steps):
            if type(x).__name__ != type(y).__name__:
                return "%s became %s" % (type(x).__name__, type(y).__name__)
            if abs(x.md - y.md) > .00501 or abs(x.inc - y.inc) > .000501 or abs(x.azi - y.azi) > .000501 or np.abs(np.array(x.location) - y.location).max() > .00501:
                return "control point %r became %r" % (vars(x), vars(y))
            if isinstance(x, w.SurveyPoint):
                if any(abs(getattr(x, k) - getattr(y, k)) > .0501 for k in ("cov_xx", "cov_xy", "cov_xz", "cov_yy", "cov_yz", "cov_zz", "x_bias", "y_bias", "z_bias")) or x.tool != y.tool:
                    return "survey point %r became %r" % (vars(x), vars(y))
            elif any(abs(getattr(x, k) - getattr(y, k)) > .000501 for k in ("build_rate", "turn_rate", "dls")) or abs(x.toolface - y.toolface) > .00501:
                return "control point %r became %r" % (vars(x), vars(y))
    # to a survey
    p, (s, a), b = c["plans"][0], made[0], got[0]
    if p["every"] and tuple(c["units"]) == ("meters", "meters") and not c["xpoint"]:
        for k in range(len(s.md) - 1):
            if ref_angle(np.array(s.vec_nev[k]), np.array(s.vec_nev[k + 1])) > 2.5:
                raise Skip()
        import utm
        r = w.wbp_to_survey(b, step=c["step"], azi_reference="grid", utm_zone=c["zone"], utm_north=c["north"])
        x, y, up = b.steps[0].location
        la, lo = utm.to_latlon(x, y, c["zone"], northern=c["north"])
        if not np.allclose([r.header.latitude, r.header.longitude, r.header.altitude], [la, lo, up], rtol=0, atol=1e-9 * (1 + abs(up))):
            return "header at %r, expected %r" % ([r.header.latitude, r.header.longitude, r.header.altitude], [la, lo, up])
        scale = .02 * len(p["md"]) + 3e-5 * s.md[-1] + 1.6e-7 * float(np.sum(np.diff(s.md) ** 2))     # the severity is printed to .001 degrees per 30 m
        if abs(r.md[-1] - s.md[-1]) > .0051 or not np.all(np.diff(r.md) > 0):
            return "survey to %r of a plan to %r" % (float(r.md[-1]), float(s.md[-1]))
        for x in b.steps[1:]:
            i = int(np.argmin(np.abs(r.md - x.md)))
            here = np.array([x.location[1], x.location[0], -x.location[2]])
            if abs(r.md[i] - x.md) > .006:
                return "no station at %r" % x.md
            if np.abs(np.array(r.pos_nev[i]) - here).max() > scale:
                return "station %r is at %r, planned at %r" % (x.md, list(r.pos_nev[i]), list(here))
        if c["step"] and np.diff(r.md).max() > c["step"] + .01:
            return "stations %r apart" % float(np.diff(r.md).max())
    return None


DYN = [Dyn("control points", g, ck, n=(300, 6000)), Dyn("plan files", g2, ck2, n=(120, 2500))]
