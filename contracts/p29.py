"""P29 projecting ahead, arcs and toolfaces"""
from .common import *
from .p12 import lin

FILES = ["welleng/utils.py", "welleng/survey.py"]
S_ = "welleng.survey."
U = "welleng.utils."
META = dict(
    title="Projections and arcs leave at their toolface and turn at their severity",
    statement="An arc (get_arc, Arc.transform, project_ahead) of dogleg D and radius R from a position and direction t ends at R(sin D t + (1 - cos D) n) with direction cos D t + sin D n, n being the unit vector at its toolface clockwise from high side about t (from north for a vertical t); its length is R D, and with target=True it is the arc that ends there, run backwards. "
              "project_ahead turns at the given severity (per 30 m, or per 100 ft for feet) over the given length, or holds for severity zero, and adds the length to the depth; project_to_bit by default continues the last interval's arc, and project_to_target (for a grid scale factor of one) passes through the projected bit and ends at the target. "
              "get_toolface and get_toolface_fast give the toolface, in [0, 2 pi), of the arc towards the other point. make_clc_path joins an arc, a hold and an arc.",
    over=["inputs", "configurations"], quantifier="all positions, directions, toolfaces, doglegs, radii, lengths, both units and all azimuth references",
    why="The rotation order and frame conventions must agree for every orientation; tests project one well in metres.",
    mechanism=[("arc", "welleng/utils.py:Arc.transform"), ("project", "welleng/survey.py:project_ahead"), ("to bit", "welleng/survey.py:Survey.project_to_bit"), ("to target", "welleng/survey.py:project_to_target"),
               ("toolface", "welleng/utils.py:get_toolface"), ("toolface, fast", "welleng/utils.py:get_toolface_fast"), ("paths", "welleng/utils.py:make_clc_path")],
    observe_at="get_arc, project_ahead, Survey.project_to_bit, Survey.project_to_target, get_toolface, get_toolface_fast, make_clc_path")


def hr(i, a):
    return [mul(T.cos(i), T.cos(a)), mul(T.cos(i), T.sin(a)), neg(T.sin(i))], [neg(T.sin(a)), T.cos(a), T.const(0)]


def setup(v):
    i, a, w = v.real("i"), v.real("a"), v.real("w")
    t = tangent(i, a)
    h, r = hr(i, a)
    n = lin((T.cos(w), h), (T.sin(w), r))
    v.contract(U + "get_angles", lambda I, vec, nev=False: v.table((1, 2), lambda k, c: T.ite(T.eq(c, 0), i, a)))
    return i, a, w, t, n


def unit_check(v):
    """get_unit_vec of something already unit: the obligation is that it is"""
    def m(I, x):
        v.ensure("what is normalised is already unit", T.eq(norm2([v.at(x, c) for c in range(3)]), 1))
        return x
    v.contract(U + "get_unit_vec", m)


def s_arc(v, target=False, start=True):
    i, a, w, t, n = setup(v)
    D, R, p = v.real("D"), v.real("R", gt=0), vec3(v, "p")
    unit_check(v)
    given = lin((-1, t)) if target else t
    pos, vec, L = v.call(U + "get_arc", D, R, w, arr3(v, p) if start else None, arr3(v, given), target)
    u = lin((T.cos(D), t), (T.sin(D), n))
    for c in range(3):
        v.ensure("end " + "NEV"[c], T.eq(v.at(pos, c), add(p[c] if start else 0, mul(R, add(mul(T.sin(D), t[c]), mul(sub(1, T.cos(D)), n[c]))))))
        v.ensure("direction " + "NEV"[c], T.eq(v.at(vec, c), neg(u[c]) if target else u[c]))
    v.ensure("length", T.eq(L, mul(R, D)))


def s_down(v):
    """no direction: down, toolface from north"""
    D, R, w = v.real("D"), v.real("R", gt=0), v.real("w")
    rec = []
    v.contract(U + "get_angles", lambda I, vec, nev=False: rec.append(vec) or v.table((1, 2), lambda k, c: T.const(0)))
    unit_check(v)
    pos, vec, L = v.call(U + "get_arc", D, R, w)
    v.ensure("down", T.land(*[T.eq(v.at(rec[0], c), 1 if c == 2 else 0) for c in range(3)]))
    n = [T.cos(w), T.sin(w), T.const(0)]
    for c in range(3):
        v.ensure("direction " + "NEV"[c], T.eq(v.at(vec, c), add(mul(T.cos(D), 1 if c == 2 else 0), mul(T.sin(D), n[c]))))


def s_ahead(v, kind, unit="meters"):
    i, a, w, t, n = setup(v)
    p = vec3(v, "p")
    dm, dls, md = v.real("dm", gt=0), v.real("dls", gt=0), v.real("md", lo=0)
    if kind == "hold":
        dls = T.const(0)
    rec = []
    v.external(S_ + "Node", lambda I, **k: rec.append(k) or v.obj("welleng.node.Node"))
    kw = {} if unit == "meters" else {"unit": unit}
    v.call(S_ + "project_ahead", arr3(v, p), arr3(v, t), dm, dls, w, md, **kw)
    k = rec[0]
    den = 30 if unit == "meters" else 100
    D = mul(div(M(dm, dls), den), div(T.PI, 180))
    v.ensure("depth", T.eq(k["md"], add(md, dm)))
    if kind == "hold":
        for c in range(3):
            v.ensure("straight on " + "NEV"[c], T.land(T.eq(v.at(k["pos"], c), add(p[c], mul(dm, t[c]))), T.eq(v.at(k["vec"], c), t[c])))
        return
    R = div(dm, D)
    u = lin((T.cos(D), t), (T.sin(D), n))
    for c in range(3):
        v.ensure("end " + "NEV"[c], T.eq(v.at(k["pos"], c), add(p[c], mul(R, add(mul(T.sin(D), t[c]), mul(sub(1, T.cos(D)), n[c]))))))
        v.ensure("direction " + "NEV"[c], T.eq(v.at(k["vec"], c), u[c]))


def s_bit(v, default):
    n = v.int("n", lo=2)
    last = T.isub(n, 1)
    A = {x: v.arr(x, n) for x in ("n_", "e_", "tvd_", "md", "dls", "toolface")}
    vec = v.arr("vec", n, 3)
    s = v.obj(S_ + "Survey", n=A["n_"], e=A["e_"], tvd=A["tvd_"], md=A["md"], dls=A["dls"], toolface=A["toolface"], vec_nev=vec, unit="feet")
    rec = []
    node = v.obj("welleng.node.Node")
    def pa(I, pos, vec, delta_md, dls, toolface, md=0.0, unit="meters"):
        rec.append(dict(pos=pos, vec=vec, delta_md=delta_md, dls=dls, toolface=toolface, md=md, unit=unit))
        return node
    v.contract(S_ + "project_ahead", pa)
    dm, d, w = v.real("dm", gt=0), v.real("d", lo=0), v.real("w")
    r = v.method(s, "project_to_bit", dm) if default else v.method(s, "project_to_bit", dm, d, w)
    k = rec[0]
    v.ensure("the projected node", T.TRUE if r is node and len(rec) == 1 and k["unit"] == "feet" else T.FALSE)
    v.ensure("from the last station", T.land(*([T.eq(v.at(k["pos"], c), v.at(A[x], last)) for c, x in enumerate(("n_", "e_", "tvd_"))] + [T.eq(v.at(k["vec"], c), v.at(vec, last, c)) for c in range(3)] + [T.eq(k["md"], v.at(A["md"], last))])))
    v.ensure("severity and toolface", T.land(T.eq(k["delta_md"], dm), T.eq(k["dls"], v.at(A["dls"], last) if default else d), T.eq(k["toolface"], v.at(A["toolface"], last) if default else w)))


def s_target(v, bit, given, cov, unit):
    """project_to_target hands the connector the survey's end (or the projected bit) and the target, and the survey of the connections what the survey has"""
    import inspect
    from welleng.connector import Connector
    from welleng.node import Node
    from welleng.survey import from_connections
    n, h, s = survey_obj(v, ref="magnetic", cov=cov, unit=unit)
    last = T.isub(n, 1)
    em = "a tool"
    s.attrs["error_model"] = em
    target = v.obj("welleng.node.Node")
    cons, ahead, nodes, made = [], [], [], []

    def node(I, *a, **k):
        k = dict(inspect.signature(Node.__init__).bind(None, *a, **k).arguments)
        nodes.append((k, v.obj("welleng.node.Node", pos_nev=k.get("pos"), pos_xyz=k.get("pos"), vec_nev=k.get("vec"), md=k.get("md"))))
        return nodes[-1][1]
    v.contract("welleng.node.Node", node)

    def project(I, *a, **k):
        ahead.append((dict(zip(("pos", "vec", "delta_md", "dls", "toolface", "md", "unit"), a), **k), v.obj("welleng.node.Node", pos_nev=[0], pos_xyz=[0])))
        return ahead[-1][1]
    v.contract(S_ + "project_ahead", project)

    def connector(I, *a, **k):
        b = inspect.signature(Connector.__init__).bind(None, *a, **k)
        b.apply_defaults()
        d = dict(b.arguments)
        d["free"] = [v.get(x, "pos_nev") is None and v.get(x, "pos_xyz") is None for x in [d["node2"]] if x is not target]
        c = v.obj("welleng.connector.Connector", node_end=v.obj("welleng.node.Node"))
        cons.append((d, c))
        return c
    v.contract("welleng.connector.Connector", connector)

    def survey(I, *a, **k):
        b = inspect.signature(from_connections).bind(*a, **k)
        b.apply_defaults()
        made.append((dict(b.arguments), v.obj("welleng.survey.Survey")))
        return made[-1][1]
    v.contract(S_ + "from_connections", survey)
    design, dm, dls, w, step = v.real("design", gt=0), v.real("dm", gt=0), v.real("dls", gt=0), v.real("w"), v.real("step", gt=0)
    if given == 0:
        dls = T.const(0)
    kw = dict(dls_design=design, step=step)
    if bit:
        kw["delta_md"] = dm
    if given is not None:
        kw.update(dls=dls, toolface=w)
    else:
        v.assume(T.lt(0, v.at(v.get(s, "dls"), last)))
    r = v.method(s, "project_to_target", target, **kw)
    ok = lambda c: T.TRUE if c else T.FALSE
    eq = lambda a, b: T.eq(a, b)
    v.ensure("one connection, or two through the bit", ok(len(cons) == (2 if bit else 1) and len(made) == 1 and r is made[0][1]))
    m = made[0][0]
    v.ensure("joined in order", ok(list(m["section_data"]) == [c for _, c in cons]))
    first, end = cons[0][0], cons[-1][0]
    start = [k for k, o in nodes if o is first["node1"]] if first["node1"] is not None else [dict(pos=first["pos1"], vec=first["vec1"], md=first["md1"])]
    v.ensure("from the last station", ok(len(start) == 1))
    v.ensure("its position, direction and depth", T.land(eq(start[0]["md"], v.at(v.get(s, "md"), last)), *[eq(v.at(start[0][x], c), v.at(v.get(s, y), last, c)) for x, y in (("pos", "pos_nev"), ("vec", "vec_nev")) for c in range(3)]))
    v.ensure("to the target at the design severity", T.land(ok(end["node2"] is target and end["unit"] == unit), eq(end["dls_design"], design)))
    if bit:
        a, o = ahead[0]
        v.ensure("the bit is projected once", ok(len(ahead) == 1 and first["node2"] is o and first["free"] == [True] and first["unit"] == a["unit"] == unit))
        d_ = v.at(v.get(s, "dls"), last) if given is None else dls
        v.ensure("from the last station to the bit", T.land(eq(a["delta_md"], dm), eq(a["dls"], d_), eq(a["toolface"], v.at(v.get(s, "toolface"), last) if given is None else w), eq(a["md"], v.at(v.get(s, "md"), last)),
                                                            *[eq(v.at(a[x], c), v.at(v.get(s, y), last, c)) for x, y in (("pos", "pos_nev"), ("vec", "vec_nev")) for c in range(3)]))
        v.ensure("at the severity of the projection", eq(first["dls_design"], design if given == 0 else d_))
        v.ensure("on from the bit", ok(end["node1"] is v.get(cons[0][1], "node_end")))
    else:
        v.ensure("nothing is projected", ok(not ahead))
    v.ensure("step and radius", T.land(eq(m["step"], step), eq(m["radius"], v.at(v.get(s, "radius"), last))))
    v.ensure("error model", ok(m["error_model"] == em and m["deg"] is False))
    v.ensure("start covariance", ok(m["start_cov_nev"] is None) if not cov else T.land(*[eq(v.at(m["start_cov_nev"], p, q), v.at(v.get(s, "cov_nev"), last, p, q)) for p in range(3) for q in range(3)]))
    v.ensure("units of the header", ok(m["depth_unit"] == v.get(h, "depth_unit") and m["surface_unit"] == v.get(h, "surface_unit")))
    g_ = m["survey_header"]
    v.ensure("grid azimuths, the survey's header left alone", ok(v.get(g_, "azi_reference") == "grid" and v.get(h, "azi_reference") == "magnetic"))
    for x in ("convergence", "declination"):
        v.ensure("header " + x, eq(v.get(g_, x), v.get(h, x)))


def s_continue(v):
    """lemma: the toolface of the last station (P03) is that of the arc that continues the last interval"""
    i, a, w = v.real("i"), v.real("a"), v.real("w")
    D = v.real("D", gt=0)
    v.assume(T.lt(0, T.sin(D)))
    t2 = tangent(i, a)
    h, r = hr(i, a)
    n = lin((T.cos(w), h), (T.sin(w), r))
    t1 = lin((T.cos(D), t2), (neg(T.sin(D)), n))
    y, x = neg(dot(t1, r)), neg(dot(t1, h))
    v.ensure("arctan2 of these is the toolface", T.land(T.eq(y, mul(T.sin(D), T.sin(w))), T.eq(x, mul(T.sin(D), T.cos(w)))))
    s, c = T.sin(D), T.cos(D)
    # half way back the arc from t1 points along t2, as it does ahead
    u = lin((c, t2), (s, n))
    for k in range(3):
        v.ensure("same arc " + "NEV"[k], T.eq(add(t1[k], u[k]), M(2, c, t2[k])))


def s_toolface(v, fast):
    """the toolface of the point x ahead and y to the side at angle w"""
    i, a, w, t, n = setup(v)
    v.assume(T.lt(0, T.sin(i)))
    p, x, y = vec3(v, "p"), v.real("x"), v.real("y", gt=0)
    q = lin((1, p), (x, t), (y, n))
    seen = []
    res = v.real("res")

    def at2(I, b, c, *r, **k):
        if fast and not seen:
            seen.append(("azi", b, c))
            return a
        seen.append(("tf", b, c))
        return v.table((1,), lambda k: res) if not fast else res
    v.external("numpy.arctan2", at2)
    v.assume(T.le(0, res), T.lt(res, mul(2, T.PI)))
    if fast:
        v.assume(T.le(0, a), T.lt(a, mul(2, T.PI)))
        v.external("numpy.sqrt", lambda I, z: T.sin(i) if v.same(z, mul(T.sin(i), T.sin(i))) else T.const(1) if v.same(z, T.const(1)) else None)
    r = v.call(U + ("get_toolface_fast" if fast else "get_toolface"), arr3(v, p), arr3(v, t), arr3(v, q))
    kind, b, c = seen[-1]
    b, c = (v.at(z, 0) if hasattr(z, "shape") and len(z.shape) else z for z in (b, c))
    if fast:
        v.ensure("azimuth of the direction", T.land(T.eq(seen[0][1], t[1]), T.eq(seen[0][2], t[0])))
    v.ensure("offset to the right", T.eq(b, mul(y, T.sin(w))))
    v.ensure("offset to high side", T.eq(c, mul(y, T.cos(w))))
    v.ensure("in [0, 2 pi)", T.eq(v.at(r) if hasattr(r, "shape") else r, res))


def s_clc(v):
    rec = []
    w1, d1, x, w2, d2, R = [v.real(k) for k in ("w1", "d1", "x", "w2", "d2", "R")]
    ends = [(vec3(v, "a"), vec3(v, "b"), v.real("L1")), (vec3(v, "c"), vec3(v, "d"), v.real("L2"))]

    def arc(I, dogleg, radius, toolface, pos=None, vec=None, target=False):
        rec.append((dogleg, radius, toolface, pos, vec))
        e = ends[len(rec) - 1]
        return arr3(v, e[0]), arr3(v, e[1]), e[2]
    v.contract(U + "get_arc", arc)
    p, t = vec3(v, "p"), vec3(v, "t")
    r = v.call(U + "make_clc_path", w1, d1, x, w2, d2, pos0=arr3(v, p), vec0=arr3(v, t), radius=R)
    mid = lin((1, ends[0][0]), (x, ends[0][1]))
    v.ensure("arcs as asked for", T.land(*[T.eq(a, b) for a, b in zip(rec[0][:3] + rec[1][:3], (d1, R, w1, d2, R, w2))]))
    for c in range(3):
        v.ensure("first arc", T.land(T.eq(v.at(rec[0][3], c), p[c]), T.eq(v.at(rec[0][4], c), t[c]), T.eq(v.at(r["pos1"], c), ends[0][0][c]), T.eq(v.at(r["vec1"], c), ends[0][1][c])))
        v.ensure("hold", T.land(T.eq(v.at(r["pos2"], c), mid[c]), T.eq(v.at(r["vec2"], c), ends[0][1][c])))
        v.ensure("second arc", T.land(T.eq(v.at(rec[1][3], c), mid[c]), T.eq(v.at(rec[1][4], c), ends[0][1][c]), T.eq(v.at(r["pos3"], c), ends[1][0][c]), T.eq(v.at(r["vec3"], c), ends[1][1][c])))
    v.ensure("lengths", T.land(T.eq(r["dist_curve1"], ends[0][2]), T.eq(r["dist_curve2"], ends[1][2])))


SPECS = [Spec("arc", s_arc), Spec("arc/no position", lambda v: s_arc(v, False, False)), Spec("arc/backwards", lambda v: s_arc(v, True)), Spec("arc/no direction", s_down), Spec("ahead/arc", lambda v: s_ahead(v, "arc")),
         Spec("ahead/arc in feet", lambda v: s_ahead(v, "arc", "feet")), Spec("ahead/hold", lambda v: s_ahead(v, "hold")), Spec("to bit", lambda v: s_bit(v, False)), Spec("to bit/default", lambda v: s_bit(v, True)),
         *[Spec("to target/%s%s" % ("through the bit" if b else "direct", {None: "", 1: ", given", 0: ", held"}[gv]), lambda v, b=b, gv=gv, c=c, u=u: s_target(v, b, gv, c, u)) for b, gv, c, u in ((0, None, True, "meters"), (1, None, True, "meters"), (1, 1, False, "feet"), (1, 0, False, "meters"))],
         Spec("lemma: continuing", s_continue), Spec("toolface", lambda v: s_toolface(v, False)), Spec("toolface, fast", lambda v: s_toolface(v, True)), Spec("curve-hold-curve path", s_clc)]


# ------------------------------------------------------------------ dynamic
def g(d):
    c = dict(inc=d.real(0, 180, (0.0, 90.0)), azi=d.real(0, 360, (0.0, 90.0, 180.0, 270.0)), w=d.real(-360, 720, (0.0, 90.0, 180.0, 270.0)), D=d.real(.01, 350, (90.0, 180.0)), R=d.real(1, 2000), pos=[d.real(-2000, 2000, (0.0,)) for _ in range(3)],
             dls=d.choice([0.0, d.real(.01, 30)]), dm=d.real(.1, 200), md=d.real(0, 5000), unit=d.choice(["meters", "feet"]), back=d.bool(.3), nopos=d.bool(.2), ints=d.bool(.2), w2=d.real(0, 360), D2=d.real(.01, 170), x=d.real(0, 1000), lst=d.bool(.5))
    return c


def frame_n(inc, azi, w):
    h = np.array([math.cos(inc) * math.cos(azi), math.cos(inc) * math.sin(azi), -math.sin(inc)])
    r = np.array([-math.sin(azi), math.cos(azi), 0.0])
    return math.cos(w) * h + math.sin(w) * r


def rarc(p, t, n, D, R):
    return p + R * (math.sin(D) * t + (1 - math.cos(D)) * n), math.cos(D) * t + math.sin(D) * n


def true_angles(t):
    """of the vector handed over: azimuth is 0 for a vertical one"""
    i = math.acos(max(-1.0, min(1.0, t[2])))
    return (math.atan2(math.hypot(t[0], t[1]), t[2]), math.atan2(t[1], t[0])) if math.hypot(t[0], t[1]) > 0 else (i, 0.0)


def ck(c):
    import welleng as we
    from welleng.utils import get_arc, get_toolface, get_toolface_fast, make_clc_path
    rd = math.radians
    t = ref_tan(rd(c["inc"]), rd(c["azi"])) + 0.0
    p = np.array(c["pos"])
    if c["ints"]:
        p = np.round(p)
    given = -t if c["back"] else t
    ai, aa = true_angles(t)
    if math.sin(ai) < 1e-6 and math.sin(ai) != 0:
        raise Skip()
    w, D, R = rd(c["w"]), rd(c["D"]), c["R"]
    n = frame_n(ai, aa, w)
    P, V = rarc(np.zeros(3) if c["nopos"] else p, t, n, D, R)
    arg_p = None if c["nopos"] else ([int(x) for x in p] if c["ints"] else np.array(p))
    arg_v = [float(x) for x in given] if c["lst"] else np.array(given)
    kp, kv = np.array(arg_p if arg_p is not None else [0.]), np.array(arg_v)
    got = get_arc(D, R, w, arg_p, arg_v, c["back"])
    sc = 1 + np.abs(p).max() + R
    if not np.allclose(got[0], P, atol=1e-9 * sc) or not np.allclose(got[1], -V if c["back"] else V, atol=1e-9):
        return "arc: %s, direction %s" % (worst(got[0], P), worst(got[1], -V if c["back"] else V))
    if abs(got[2] - R * D) > 1e-9 * (1 + R * D):
        return "arc length %r expected %r" % (got[2], R * D)
    if not np.array_equal(kp, np.array(arg_p if arg_p is not None else [0.])) or not np.array_equal(kv, arg_v):
        return "arguments changed"
    # toolface towards the arc's end
    q, _ = rarc(p, t, n, D, R)
    off = math.hypot(*(lambda z: (z @ n, z @ np.cross(t, n)))(q - p))
    if off > 1e-6 * sc:
        ww = w % (2 * math.pi)
        for f in (get_toolface, get_toolface_fast):
            tf = float(f(p, t, q))
            if not 0 <= tf <= 2 * math.pi or abs((tf - ww + math.pi) % (2 * math.pi) - math.pi) > 1e-7 + 1e-12 * sc / off:
                return "%s %r expected %r" % (f.__name__, tf, ww)
        tfs = get_toolface(np.array([p, p]), np.array([t, t]), np.array([q, q]))
        if np.shape(tfs) != (2,) or np.abs((np.asarray(tfs) - ww + math.pi) % (2 * math.pi) - math.pi).max() > 1e-7 + 1e-12 * sc / off:
            return "toolfaces %r expected %r" % (tfs, ww)
    # ahead
    den = 30 if c["unit"] == "meters" else 100
    D1 = rd(c["dls"]) * c["dm"] / den
    P, V = rarc(p, t, n, D1, c["dm"] / D1) if c["dls"] > 0 else (p + t * c["dm"], t)
    kw = {} if c["unit"] == "meters" else {"unit": c["unit"]}
    nd = we.survey.project_ahead(np.array(p), np.array(t), c["dm"], c["dls"], w, c["md"], **kw)
    if not np.allclose(nd.pos_nev, P, atol=1e-9 * sc + 1e-9 * c["dm"]) or not np.allclose(nd.vec_nev, V, atol=1e-9) or nd.md != c["md"] + c["dm"]:
        return "project_ahead: %s, direction %s, depth %r" % (worst(nd.pos_nev, P), worst(nd.vec_nev, V), nd.md)
    # curve-hold-curve
    r = make_clc_path(w, D, c["x"], rd(c["w2"]), rd(c["D2"]), pos0=arg_p, vec0=[float(x) for x in t], radius=R)
    a, u = rarc(np.zeros(3) if c["nopos"] else p, t, n, D, R)
    b = a + u * c["x"]
    ai2, aa2 = true_angles(u)
    if math.sin(ai2) < 1e-6:
        return None
    e, z = rarc(b, u, frame_n(ai2, aa2, rd(c["w2"])), rd(c["D2"]), R)
    for k, want in (("pos1", a), ("vec1", u), ("pos2", b), ("vec2", u), ("pos3", e), ("vec3", z)):
        if not np.allclose(r[k], want, atol=1e-8 * (sc + c["x"]) if k[0] == "p" else 1e-8):
            return "path %s: %s" % (k, worst(r[k], want))
    if abs(r["dist_curve1"] - R * D) > 1e-9 * (1 + R * D) or abs(r["dist_curve2"] - R * rd(c["D2"])) > 1e-9 * (1 + R * D):
        return "path lengths"
    return None


def g2(d):
    from .p07 import gen_full
    c = gen_full(d, hi=5)
    if d.bool(.8):
        c["gsf"] = 1.0
    return dict(full=c, dm=d.real(.5, 60), dls=d.choice([None, None, 0.0, d.real(.05, 10)]), w=d.choice([None, d.real(0, 360)]), target=[d.real(5, 45), d.real(0, 360), d.real(1.5, 6)], design=d.real(.5, 8), bit=d.bool(.6), step=d.choice([10.0, 30.0]))


def ck2(c):
    import welleng as we
    from .p07 import full_survey, full_ref
    s = full_survey(c["full"])
    before = snapshot(s)
    m = len(s.md) - 1
    den = 30 if s.unit == "meters" else 100
    t1, t2 = np.array(s.vec_nev[m - 1]), np.array(s.vec_nev[m])
    dm0 = float(s.md[m] - s.md[m - 1])
    D0 = ref_angle(t1, t2)
    i, a = true_angles(t2)
    if math.sin(i) < 1e-3 or D0 > math.pi - 1e-2:
        raise Skip()
    a = float(s.azi_grid_rad[m])
    dls = c["dls"] if c["dls"] is not None else math.degrees(D0) / dm0 * den
    if c["w"] is not None:
        w = math.radians(c["w"])
        n = frame_n(i, a, w)
    else:
        if D0 < 1e-3 and dls > 0:
            if c["dls"] is not None:
                raise Skip()
            n = frame_n(i, a, 0.0)
        else:
            n = -(t1 - (t1 @ t2) * t2)
            n = n / np.linalg.norm(n) if D0 >= 1e-3 else frame_n(i, a, 0.0)
    dm = c["dm"] * (1 if den == 30 else 3)
    D = math.radians(dls) * dm / den
    if D > math.pi - 1e-2:
        raise Skip()
    p = np.array(s.pos_nev[m])
    slack = 1e-7 + (2 * D if c["w"] is None and D0 < 1e-3 else 0)
    P, V = rarc(p, t2, n, D, dm / D) if D > 1e-9 else (p + t2 * dm, t2)
    kw = {k: x for k, x in (("dls", c["dls"]), ("toolface", None if c["w"] is None else math.radians(c["w"]))) if x is not None}
    nd = s.project_to_bit(dm, **kw)
    sc = 1 + np.abs(p).max() + dm
    if not np.allclose(nd.pos_nev, P, atol=slack * sc) or not np.allclose(nd.vec_nev, V, atol=10 * slack) or abs(nd.md - s.md[m] - dm) > 1e-9 * (1 + nd.md):
        return "bit: %s, direction %s" % (worst(nd.pos_nev, P), worst(nd.vec_nev, V))
    if c["full"]["gsf"] != 1:
        return None
    # on to a target at least one and a half design radii from the bit
    R = den / math.radians(c["design"])
    b, u = (np.array(nd.pos_nev), np.array(nd.vec_nev)) if c["bit"] else (p, t2)
    h = np.cross(u, [1., 0, 0] if abs(u[0]) < .9 else [0, 1., 0])
    h /= np.linalg.norm(h)
    x, y = math.radians(c["target"][0]), math.radians(c["target"][1])
    q = b + R * c["target"][2] * (math.cos(x) * u + math.sin(x) * (math.cos(y) * h + math.sin(y) * np.cross(u, h)))
    if dls > 0 and D < 1e-7:
        raise Skip()
    r = s.project_to_target(we.node.Node(pos=list(q)), dls_design=c["design"], delta_md=dm if c["bit"] else None, step=c["step"] * (1 if den == 30 else 3), **kw)
    if snapshot_diff(before, s):
        return "the survey was changed: %s" % snapshot_diff(before, s)
    if r.unit != s.unit:
        return "unit %r" % r.unit
    tol = 1e-6 * sc + 1e-6 * R * c["target"][2] + 2e-4
    if not np.allclose(r.pos_nev[0], p, atol=tol) or abs(r.md[0] - s.md[m]) > 1e-9 * (1 + s.md[m]):
        return "does not start at the last station: %s" % worst(r.pos_nev[0], p)
    if not np.allclose(r.pos_nev[-1], q, atol=10 * tol):
        return "does not end at the target: %s" % worst(r.pos_nev[-1], q)
    if c["bit"]:
        k = int(np.argmin(np.abs(r.md - nd.md)))
        if abs(r.md[k] - nd.md) > 2e-4 or not np.allclose(r.pos_nev[k], nd.pos_nev, atol=tol + slack * sc) or not np.allclose(r.vec_nev[k], nd.vec_nev, atol=1e-5 + 10 * slack):
            return "does not pass through the bit: %s" % worst(r.pos_nev[k], nd.pos_nev)
    top = max(math.degrees(1 / R), math.degrees(D / dm) if c["bit"] else 0) * den
    if np.nanmax(r.dls[np.concatenate(([0.], np.diff(r.md))) > .5]) > top * (1 + 1e-3) + .02:
        return "turns at %r, designed for %r" % (float(np.nanmax(r.dls)), top)
    return None


def snapshot(s):
    from .p07 import snapshot as f
    return f(s)


def snapshot_diff(b, s):
    from .p07 import same_snapshot
    return same_snapshot(s, b)


DYN = [Dyn("arcs", g, ck, n=(1200, 24000)), Dyn("projections", g2, ck2, n=(300, 6000))]
