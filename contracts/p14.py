"""P14 rendering of connectors as surveys"""
from .common import *
from .p12 import frame, lin
from . import p12

FILES = ["welleng/connector.py", "welleng/survey.py", "welleng/utils.py"]
C_ = "welleng.connector."
S_ = "welleng.survey."
U = "welleng.utils."
META = dict(
    title="Interpolating connectors gives stations on their arcs and holds, end to end",
    statement="Interpolating a connector gives stations in depth order at its start, at multiples of the step and at its end, each with the direction that the curve (turning the way and as far as it turns, beyond half a turn too) or hold has at that depth. "
              "A survey from connections starts at the first connector's position and depth, passes through the start and end of every connector, ends at the target position, direction and depth, and marks exactly those ends as not interpolated. "
              "connect_points links every point to the next in order, each connector starting with the position, direction and depth the last one ended with.",
    over=["inputs", "configurations"], quantifier="all connectors of every method, all steps including none, all chains of points, start offsets and design severities",
    why="Each method is rendered by its own piecing together of curves and holds; tests check single wells in metres with small turns.",
    mechanism=[("curves", "welleng/connector.py:interpolate_curve"), ("holds", "welleng/connector.py:interpolate_hold"), ("sections", "welleng/connector.py:interpolate_well"), ("survey", "welleng/survey.py:from_connections"), ("points", "welleng/connector.py:connect_points")],
    observe_at="interpolate_well, Connector.interpolate, from_connections(...) stations, connect_points(...) nodes")


def stations(v, out, md1, L, step, endpoint):
    """depths of one section"""
    md = out["md"]
    m = md.shape[0]
    v.ensure("starts at the section's start", T.eq(v.at(md, 0), md1))
    if step is None:
        v.ensure("one station per end", T.eq(m, 2 if endpoint else 1))
    if endpoint:
        v.ensure("ends at the section's end", T.eq(v.at(md, T.isub(m, 1)), add(md1, L)))
    return m


def s_curve(v, step=True, endpoint=True):
    i, a, t, n = frame(v)
    D, L, md1 = v.real("D", gt=0), v.real("L", gt=0), v.real("md1", lo=0)
    v.assume(T.lt(D, mul(2, T.PI)), T.ne(T.sin(D), 0))
    st = v.real("step", gt=0) if step else None
    u = lin((T.cos(D), t), (T.sin(D), n))
    calls = []
    sd = T.sin(D) if v.branch(T.lt(0, T.sin(D))) else neg(T.sin(D))

    def nrm(I, x, axis=None, **k):
        calls.append(x)
        if axis is None:
            return sd
        return v.table((x.shape[0],), lambda k: T.const(1))
    v.external("numpy.linalg.norm", nrm)
    v.assume(T.le(T.const(1e-10), sd), T.lt(0, sd))
    ang = []
    v.contract(U + "get_angles", lambda I, x, nev=False: ang.append((x, nev)) or v.arr("ang", x.shape[0], 2))
    out = v.call(C_ + "interpolate_curve", md1, arr3(v, vec3(v, "p")), arr3(v, t), arr3(v, u), L, D, v.real("rf"), st, endpoint)
    x = [v.at(calls[0], c) for c in range(3)]
    v.ensure("lemma: the plane's normal has length |sin D|", T.eq(norm2(x), mul(T.sin(D), T.sin(D))))
    m = stations(v, out, md1, L, st, endpoint)
    j = cases(v, m, st, endpoint)
    s = sub(v.at(out["md"], j), md1)
    th = mul(div(D, L), s)
    w = lin((T.cos(th), t), (T.sin(th), n))
    for c in range(3):
        v.ensure("direction on the arc " + "NEV"[c], T.eq(v.at(out["vec"], j, c), w[c]))
        v.ensure("angles are those of the directions " + "NEV"[c], T.eq(v.at(ang[-1][0], j, c), w[c]))
    v.ensure("inclination and azimuth", T.land(T.eq(v.at(out["inc"], j), v.at(v.arr("ang", m, 2), j, 0)), T.eq(v.at(out["azi"], j), v.at(v.arr("ang", m, 2), j, 1)), T.TRUE if ang[-1][1] else T.FALSE))


def cases(v, m, st, endpoint):
    """the first, the last or any other station"""
    if st is None:
        return 1 if endpoint and v.branch(T.lt(v.real("case"), 0)) else 0
    j = v.idx(m)
    if v.branch(T.eq(j, 0)):
        return 0
    v.assume(T.lt(0, j))
    if endpoint:
        if v.branch(T.eq(j, T.isub(m, 1))):
            return T.isub(m, 1)
        v.assume(T.lt(j, T.isub(m, 1)))
    return j


def s_straight(v, endpoint=True):
    """a curve that does not turn"""
    i, a, t, n = frame(v)
    L, md1, st = v.real("L", gt=0), v.real("md1", lo=0), v.real("step", gt=0)
    v.external("numpy.linalg.norm", lambda I, x, axis=None, **k: T.const(0) if axis is None else v.table((x.shape[0],), lambda k: T.const(1)))
    v.contract(U + "get_angles", lambda I, x, nev=False: v.arr("ang", x.shape[0], 2))
    out = v.call(C_ + "interpolate_curve", md1, arr3(v, vec3(v, "p")), arr3(v, t), arr3(v, t), L, T.const(0), T.const(1), st, endpoint)
    m = stations(v, out, md1, L, st, endpoint)
    j = cases(v, m, st, endpoint)
    for c in range(3):
        v.ensure("direction kept " + "NEV"[c], T.eq(v.at(out["vec"], j, c), t[c]))


def s_none(v):
    t = vec3(v, "t")
    md1 = v.real("md1")
    rec = []
    v.contract(U + "get_angles", lambda I, x, nev=False: rec.append((x, nev)) or v.arr("ang", 1, 2))
    out = v.call(C_ + "interpolate_curve", md1, arr3(v, vec3(v, "p")), arr3(v, t), arr3(v, t), T.const(0), T.const(0), T.const(1), v.real("step", gt=0), False)
    v.ensure("one station", T.land(T.eq(out["md"].shape[0], 1), T.eq(v.at(out["md"], 0), md1), *[T.eq(v.at(out["vec"], 0, c), t[c]) for c in range(3)]))
    x, nev = rec[0]
    of = x if len(x.shape) == 1 else [v.at(x, 0, c) for c in range(3)]
    v.ensure("inclination and azimuth", T.land(T.eq(v.at(out["inc"], 0), v.at(v.arr("ang", 1, 2), 0, 0)), T.eq(v.at(out["azi"], 0), v.at(v.arr("ang", 1, 2), 0, 1)), T.TRUE if nev else T.FALSE,
                                               *[T.eq(v.at(of, c) if len(x.shape) == 1 else of[c], t[c]) for c in range(3)]))


def s_hold(v, step=True, endpoint=True):
    t = vec3(v, "t")
    md1, L = v.real("md1", lo=0), v.real("L", gt=0)
    st = v.real("step", gt=0) if step else None
    rec = []
    v.contract(U + "get_angles", lambda I, x, nev=False: rec.append((x, nev)) or v.arr("ang", x.shape[0], 2))
    out = v.call(C_ + "interpolate_hold", md1, arr3(v, vec3(v, "p")), arr3(v, t), add(md1, L), st, endpoint)
    m = stations(v, out, md1, L, st, endpoint)
    j = cases(v, m, st, endpoint)
    for c in range(3):
        v.ensure("direction kept " + "NEV"[c], T.land(T.eq(v.at(out["vec"], j, c), t[c]), T.eq(v.at(rec[0][0], j, c), t[c])))
    v.ensure("inclination and azimuth", T.land(T.eq(v.at(out["inc"], j), v.at(v.arr("ang", m, 2), j, 0)), T.eq(v.at(out["azi"], j), v.at(v.arr("ang", m, 2), j, 1)), T.TRUE if rec[0][1] else T.FALSE))


def s_step(v, kind):
    """stations between the ends are at multiples of the step, one step apart"""
    t = vec3(v, "t")
    md1, L, st = v.real("md1", lo=0), v.real("L", gt=0), v.real("step", gt=0)
    v.contract(U + "get_angles", lambda I, x, nev=False: v.arr("ang", x.shape[0], 2))
    v.external("numpy.linalg.norm", lambda I, x, axis=None, **k: T.const(0) if axis is None else v.table((x.shape[0],), lambda k: T.const(1)))
    if kind == "hold":
        out = v.call(C_ + "interpolate_hold", md1, arr3(v, vec3(v, "p")), arr3(v, t), add(md1, L), st, True)
    else:
        out = v.call(C_ + "interpolate_curve", md1, arr3(v, vec3(v, "p")), arr3(v, t), arr3(v, t), L, T.const(0), T.const(1), st, True)
    md = out["md"]
    m = md.shape[0]
    j = v.idx(m)
    v.assume(T.le(1, j), T.lt(T.iadd(j, 1), T.isub(m, 1)))
    v.ensure("one step apart", T.eq(sub(v.at(md, T.iadd(j, 1)), v.at(md, j)), st))
    v.assume(T.lt(2, m))
    d = sub(v.at(md, 1), md1)
    v.ensure("first step no longer than the step", T.land(T.lt(0, d), T.le(d, st)))
    v.ensure("first step ends at a multiple of the step", T.eq(v.at(md, 1), mul(st, add(T.toreal(T.floor(div(md1, st))), 1))))


PIECES = {
    "hold": [("hold", "md1", "pos1", "vec1", "md_target", True)],
    "min_curve_to_target": [("curve", "md1", "pos1", "vec1", "vec_target", "dist_curve", "dogleg", "func_dogleg", True)],
    "min_dist_to_target": [("curve", "md1", "pos1", "vec1", "vec2", "dist_curve", "dogleg", "func_dogleg", False), ("hold", "md2", "pos2", "vec2", "md_target", True)],
    "curve_hold_curve": [("curve", "md1", "pos1", "vec1", "vec2", "dist_curve", "dogleg", "func_dogleg", False), ("hold", "md2", "pos2", "vec2", "md3", False),
                         ("curve", "md3", "pos3", "vec3", "vec_target", "dist_curve2", "dogleg2", "func_dogleg2", True)],
    "min_curve": [("curve", "md1", "pos1", "vec1", "vec_target", "dist_curve", "dogleg", "func_dogleg", True)],
    "min_curve+hold": [("curve", "md1", "pos1", "vec1", "vec2", "dist_curve", "dogleg", "func_dogleg", False), ("hold", "md2", "pos2", "vec2", "md_target", True)],
}


def s_pieces(v, two):
    """every method's sections, in order, each rendered once"""
    for nm in sorted(PIECES):
        rec = []
        v.contract(C_ + "interpolate_curve", lambda I, *a, **k: rec.append(("curve", a, k)) or {"part": len(rec)})
        v.contract(C_ + "interpolate_hold", lambda I, *a, **k: rec.append(("hold", a, k)) or {"part": len(rec)})

        def mk(pre):
            at = {}
            for x in ("md1", "md2", "md3", "md_target", "dist_curve", "dist_curve2", "dogleg", "dogleg2", "func_dogleg", "func_dogleg2"):
                at[x] = v.real(pre + x)
            for x in ("pos1", "pos2", "pos3", "vec1", "vec2", "vec3", "vec_target", "pos_target"):
                at[x] = arr3(v, vec3(v, pre + x))
            if nm in ("hold", "min_curve", "min_curve_to_target"):
                at["md2"] = None
            return v.obj(C_ + "Connector", method=nm.replace("+hold", ""), **at)
        cs = [mk("a"), mk("b")] if two else [mk("a")]
        st = v.real("step", gt=0)
        r = v.call(C_ + "interpolate_well", cs if two else cs[0], st)
        want = [(o, p) for o in cs for p in PIECES[nm]]
        v.ensure("sections of a %s" % nm, T.TRUE if len(r) == len(want) == len(rec) and [x["part"] for x in r] == list(range(1, len(r) + 1)) else T.FALSE)
        for (kind, a, k), (o, p) in zip(rec, want):
            names = ["md1", "pos1", "vec1", "vec2", "dist_curve", "dogleg", "func_dogleg", "step", "endpoint"] if kind == "curve" else ["md1", "pos1", "vec1", "md2", "step", "endpoint"]
            k = dict(zip(names, a)) | dict(k)
            k.setdefault("endpoint", False)
            src = dict(zip([x for x in names if x not in ("step", "endpoint")], p[1:-1]))
            v.ensure("a %s is rendered as such" % p[0], T.TRUE if kind == p[0] else T.FALSE)
            if kind != p[0]:
                continue
            v.ensure("its end is included only if nothing follows", T.TRUE if bool(k["endpoint"]) == p[-1] else T.FALSE)
            v.ensure("at the step asked for", T.eq(k["step"], st))
            for x, y in src.items():
                w = v.get(o, y)
                if x == "pos1":
                    continue
                v.ensure("%s of the section" % x, T.land(*[T.eq(v.at(k[x], c), v.at(w, c)) for c in range(3)]) if x.startswith("vec") else T.eq(k[x], w))


def s_connect(v):
    """three points; Connector and Node by contract"""
    pts = [[v.real("p%d%d" % (k, c)) for c in range(3)] for k in range(3)]
    rec = []

    def con(I, *a, **k):
        end = v.obj("welleng.node.Node", tag=len(rec))
        rec.append((a, k, end))
        return v.obj(C_ + "Connector", node_end=end, pos_target=v.get(k["node2"], "pos"))
    nodes = []

    def node(I, pos=None, vec=None, md=None, **k):
        n = v.obj("welleng.node.Node", pos=pos, vec=vec, md=md, nev=k.get("nev", True))
        nodes.append(n)
        return n
    v.external(C_ + "Connector", con)
    v.external(C_ + "Node", node)
    v.external("numpy.allclose", lambda I, a, b, **k: True)
    t = vec3(v, "t")
    d, md0 = v.real("dls", gt=0), v.real("md0")
    from pyvc.arrays import as_arr
    P = v.table((3, 3), lambda a, b: pts[a][b]) if False else [arr3(v, p) for p in pts]
    r = v.call(C_ + "connect_points", P, t, d, True, md0)
    v.ensure("one connector between consecutive points", T.TRUE if len(r) == len(rec) == 2 else T.FALSE)
    a, b = rec[0][1], rec[1][1]
    for c in range(3):
        v.ensure("starts at the first point", T.land(T.eq(v.at(v.get(a["node1"], "pos"), c), pts[0][c]), T.eq(v.at(v.get(a["node1"], "vec"), c), t[c])))
        v.ensure("to the next point", T.land(T.eq(v.at(v.get(a["node2"], "pos"), c), pts[1][c]), T.eq(v.at(v.get(b["node2"], "pos"), c), pts[2][c])))
    v.ensure("starts at the depth given", T.eq(v.get(a["node1"], "md"), md0))
    v.ensure("continues where the last one ended", T.TRUE if b["node1"] is rec[0][2] else T.FALSE)
    v.ensure("with the design severity", T.land(T.eq(a["dls_design"], d), T.eq(b["dls_design"], d)))
    v.ensure("no direction asked for", T.TRUE if v.get(a["node2"], "vec") is None else T.FALSE)


SPECS = [Spec("curve", s_curve), Spec("curve/before more", lambda v: s_curve(v, True, False)), Spec("curve/ends only", lambda v: s_curve(v, False, True)), Spec("curve/straight", s_straight), Spec("curve/no length", s_none),
         Spec("hold", s_hold), Spec("hold/before more", lambda v: s_hold(v, True, False)), Spec("hold/ends only", lambda v: s_hold(v, False, True)), Spec("steps/hold", lambda v: s_step(v, "hold")), Spec("steps/curve", lambda v: s_step(v, "curve")),
         Spec("sections", lambda v: s_pieces(v, False)), Spec("sections/two connectors", lambda v: s_pieces(v, True)), Spec("points", s_connect)]

# ------------------------------------------------------------------ dynamic
def g(d):
    c = dict(kind=d.choice(["one", "one", "chain", "points", "points"]), step=d.choice([None, 10.0, 30.0, d.real(1, 200), d.real(1, 200)]), start_nev=[d.real(-5000, 5000, (0.0,)) for _ in range(3)] if d.bool(.6) else None,
             radius=d.real(.05, 20, (10.0,)), unit=d.choice(["meters", "feet"]), deg=False)
    c["con"] = p12.g(d)
    c["con"].update(mode=d.choice(["pos", "pos", "pos+one", "dir", "dir+md", "one", "md", "ahead", "chc", "chc"]), node=False)
    c["more"] = [dict(rel=[d.real(0, 75), d.real(0, 360)], dist=d.real(.2, 4), dls=d.real(.5, 12)) for _ in range(d.int(1, 5))]
    c["ints"] = d.bool(.2)
    c["md0"] = d.real(0, 2000, (0.0,))
    c["one_dls"] = d.bool(.6)
    c["xyz"] = d.bool(.3)
    c["axis"] = d.bool(.4)
    return c


def pieces(C):
    """(kind, start depth, start position, start direction, length, angle turned, end direction) of a connector, from its own solution"""
    p1, t = np.asarray(C.pos1, float).reshape(3), np.asarray(C.vec1, float).reshape(3)
    u, MD, md1 = np.asarray(C.vec_target, float).reshape(3), float(np.asarray(C.md_target).reshape(())), float(C.md1)
    m = C.method
    v = lambda x: np.asarray(x, float).reshape(3)
    if m == "hold":
        return [(md1, t, MD - md1, 0.0, t)]
    L, D = float(C.dist_curve), float(C.dogleg)
    if m == "min_curve_to_target" or (m == "min_curve" and C.md2 is None):
        return [(md1, t, L, D, u)]
    w = v(C.vec2)
    if m in ("min_dist_to_target", "min_curve"):
        return [(md1, t, L, D, w), (md1 + L, w, MD - md1 - L, 0.0, w)]
    H = float(C.md3 - C.md2)
    return [(md1, t, L, D, w), (md1 + L, w, H, 0.0, w), (md1 + L + H, w, float(C.dist_curve2), float(C.dogleg2), u)]


def ambiguous(ps):
    """curves whose plane is not determined by their two directions"""
    for _, t, L, D, u in ps:
        if D > 1 and abs(math.sin(D)) < 1e-3:
            return True
        if D <= 1 and 0 < D < 1e-6:
            return True
    return False


def direction(p, s):
    """the direction a length s into a section"""
    _, t, L, D, u = p
    if D == 0 or L == 0:
        return t
    n = u - (u @ t) * t
    n = n / np.linalg.norm(n)
    if math.sin(D) < 0:
        n = -n
    x = D * s / L
    return math.cos(x) * t + math.sin(x) * n


def at_depth(ps, md):
    for p in ps:
        if md <= p[0] + p[2] + 1e-9 * (1 + abs(md)):
            return direction(p, min(max(md - p[0], 0), p[2]))
    return direction(ps[-1], ps[-1][2])


def build(c):
    import welleng as we
    k = c["kind"]
    if k == "one":
        kw, ex = p12.build(c["con"])
        if "u" in ex and ref_angle(ex["t"], ex["u"]) > math.pi - 1e-3:
            raise Skip()
        if "q" in ex and c["con"]["mode"] != "chc":
            dq = ex["q"] - ex["p"]
            x = float(dq @ ex["t"])
            y = float(np.linalg.norm(dq - x * ex["t"]))
            if abs(y - 2 * ex["R"]) < 1e-4 * ex["R"] or y < 1e-5 * float(np.linalg.norm(dq)) and c["con"]["mode"] != "ahead":
                raise Skip()
        return [we.connector.Connector(**kw)], None, [ex["q"]] if "q" in ex else None
    # a chain of targets, each within 75 degrees of where the last leg ended
    t0 = np.array([0., 0., 1.]) if c["axis"] else ref_tan(*np.radians(c["con"]["start"]))
    p = np.array(c["con"]["pos1"], float)
    if c["ints"]:
        p = np.round(p)
    pts, dls = [p], []
    cons = []
    t = t0
    for m in c["more"]:
        h = np.cross(t, [1., 0, 0] if abs(t[0]) < .9 else [0, 1., 0])
        h /= np.linalg.norm(h)
        w, x = math.radians(m["rel"][1]), math.radians(m["rel"][0])
        to = math.cos(x) * t + math.sin(x) * (math.cos(w) * h + math.sin(w) * np.cross(t, h))
        dl = c["more"][0]["dls"] if c["one_dls"] else m["dls"]
        q = p + to * 30 / math.radians(dl) * (.05 + m["dist"])
        if c["ints"]:
            q = np.round(q)
        if np.linalg.norm(q - p) < 2:
            raise Skip()
        pts.append(q)
        dls.append(dl)
        n1 = we.node.Node(pos=list(p), vec=list(t), md=c["md0"]) if not cons else cons[-1].node_end
        cn = we.connector.Connector(node1=n1, node2=we.node.Node(pos=list(q)), dls_design=dl)
        cons.append(cn)
        dq = q - p
        x = float(dq @ t)
        y = float(np.linalg.norm(dq - x * t))
        R = 30 / math.radians(dl)
        if abs(y - 2 * R) < 1e-4 * R or y < 1e-5 * float(np.linalg.norm(dq)) and cn.method != "hold":
            raise Skip()
        t, p = np.asarray(cn.vec_target, float).reshape(3), q
    if k == "chain":
        return cons, None, pts[1:]
    arg = [[float(x) for x in q] for q in pts]
    vs = [float(x) for x in t0]
    if c["ints"]:
        arg = [[int(x) for x in q] for q in pts]
    if c["xyz"]:
        arg = [[q[1], q[0], q[2]] for q in arg]
        vs = [vs[1], vs[0], vs[2]]
    return cons, (arg, vs, dls[0] if c["one_dls"] else [dls[0]] + dls), pts[1:]


def ck(c):
    import welleng as we
    import copy
    cons, args, targets = build(c)
    if args:
        keep = copy.deepcopy(args)
        got = we.connector.connect_points(args[0], vec_start=args[1], dls_design=args[2], nev=not c["xyz"], md_start=c["md0"])
        if args != keep:
            return "the points were changed"
        if len(got) != len(cons):
            return "%d connectors for %d points" % (len(got), len(args[0]))
        for k, (a, b) in enumerate(zip(got, cons)):
            for x in ("pos1", "vec1", "md1", "pos_target", "vec_target", "md_target"):
                if not close(np.asarray(getattr(a, x), float).reshape(-1), np.asarray(getattr(b, x), float).reshape(-1), 1e-7, 1e-6):
                    return "connector %d %s: %s" % (k, x, worst(getattr(a, x), getattr(b, x)))
        cons = got
    for k in range(1, len(cons)):
        a, b = cons[k - 1], cons[k]
        if not (close(a.pos_target, b.pos1, 1e-9, 1e-9) and close(a.vec_target, b.vec1, 1e-9, 1e-9) and abs(a.md_target - b.md1) <= 1e-9 * (1 + abs(b.md1))):
            return "connector %d does not start where %d ended" % (k, k - 1)
    ps = [pieces(C) for C in cons]
    for q in ps:
        for s in q:
            if not (s[2] >= -1e-9 and all(math.isfinite(x) for x in (s[0], s[2], s[3]))):
                raise Skip()    # P12's business
            if s[2] < 1e-3 and s[3] > 1e-6:
                raise Skip()
    if ambiguous(sum(ps, [])):
        raise Skip()
    total = sum(s[2] for q in ps for s in q)
    step = c["step"]
    if total < 1e-2:
        raise Skip()
    if step is not None and total / step > 3000:
        step = total / 3000
    for C, q in zip(cons, ps):
        md1, MD = q[0][0], q[-1][0] + q[-1][2]
        out = C.interpolate(step) if hasattr(C, "interpolate") else we.connector.interpolate_well(C, step)
        md = np.concatenate([x["md"] for x in out])
        vec = np.concatenate([x["vec"] for x in out])
        tol = 1e-9 * (1 + abs(MD))
        if len(md) != len(vec) or abs(md[0] - md1) > tol or abs(md[-1] - MD) > 1e-7 * (1 + abs(MD)):
            return "from %r to %r instead of %r to %r" % (md[0], md[-1], md1, MD)
        if np.any(np.diff(md) < -tol):
            return "depths go back"
        ends = [s[0] for s in q] + [MD]
        free = [x for x in md if min(abs(x - e) for e in ends) > 1e-6 * (1 + abs(x))]
        if step is None:
            if free:
                return "stations inside a section although none were asked for: %r" % free[:3]
        else:
            for x in free:
                if abs(x / step - round(x / step)) * step > 1e-6 * (1 + abs(x)):
                    return "station at %r is not at a multiple of %r" % (x, step)
            want = [k * step for k in range(math.floor(md1 / step), math.ceil(MD / step) + 1)]
            for x in want:
                if md1 + 1e-6 < x < MD - 1e-6 and np.abs(md - x).min() > 1e-6 * (1 + abs(x)):
                    return "no station at %r" % x
        for e in ends:
            if np.abs(md - e).min() > 1e-7 * (1 + abs(e)):
                return "no station at the end of a section at %r" % e
        ang = np.column_stack([np.concatenate([x["inc"] for x in out]), np.concatenate([x["azi"] for x in out])])
        for x, w, a in zip(md, vec, ang):
            if not np.allclose(w, at_depth(q, x), atol=1e-5):
                return "direction at %r: %s" % (x, worst(w, at_depth(q, x)))
            if not np.allclose(ref_tan(*a), w, atol=1e-7):
                return "angles at %r are not those of its direction" % x
    # as a survey
    kw = {}
    off = np.zeros(3)
    if c["start_nev"] is not None:
        kw["start_nev"] = list(c["start_nev"])
        off = np.array(c["start_nev"])
    arg = cons if len(cons) > 1 or c["radius"] > 5 else cons[0]
    s = we.survey.from_connections(arg, step=step, radius=c["radius"], depth_unit=c["unit"], surface_unit=c["unit"], **kw)
    if kw and kw["start_nev"] != c["start_nev"]:
        return "start_nev changed"
    MD = ps[-1][-1][0] + ps[-1][-1][2]
    scale = 1 + abs(MD) + float(np.abs(s.pos_nev).max())
    if not np.allclose(s.pos_nev[0], np.asarray(cons[0].pos1, float).reshape(3) + off, atol=1e-9 * scale):
        return "start: %s" % worst(s.pos_nev[0], np.asarray(cons[0].pos1).reshape(3) + off)
    if abs(s.md[0] - cons[0].md1) > 1e-9 * scale or abs(s.md[-1] - MD) > 2e-4:
        return "depths %r to %r" % (s.md[0], s.md[-1])
    if np.any(np.diff(s.md) <= 0) or not np.all(np.isfinite(s.pos_nev)):
        return "not a survey"
    if np.any(s.radius != c["radius"]) or s.unit != c["unit"]:
        return "radius or unit lost"
    ends = sorted({float(C.md1) for C in cons} | {float(np.asarray(C.md_target).reshape(())) for C in cons})
    flag = [k for k in range(len(s.md)) if not s.interpolated[k]]
    wantf = sorted({int(np.argmin(np.abs(s.md - e))) for e in ends})
    if flag != wantf or max(abs(s.md[k] - e) for k, e in zip(wantf, ends) if len(wantf) == len(ends)) > 2e-4 if len(wantf) == len(ends) else flag != wantf:
        return "marked as given: %r, the ends of the connectors: %r" % (s.md[flag], ends)
    for k in range(len(s.md)):
        md = s.md[k]
        ws = [at_depth(q, md) for q in ps if q[0][0] - 1e-3 <= md <= q[-1][0] + q[-1][2] + 1e-3]
        lo = min(p[2] for q in ps for p in q if p[3] > 0) if any(p[3] > 0 for q in ps for p in q) else 1
        if not any(np.allclose(s.vec_nev[k], w, atol=1e-5 + 2e-4 * max([p[3] / p[2] for q in ps for p in q if p[2] > 0] + [0])) for w in ws):
            return "survey direction at %r: %s" % (md, worst(s.vec_nev[k], ws[0] if ws else [0, 0, 0]))
    # positions of the ends; minimum curvature follows arcs that turn less than half a turn between stations
    if all(p[3] < math.pi - 1e-2 or (step is not None and p[3] * step / p[2] < math.pi - 1e-2) for q in ps for p in q):
        for C in cons:
            k = int(np.argmin(np.abs(s.md - float(np.asarray(C.md_target).reshape(())))))
            d = float(np.linalg.norm(np.asarray(C.pos_target, float).reshape(3) - np.asarray(C.pos1, float).reshape(3)))
            want = np.asarray(C.pos_target, float).reshape(3) + off
            if np.linalg.norm(s.pos_nev[k] - want) > 3e-4 * d + 3e-4 + 1e-6 * scale:
                return "the survey misses the end of a connector: %s" % worst(s.pos_nev[k], want)
    return None


DYN = [Dyn("rendering", g, ck, n=(900, 20000))]
