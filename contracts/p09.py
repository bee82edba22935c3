"""P09 interpolation at a vertical depth"""
from .common import *
from fractions import Fraction
from pyvc.arrays import as_arr
from .p07 import gen_full, full_survey, full_ref, ref_at, snapshot, same_snapshot

FILES = ["welleng/survey.py"]
S_ = "welleng.survey."
META = dict(
    title="Interpolating at a vertical depth finds the survey's point at that depth",
    statement="For every survey that descends throughout and every true vertical depth between its first and last station, interpolate_tvd returns a node at that vertical depth whose measured depth, position and direction are those of the survey's own arc there. "
              "interpolate_survey_tvd returns the original stations, flagged as such, and between them one interpolated point at every multiple of the step below the first station, each on the survey's arc, and leaves the survey unchanged.",
    over=["inputs", "configurations"], quantifier="all descending surveys with doglegs below 86 degrees, all depths and steps",
    why="The quadratic in the half-angle tangent has two roots and cancels badly when the dogleg is small; tests use one depth of one well.",
    mechanism=[("root selection", "welleng/survey.py:interpolate_tvd"), ("stepping", "welleng/survey.py:interpolate_survey_tvd"), ("node", "welleng/survey.py:get_node_tvd")],
    observe_at="Node returned by interpolate_tvd; Survey returned by interpolate_survey_tvd")


def s_root(v, straight=False, origin=False):
    """the along-hole distance chosen solves the arc's vertical equation (interval step and node under contract in P07)
    origin: the survey's interval is the rest of an arc that began at an earlier node"""
    n, h, s = survey_obj(v)
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    s.attrs["vec_nev"] = v.arr("t", n, 3)
    tvd, md, D_ = v.get(s, "tvd"), v.get(s, "md"), v.get(s, "dogleg")
    v.forall(T.isub(n, 1), lambda i: T.lt(v.at(tvd, i), v.at(tvd, T.iadd(i, 1))))
    rec = []

    def step(I, survey, x=0, index=0):
        rec.append((x, index))
        return survey
    v.contract(S_ + "_interpolate_survey", step)
    v.contract(S_ + "get_node", lambda I, *a, **k: (a, k))
    v.external("numpy.searchsorted", lambda I, a, x, side="left", **kw: T.iadd(k, 1))
    D, L = v.at(D_, k1), sub(v.at(md, k1), v.at(md, k))
    v.assume(T.lt(0, L))
    v1, v2 = [v.at(v.get(s, "vec_nev"), j, 2) for j in (k, k1)]
    z0, m0, kw, arcs = v.at(tvd, k), v.at(md, k), {}, []
    if origin:
        z0, m0, v1 = v.real("z0"), v.real("m0"), v.real("t0")
        v.assume(T.le(m0, v.at(md, k)))
        o = v.obj("welleng.node.Node", md=m0, inc_rad=v.real("inc0"), azi_rad=v.real("azi0"), pos_nev=arr3(v, [v.real("n0"), v.real("e0"), z0]), vec_nev=arr3(v, [v.real("tn0"), v.real("te0"), v1]))
        kw = dict(node_origin=o)
        L = sub(v.at(md, k1), m0)
        v.assume(T.lt(0, L))
        D0, D = D, 0 if straight else v.real("D")

        def arc(I, *a, **q):
            q = dict(zip(("md", "inc", "azi", "n", "e", "tvd", "x", "y", "z", "vec", "nev", "header"), a), **q)
            arcs.append(q)
            return v.obj("welleng.survey.Survey", dogleg=as_arr([Fraction(0), D]))
        v.external(S_ + "Survey", arc)

    def arc_asked():
        if origin:
            q = arcs[0]
            v.ensure("the arc from the origin", T.land(T.TRUE if q.get("deg") is False else T.FALSE, *[T.eq(v.at(as_arr(q[a]) if isinstance(q[a], (list, tuple)) else q[a], i), w)
                     for a, at, b in (("md", "md", "md"), ("inc", "inc_rad", "inc_rad"), ("azi", "azi_rad", "azi_grid_rad")) for i, w in ((0, v.get(o, at)), (1, v.at(v.get(s, b), k1)))]))
    v.assume(T.lt(0, v1), T.lt(0, v2))
    if straight:
        v.assume(T.eq(v.at(D_, k1), 0))
        t = v.real("t")
        v.assume(T.le(v.at(tvd, k), t), T.le(t, v.at(tvd, k1)), T.lt(v.at(tvd, k), v.at(tvd, k1)))
        v.call(S_ + "interpolate_tvd", s, t, **kw)
        x, i = rec[0]
        H, L = sub(t, v.at(tvd, k)), sub(v.at(md, k1), v.at(md, k))
        v.ensure("interval", T.eq(i, k))
        v.ensure("depth in proportion", T.eq(mul(x, sub(v.at(tvd, k1), v.at(tvd, k))), mul(H, L)))
        v.ensure("within the interval", T.land(T.le(0, x), T.le(x, L)))
        arc_asked()
        return
    # every vertical depth inside the interval is that of the arc's point at some angle 2e in (0, D) (the arc descends throughout)
    # (the sine and cosine of the dogleg are any two numbers, the sine positive; q = tan e)
    v.assume(T.lt(0, D), T.lt(D, T.PI))
    SD, CD = v.real("sinD", gt=0), v.real("cosD")
    for m in ("numpy", "math"):
        v.external(m + ".sin", lambda I, x, *r, **kw: SD if x is D else T.sin(x))
        v.external(m + ".cos", lambda I, x, *r, **kw: CD if x is D else T.cos(x))
    e, q = v.real("e", gt=0), v.real("q", gt=0)
    d0 = mul(2, e)
    v.assume(T.lt(d0, D), T.lt(mul(2, e), T.PI))
    a, b = mul(v1, SD), sub(mul(v1, CD), v2)
    half = sub(a, mul(b, q))                                        # rate of descent half way there (times sin D / cos e)
    full = sub(mul(a, sub(1, mul(q, q))), M(2, b, q))               # rate of descent there (times sin D / cos^2 e)
    v.assume(T.lt(0, half), T.lt(0, full))
    # travelled: (L/D)(sin 2e v1 + (1 - cos 2e) (v2 - cos D v1)/sin D)
    s2, c2 = div(mul(2, q), add(1, mul(q, q))), div(sub(1, mul(q, q)), add(1, mul(q, q)))
    H = mul(div(L, D), add(mul(s2, v1), mul(sub(1, c2), div(sub(v2, mul(CD, v1)), SD))))
    t = add(z0, H)
    seen = []
    pos = div(M(2, q, half), add(1, mul(q, q)))

    vel = div(mul(2, full), add(1, mul(q, q)))
    base = list(v.ctx.hyps)

    root = div(full, add(1, mul(q, q)))     # positive, and its square is the discriminant of the half-angle quadratic

    def positive(y):
        return v.same(y, pos, 15, base) or v.holds(T.lt(0, y), 6, base)

    def atan2(I, y, x, *r, **kw):
        # lemmas of arctan2: (i) y = x tan e and x + y tan e > 0 give arctan2(y, x) = e (0 < e < pi/2);
        # (ii) for y > 0 it lies in (0, pi) and decreases in x
        y, x = T.toreal(y), T.toreal(x)
        for z in T.subterms([x, y]):
            if z.op == "sqrt" and v.same(z.args[0], mul(root, root), 15, base):
                y, x = T.subst(y, {z: root}), T.subst(x, {z: root})
        if v.same(y, mul(x, q), 15, base):
            p = add(x, mul(y, q))
            from pyvc.arrays import Unsupported
            if positive(y) or v.holds(T.lt(0, p), 6, base):
                seen.append((y, x))
                return e
            if positive(neg(y)) or v.holds(T.lt(p, 0), 6, base):
                return sub(e, T.PI)
            raise Unsupported("sign of an arctan2 argument")
        th = I.ctx.fresh("theta")
        I.ctx.assume(T.le(th, T.PI))
        I.ctx.assume(T.lt(neg(T.PI), th))
        if positive(y):
            I.ctx.assume(T.lt(0, th))
            I.ctx.assume(T.lt(th, T.PI))
            for y1, x1 in seen:
                if v.same(y, y1, 3, base) and (v.same(sub(x1, x), vel, 15, base) or v.holds(T.lt(x, x1), 6, base)):
                    I.ctx.assume(T.lt(e, th))
        return th
    v.external("numpy.arctan2", atan2)
    v.cut("inside the interval", T.lt(mul(div(d0, D), L), L))
    v.call(S_ + "interpolate_tvd", s, t, **kw)
    x, i = rec[0]
    v.ensure("interval", T.eq(i, k))
    v.ensure("the distance chosen is the one along the arc", T.eq(x, sub(div(mul(d0, L), D), sub(v.at(md, k), m0))))
    arc_asked()


def s_node(v):
    """get_node_tvd: the hole from one node on to the other's depth and direction, and the point on it at that depth"""
    N_ = "welleng.node.Node"
    n1 = v.obj(N_, md=v.real("m1"), pos_nev=v.arr("p1", 3), pos_xyz=v.arr("x1", 3))
    n2 = v.obj(N_, md=v.real("m2"), pos_nev=v.arr("p2", 3), pos_xyz=v.arr("x2", 3))
    o, s, out, con, svy = [v.obj(q) for q in (N_, "welleng.survey.Survey", N_, "welleng.connector.Connector", "welleng.survey.Survey")]
    t, calls = v.real("t"), []

    def connect(I, *a, **k):
        import inspect
        from welleng.connector import Connector
        b = inspect.signature(Connector.__init__).bind(None, *a, **k).arguments
        calls.append(("connect", b.pop("node1"), b.pop("node2"), v.get(n2, "pos_nev"), v.get(n2, "pos_xyz"), {q for q in b if b[q] is not None and q not in ("dls_design", "self")}))
        return con

    def survey(I, *a, **k):
        import inspect
        from welleng.survey import from_connections
        b = inspect.signature(from_connections).bind(*a, **k).arguments
        calls.append(("survey", b))
        return svy

    def point(I, q, tvd, **k):
        calls.append(("point", q, tvd, k.get("node_origin")))
        return out
    v.external(S_ + "Connector", connect)
    v.contract(S_ + "from_connections", survey)
    v.contract(S_ + "interpolate_tvd", point)
    r = v.call(S_ + "get_node_tvd", s, n1, n2, t, o)
    a, b, c = calls
    yes = lambda x: T.TRUE if x else T.FALSE
    v.ensure("connects the two nodes, the second's position free", yes(a[:1] == ("connect",) and a[1] is n1 and a[2] is n2 and a[3] is None and a[4] is None and not a[5]))
    v.ensure("as one survey without points between", yes(b[0] == "survey" and (b[1]["section_data"] is con or list(b[1]["section_data"])[0] is con) and b[1].get("step") is None))
    v.ensure("the point at the depth asked for, on the arc from the origin", yes(c[0] == "point" and c[1] is svy and c[3] is o and r is out))
    v.ensure("depth", T.eq(c[2], t))


def s_steps(v, counts):
    """interpolate_survey_tvd: the points at the multiples of the step, between the stations they lie between (the point at a depth by contract)"""
    n, h, s = survey_obj(v, n=len(counts) + 1)
    N = len(counts) + 1
    md, t = v.get(s, "md"), v.get(s, "tvd")
    step = v.real("step", gt=0)
    tv, m = [v.at(t, j) for j in range(N)], [v.at(md, j) for j in range(N)]
    tot, rows = 0, [("station", 0)]
    for j, c in enumerate(counts):
        v.assume(T.lt(m[j], m[j + 1]), T.lt(tv[j], tv[j + 1]))
        if c:
            v.assume(T.lt(tv[j], add(tv[0], mul(tot + 1, step))))
        rows += [("point", q) for q in range(tot + 1, tot + c + 1)] + [("station", j + 1)]
        tot += c
        v.assume(T.lt(add(tv[0], mul(tot, step)), tv[j + 1]), T.lt(tv[j + 1], add(tv[0], mul(tot + 1, step))))
    made, asked, S_made = {}, [], []

    def station(j):
        o = v.obj("welleng.node.Node", md=m[j], inc_rad=v.real("inc%d" % j), azi_rad=v.real("azi%d" % j), interpolated=False, pos_nev=arr3(v, [v.real("n%d" % j), v.real("e%d" % j), tv[j]]), pos_xyz=None)
        made.setdefault(("station", j), []).append(o)
        return o

    def at_md(I, o, x):
        for j in range(N):
            if v.same(x, m[j]):
                return station(j)
        raise AssertionError

    def at_tvd(I, survey, a, b, x, origin=None):
        q = len(asked) + 1
        o = v.obj("welleng.node.Node", md=v.real("pm%d" % q), inc_rad=v.real("pi%d" % q), azi_rad=v.real("pa%d" % q), interpolated=False, pos_nev=arr3(v, [v.real("pn%d" % q), v.real("pe%d" % q), x]), pos_xyz=None)
        made[("point", q)] = [o]
        asked.append((survey, a, b, x, origin))
        # its depth is between those of the nodes it lies between
        v.assume(T.lt(v.get(a, "md"), v.get(o, "md")), T.lt(v.get(o, "md"), v.get(b, "md")))
        return o
    v.contract(S_ + "get_node", lambda I, survey, i, *a, **k: station(i if isinstance(i, int) else int(T.numval(i))))
    v.contract(S_ + "Survey.interpolate_md", at_md)
    v.contract(S_ + "interpolate_md", lambda I, o, x: at_md(I, o, x))
    v.contract(S_ + "get_node_tvd", at_tvd)
    v.external("numpy.isclose", lambda I, a, b, *r, **k: T.eq(a, b))
    v.external(S_ + "Survey", lambda I, *a, **k: S_made.append(dict(zip(("md", "inc", "azi"), a), **k)) or v.obj(S_ + "Survey"))
    v.call(S_ + "interpolate_survey_tvd", s, step=step)
    v.ensure("points asked for", T.TRUE if len(asked) == tot else T.FALSE)
    for q, (survey, a, b, x, origin) in enumerate(asked):
        v.ensure("point %d at a multiple of the step below the first station" % (q + 1), T.eq(x, add(tv[0], mul(q + 1, step))))
        j = [r for r in rows[:rows.index(("point", q + 1))] if r[0] == "station"][-1][1]
        v.ensure("of that survey, towards the next station %d" % (q + 1), T.land(T.TRUE if survey is s else T.FALSE, T.eq(v.get(b, "md"), m[j + 1]), T.eq(v.get(origin, "md"), m[j])))
    k = S_made[0]
    v.ensure("number of stations", T.TRUE if k["md"].shape[0] == len(rows) else T.FALSE)
    for i, r in enumerate(rows):
        o = made[r][0]
        for q, w in (("md", "md"), ("inc", "inc_rad"), ("azi", "azi_rad")):
            v.ensure("listing %d %s" % (i, q), T.eq(v.at(k[q], i), v.get(o, w)))
        v.ensure("flag %d" % i, T.eq(T.tobool(v.at(k["interpolated"], i)), T.TRUE if r[0] == "point" else T.FALSE))
    v.ensure("start, unit and angles", T.land(T.TRUE if k["deg"] is False and k["unit"] == v.get(s, "unit") and v.get(k["header"], "azi_reference") == "grid" else T.FALSE,
                                              *[T.eq(v.at(k[q], c), v.at(v.get(s, q), c)) for q in ("start_nev", "start_xyz") for c in range(3)]))


SPECS = [Spec("root", s_root), Spec("straight", lambda v: s_root(v, True)), Spec("root/origin", lambda v: s_root(v, False, True)), Spec("straight/origin", lambda v: s_root(v, True, True)), Spec("node", s_node)]
SPECS += [Spec('steps/%s' % '+'.join(map(str, c)), lambda v, c=c: s_steps(v, c), bounded='stations with %s points between' % ' and '.join(map(str, c))) for c in ((2,), (0, 2), (1, 1), (2, 0, 1))]


def g(d):
    c = gen_full(d, maxdl=1.5, hi=6, maxinc=88.0)
    P, _ = full_ref(c)
    z = P[:, 2] + c["nev"][2]
    c["q"] = [d.choice(list(z)) if d.bool(.2) else d.real(z[0], z[-1]) for _ in range(4)]
    return c


def ck(c):
    s = full_survey(c)
    ref = full_ref(c)
    z = ref[0][:, 2] + c["nev"][2]
    if np.any(np.diff(z) < 1e-3):
        raise Skip
    snap = snapshot(s)
    sc = 1 + np.abs(ref[0]).max() + max(abs(x) for x in c["nev"])
    for t in c["q"]:
        t = min(max(t, s.tvd[0]), s.tvd[-1])
        nd = s.interpolate_tvd(t)
        if not close(nd.pos_nev[2], t, 1e-8, 1e-7 * sc):
            return "asked for vertical depth %r, got %r" % (t, nd.pos_nev[2])
        p, u, k = ref_at(c, nd.md, ref)
        if not c["md"][0] - 1e-6 <= nd.md <= c["md"][-1] + 1e-6:
            return "measured depth %r is outside the survey" % nd.md
        if not close(nd.pos_nev, p, 1e-7, 1e-7 * sc) or not close(nd.vec_nev, u, 1e-6, 1e-6):
            return "node at vertical depth %r is not on the survey: %s, %s" % (t, worst(nd.pos_nev, p), worst(nd.vec_nev, u))
        if not nd.interpolated and min(abs(nd.md - m) for m in c["md"]) > 1e-5 * (1 + nd.md):
            return "point at %r is not a station but flagged so" % nd.md
    return same_snapshot(s, snap)


def gs(d):
    c = gen_full(d, maxdl=1.3, hi=5, maxinc=80.0)
    c["step"] = d.choice([10, 30, 7.7, 100, d.real(3, 60)])
    c["start"] = None
    return c


def cks(c):
    s = full_survey(c)
    ref = full_ref(c)
    z = ref[0][:, 2] + c["nev"][2]
    if np.any(np.diff(z) < .5) or np.any(np.diff(c["md"]) < 1):
        raise Skip
    snap = snapshot(s)
    r = s.interpolate_survey_tvd(step=c["step"])
    tol = 2e-5 * (1 + max(c["md"]))
    sc = 1 + np.abs(ref[0]).max()
    st = [m for m, f in zip(r.md, r.interpolated) if not f]
    if not close(st, c["md"], 0, tol):
        return "stations kept: %s of %s" % (st, c["md"])
    for j, m in enumerate(r.md):
        p, u, k = ref_at(c, m, ref)
        if not close(r.pos_nev[j], p, 1e-7, 1e-6 * sc + 1e-3) or not close(r.vec_nev[j], u, 1e-5, 1e-4):
            return "point at %r is not on the survey: %s, %s" % (m, worst(r.pos_nev[j], p), worst(r.vec_nev[j], u))
    e = z[0] + c["step"] * np.arange(1, int((z[-1] - z[0]) / c["step"]) + 2)
    iv = np.array([t for t, f in zip(r.tvd, r.interpolated) if f])
    # a plane closer to a station than the code's own resolution may be merged with it
    for t in e:
        if t < z[-1] - tol and np.abs(z - t).min() > 2 * tol and not (len(iv) and np.abs(iv - t).min() < 2 * tol):
            return "no point at vertical depth %r" % t
    for t in iv:
        if np.abs(e - t).min() > 2 * tol:
            return "point at vertical depth %r is not at a multiple of the step" % t
    return same_snapshot(s, snap)


DYN = [Dyn("interpolate_tvd", g, ck, n=(1500, 20000)), Dyn("interpolate_survey_tvd", gs, cks, n=(150, 2000))]
