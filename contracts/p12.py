"""P12 connector end conditions"""
from .common import *

FILES = ["welleng/connector.py", "welleng/utils.py"]
C_ = "welleng.connector."
U = "welleng.utils."
META = dict(
    title="A connector starts where asked and ends where asked",
    statement="A Connector keeps the start position, direction and depth it was given and meets the target it was given: with a target position (reached by a hold, a curve and hold, or a single curve) the path ends there, with a target direction it ends in that direction, with a target depth at that depth, with closest approach at the point of the design-radius arc nearest to the target. "
              "Curves are arcs whose length is radius times the angle they turn, with the design radius, or the critical radius where only a tighter one reaches the target; the hold starts at the end of the curve in its final direction. "
              "A curve-hold-curve path is always continuous in position, direction and depth, and for targets at least five design radii away that lie within 80 degrees of both directions ends within a ten-thousandth of the distance to the target.",
    over=["inputs", "configurations"], quantifier="all starts, targets, depths and design severities, all permitted combinations of target inputs",
    why="There are 32 combinations of target inputs dispatched to five solvers; tests run single examples of each and cannot show that the closed forms hold for every geometry.",
    mechanism=[("dispatch", "welleng/connector.py:Connector._get_method"), ("curve-hold", "welleng/connector.py:min_dist_to_target"), ("single curve", "welleng/connector.py:min_curve_to_target"), ("direction", "welleng/connector.py:get_vec_target"),
               ("direction only", "welleng/connector.py:Connector._min_curve"), ("curve-hold-curve", "welleng/connector.py:Connector._happy_finish")],
    observe_at="Connector.pos_target, vec_target, md_target, pos2, pos3, dist_curve, tangent_length, dogleg, node_end")


def frame(v):
    """a start with direction t and a unit normal n: every plane through t arises"""
    i, a, w = v.real("i", lo=0), v.real("a"), v.real("w")
    v.assume(T.le(i, T.PI))
    t = tangent(i, a)
    h = [mul(T.cos(i), T.cos(a)), mul(T.cos(i), T.sin(a)), neg(T.sin(i))]
    r = [neg(T.sin(a)), T.cos(a), T.const(0)]
    n = [add(mul(T.cos(w), h[c]), mul(T.sin(w), r[c])) for c in range(3)]
    return i, a, t, n


def lin(*ps):
    """linear combination of vectors: (coefficient, vector)*"""
    return [S(*[mul(k, x[c]) for k, x in ps]) for c in range(3)]


def use_arctan2(v, h):
    """lemma: arctan2(k sin h, k cos h) = h for k > 0 and h - pi for k < 0, 0 < h < pi"""
    def m(I, y, x, *r, **kw):
        y, x = T.toreal(y), T.toreal(x)
        from pyvc.arrays import Unsupported
        if not v.same(mul(y, T.cos(h)), mul(x, T.sin(h)), 15):
            raise Unsupported("arctan2 of an unexpected ratio")
        p = add(mul(x, T.cos(h)), mul(y, T.sin(h)))
        if I.ctx.branch(T.lt(0, p)):
            return h
        I.ctx.assume(T.lt(p, 0))
        return sub(h, T.PI)
    v.external("numpy.arctan2", m)


def half_angle(v):
    h = v.real("h", gt=0)
    v.assume(T.lt(h, T.PI), T.lt(0, T.sin(h)))
    return h


def s_md(v):
    """the radius, hold and angle of a curve and hold that reach a target at these distances"""
    h, R, Tn = half_angle(v), v.real("R", gt=0), v.real("T", lo=0)
    s, c = M(2, T.sin(h), T.cos(h)), sub(1, M(2, T.sin(h), T.sin(h)))
    perp, nrm = add(mul(R, s), mul(Tn, c)), add(mul(R, sub(1, c)), mul(Tn, s))
    v.assume(T.lt(0, nrm))
    # not the listed finding: an offset of exactly two radii
    v.assume(T.ne(sub(mul(R, T.cos(h)), mul(Tn, T.sin(h))), 0))
    use_arctan2(v, h)
    d = T.sqrt(add(mul(perp, perp), mul(nrm, nrm)))
    Tr, th = v.call(C_ + "min_dist_to_target", R, (d, perp, nrm))
    v.ensure("hold length", T.eq(Tr, Tn))
    th2 = v.call(C_ + "check_dogleg", th)
    v.assume(T.lt(h, T.PI))
    v.ensure("angle turned", T.eq(th2, mul(2, h)))
    v.ensure("lemma: this arc and hold reach these distances",
             T.land(T.eq(perp, add(mul(R, s), mul(Tn, c))), T.eq(mul(R, s), mul(T.cos(h), M(2, R, T.sin(h))))))


def s_mc(v):
    """the radius and angle of the single curve that reaches a target at these distances"""
    h, R = half_angle(v), v.real("R", gt=0)
    x, y, d = v.real("x"), v.real("y", gt=0), v.real("d", gt=0)
    s, c = M(2, T.sin(h), T.cos(h)), sub(1, M(2, T.sin(h), T.sin(h)))
    v.assume(T.eq(x, mul(R, s)), T.eq(y, mul(R, sub(1, c))), T.eq(mul(d, d), M(2, R, y)))
    seen = []
    v.external("numpy.isnan", lambda I, x, **k: False)
    v.cut("the radius of the circle through the target is positive", T.lt(0, div(T.power(d, 2), mul(2, y))))
    v.external("numpy.arctan2", lambda I, b, a, *r, **k: seen.append((b, a)) or h)
    Tn, Rc, th = v.call(C_ + "min_curve_to_target", (d, x, y))
    v.ensure("lemma: the arc's end is at that distance", T.eq(M(2, R, mul(R, sub(1, c))), add(M(R, s, R, s), M(R, sub(1, c), R, sub(1, c)))))
    v.ensure("no hold", T.eq(Tn, 0))
    v.ensure("critical radius", T.eq(Rc, R))
    v.ensure("angle turned", T.eq(th, mul(2, h)))
    b, a = seen[0]
    v.ensure("lemma: the half angle is that of the target", T.eq(mul(mul(R, sub(1, c)), T.cos(h)), mul(mul(R, s), T.sin(h))))
    v.ensure("arctan2 of offset and advance", T.land(T.eq(b, y), T.eq(a, x)))


def s_radius_critical(v):
    x, y, d, e = v.real("x"), v.real("y", gt=0), v.real("d", gt=0), v.real("e", lo=0)
    v.assume(T.lt(e, 1))
    R = v.real("R", gt=0)
    v.external("numpy.isnan", lambda I, x, **k: False)
    q = div(T.power(d, 2), mul(2, y))
    v.cut("positive", T.lt(0, q))
    v.cut("positive with the tolerance", T.lt(0, mul(q, sub(1, e))))
    r = v.call(C_ + "get_radius_critical", R, (d, x, y), e)
    v.ensure("radius of the circle through the target, less the tolerance", T.eq(M(2, y, r), M(d, d, sub(1, e))))


def s_vec_target(v):
    """the direction that a chord A (t + u) and a hold T u need"""
    u, t, p = vec3(v, "u"), vec3(v, "t"), vec3(v, "p")
    L, f, Tn = v.real("L"), v.real("f"), v.real("T")
    v.assume(T.eq(norm2(u), 1), T.ne(L, 0))
    A = M(L, f, 0.5)
    v.assume(T.ne(add(A, Tn), 0))
    target = lin((1, p), (A, lin((1, t), (1, u))), (Tn, u))
    q = lin((1, target), (-1, p), (neg(A), t))
    for c in range(3):
        v.cut("lemma: target - p - A t = (A + T) u " + "NEV"[c], T.eq(q[c], mul(add(A, Tn), u[c])))
    seen = []

    def nrm(I, x, axis=None, keepdims=False, **k):
        xs = [v.at(x, c) for c in range(3)]
        seen.append(xs)
        return arr3(v, [T.const(1)]) if keepdims else T.const(1)
    v.external("numpy.linalg.norm", nrm)
    r = v.call(C_ + "get_vec_target", arr3(v, p), arr3(v, t), arr3(v, target), Tn, L, f)
    v.ensure("normalised once", T.TRUE if len(seen) == 1 else T.FALSE)
    for c in range(3):
        v.ensure("what is normalised is already the unit vector " + "NEV"[c], T.eq(seen[0][c], u[c]))
        v.ensure("direction " + "NEV"[c], T.eq(v.at(r, c), u[c]))


def s_vec_hold(v):
    """no curve: the direction stays"""
    t, p, q = vec3(v, "t"), vec3(v, "p"), vec3(v, "q")
    Tn = v.real("T", gt=0)
    v.external("numpy.linalg.norm", lambda I, x, **k: arr3(v, [v.real("nrm", gt=0)]))
    r = v.call(C_ + "get_vec_target", arr3(v, p), arr3(v, t), arr3(v, q), Tn, 0.0, 1.0)
    for c in range(3):
        v.ensure("direction " + "NEV"[c], T.eq(v.at(r, c), t[c]))


def s_arc(v):
    """lemma: the chord A (t + u) with A = R tan h is the chord of the arc of radius R from t turning 2h towards n"""
    i, a, t, n = frame(v)
    h, R = half_angle(v), v.real("R", gt=0)
    v.assume(T.ne(T.cos(h), 0))
    s, c = M(2, T.sin(h), T.cos(h)), sub(1, M(2, T.sin(h), T.sin(h)))
    u = lin((c, t), (s, n))
    A = mul(R, div(T.sin(h), T.cos(h)))
    for k in range(3):
        v.ensure("chord " + "NEV"[k], T.eq(mul(A, add(t[k], u[k])), add(M(R, s, t[k]), M(R, sub(1, c), n[k]))))


def s_method(v, name):
    """the connector's curve-hold and single-curve solutions (min_dist_to_target, min_curve_to_target, get_vec_target by contract)"""
    pure = name == "_min_curve_to_target"
    p, t, u, q = [vec3(v, x) for x in "ptuq"]
    R, th, rf, md1 = v.real("R", gt=0), v.real("th", gt=0), v.real("rf"), v.real("md1")
    Tn = T.const(0) if pure else v.real("T", lo=0)
    v.assume(T.lt(th, mul(2, T.PI)))
    back = v.ctx.branch(T.lt(v.real("which"), 0)) if not pure else False
    raw = sub(th, mul(2, T.PI)) if back else th
    dd = (v.real("d"), v.real("x"), v.real("y"))
    calls = []
    rd = v.real("Rd", gt=0) if pure else R
    if pure:
        v.assume(T.le(R, rd))
        v.contract(C_ + "min_curve_to_target", lambda I, d: calls.append(("solve", d)) or (Tn, R, raw))
    else:
        v.contract(C_ + "min_dist_to_target", lambda I, r, d: calls.append(("solve", d, r)) or (Tn, raw))
    v.contract(U + "get_rf", lambda I, d: calls.append(("rf", d)) or rf)
    v.contract(C_ + "get_vec_target", lambda I, *a: calls.append(("vec", a)) or arr3(v, u))
    v.contract(U + "get_angles", lambda I, vec, nev=False: calls.append(("ang", vec, nev)) or arr3(v, [v.real("inc"), v.real("azi")]))
    c = v.obj(C_ + "Connector", pos1=arr3(v, p), vec1=arr3(v, t), pos_target=arr3(v, q), radius_design=rd, md1=md1, dist_curve2=T.const(0), distances=dd)
    v.method(c, name)
    g = lambda k: [x for x in calls if x[0] == k]
    L = mul(R, th)
    v.ensure("solved for the target's distances", T.land(*[T.eq(a, b) for a, b in zip(g("solve")[0][1], dd)]))
    if not pure:
        v.ensure("at the design radius", T.eq(g("solve")[0][2], R))
    v.ensure("ratio factor of the angle turned", T.land(*[T.eq(x[1], th) for x in g("rf")]))
    a = g("vec")[0][1]
    v.ensure("direction from this arc and hold", T.land(*([T.eq(v.at(a[0], k), p[k]) for k in range(3)] + [T.eq(v.at(a[1], k), t[k]) for k in range(3)] + [T.eq(v.at(a[2], k), q[k]) for k in range(3)]
                                                           + [T.eq(a[3], Tn), T.eq(a[4], L), T.eq(a[5], rf)])))
    v.ensure("hold length", T.eq(v.get(c, "tangent_length"), Tn))
    v.ensure("angle turned", T.eq(v.get(c, "dogleg"), th))
    v.ensure("arc length is radius times angle", T.eq(v.get(c, "dist_curve"), L))
    v.ensure("end depth", T.eq(v.get(c, "md_target"), S(md1, L, Tn)))
    w = g("ang")[-1]
    for k in range(3):
        v.ensure("end direction " + "NEV"[k], T.land(T.eq(v.at(v.get(c, "vec_target"), k), u[k]), T.eq(v.at(w[1], k), u[k])))
        v.ensure("target not moved " + "NEV"[k], T.eq(v.at(v.get(c, "pos_target"), k), q[k]))
        if not pure:
            v.ensure("hold ends at the target " + "NEV"[k], T.eq(v.at(v.get(c, "pos2"), k), sub(q[k], mul(Tn, u[k]))))
            v.ensure("direction of the hold " + "NEV"[k], T.eq(v.at(v.get(c, "vec2"), k), u[k]))
    v.ensure("end angles are those of the direction", T.land(T.TRUE if w[2] is True else T.FALSE, T.eq(v.get(c, "inc_target"), T.var("inc")), T.eq(v.get(c, "azi_target"), T.var("azi"))))
    if not pure:
        v.ensure("depth of the curve's end", T.eq(v.get(c, "md2"), add(md1, L)))


def s_distances(v):
    i, a, t, n = frame(v)
    p = vec3(v, "p")
    x, y = v.real("x"), v.real("y", gt=0)
    q = lin((1, p), (x, t), (y, n))
    tgt = arr3(v, q)
    c = v.obj(C_ + "Connector", min_error=1e-5)
    v.external("numpy.allclose", lambda I, a, b, **k: False)
    v.external("numpy.array_equal", lambda I, a, b, **k: False)
    r = v.method(c, "_get_distances", arr3(v, p), arr3(v, t), tgt)
    v.ensure("distance", T.land(T.le(0, r[0]), T.eq(mul(r[0], r[0]), add(mul(x, x), mul(y, y)))))
    v.ensure("along the direction", T.eq(r[1], x))
    v.ensure("offset from the direction", T.eq(r[2], y))
    for k in range(3):
        v.ensure("target not moved", T.eq(v.at(tgt, k), q[k]))


def s_min_curve(v, mode):
    """a target direction, with or without a depth"""
    i, a, t, n = frame(v)
    D = v.real("D", gt=0)
    v.assume(T.lt(D, T.const(3.1)), T.lt(0, T.sin(D)))
    u = lin((T.cos(D), t), (T.sin(D), n))
    v.contract(U + "get_dogleg", lambda I, *x: D)
    v.contract(C_ + "get_dogleg", lambda I, *x: D)
    rf = v.real("rf", gt=0)
    rec = []
    v.contract(U + "get_rf", lambda I, d: rec.append(d) or rf)
    v.contract(C_ + "get_rf", lambda I, d: rec.append(d) or rf)
    md1, R = v.real("md1"), v.real("R", gt=0)
    md2 = None if mode == "free" else v.real("md2")
    v.external("numpy.nan_to_num", lambda I, x, **k: x)
    v.external("numpy.around", lambda I, x, decimals=0: x)
    if md2 is not None:
        v.assume(T.lt(md1, md2))
        L = sub(md2, md1)
        if mode == "hold":
            v.assume(T.lt(R, div(L, D)))
            v.cut("positive", T.lt(0, div(L, D)))
            v.cut("wider than the design radius", T.lt(R, T.absv(div(L, D))))
        else:
            v.assume(T.le(div(L, D), R), T.lt(0, div(L, D)))
    p = vec3(v, "p")
    c = v.obj(C_ + "Connector", pos1=arr3(v, p), vec1=arr3(v, t), vec_target=arr3(v, u), inc1=i, azi1=a, inc_target=T.app("i2", (0,)), azi_target=T.app("a2", (0,)),
              radius_design=R, md1=md1, md_target=md2, pos_target=None)
    v.method(c, "_min_curve")
    L = mul(R, D) if mode != "full" else sub(md2, md1)
    end = lin((1, p), (M(L, rf, 0.5), lin((1, t), (1, u))))
    v.ensure("ratio factor of the angle turned", T.land(*[T.eq(x, D) for x in rec]) if rec else T.FALSE)
    v.ensure("arc length", T.eq(v.get(c, "dist_curve"), L))
    if mode == "hold":
        if v.get(c, "md2") is None:
            v.ensure("a hold makes up the depth", T.FALSE)
            return
        v.ensure("hold length makes up the depth", T.land(T.eq(v.get(c, "md2"), add(md1, L)), T.le(v.get(c, "md2"), md2)))
        for k in range(3):
            v.ensure("end of the curve " + "NEV"[k], T.eq(v.at(v.get(c, "pos2"), k), end[k]))
        end = lin((1, end), (sub(md2, add(md1, L)), u))
    else:
        v.ensure("no hold", T.TRUE if v.get(c, "md2") is None else T.FALSE)
    for k in range(3):
        v.ensure("end position " + "NEV"[k], T.eq(v.at(v.get(c, "pos_target"), k), end[k]))
        v.ensure("end direction " + "NEV"[k], T.eq(v.at(v.get(c, "vec_target"), k), u[k]))
    v.ensure("end depth", T.eq(v.get(c, "md_target"), add(md1, L) if md2 is None else md2))


def s_hold(v, given):
    p, t = vec3(v, "p"), vec3(v, "t")
    md1, L = v.real("md1"), v.real("L", lo=0)
    q = lin((1, p), (L, t))
    v.assume(T.eq(norm2(t), 1))
    c = v.obj(C_ + "Connector", pos1=arr3(v, p), vec1=arr3(v, t), md1=md1, pos_target=arr3(v, vec3(v, "q")) if given == "pos" else None, md_target=None if given == "pos" else add(md1, L))
    if given == "pos":
        Q = [v.at(c.attrs["pos_target"], k) for k in range(3)]
    v.method(c, "_hold")
    if given == "pos":
        d = sub(v.get(c, "md_target"), md1)
        dd = [sub(Q[k], p[k]) for k in range(3)]
        v.ensure("depth advances by the distance", T.land(T.le(0, d), T.eq(mul(d, d), norm2(dd))))
        for k in range(3):
            v.ensure("ends at the target", T.eq(v.at(v.get(c, "pos_target"), k), Q[k]))
    else:
        for k in range(3):
            v.ensure("ends straight ahead at the depth", T.eq(v.at(v.get(c, "pos_target"), k), q[k]))
        v.ensure("depth kept", T.eq(v.get(c, "md_target"), add(md1, L)))


def s_finish(v):
    """whatever the solver's state, the finished curve-hold-curve path is continuous"""
    t, u, v3 = vec3(v, "t"), vec3(v, "u"), vec3(v, "w")
    p, q = vec3(v, "p"), vec3(v, "q")
    v.assume(T.eq(norm2(v3), 1), T.eq(norm2(u), 1))
    r1, r2 = v.real("r1", gt=0), v.real("r2", gt=0)
    rc = []
    v.contract(C_ + "get_radius_critical", lambda I, r, d, e: rc.append(1) or [r1, r2][len(rc) - 1])
    v.contract(C_ + "get_vec_target", lambda I, *a: arr3(v, v3))
    dots = {}

    def acos(I, x, *a, **k):
        y = T.app("acos_%d" % len(dots), (0,))
        dots[len(dots)] = (x, y)
        I.ctx.assume(T.le(0, y))
        return y
    v.external("numpy.arccos", acos)
    v.external("numpy.clip", lambda I, x, lo, hi, **k: x)
    rfs, ends = [], []
    v.contract(U + "get_rf", lambda I, d: rfs.append((d, T.var("rf%d" % len(rfs)))) or rfs[-1][1])

    def gp(I, *a):
        ends.append((a, vec3(v, "end%d" % len(ends))))
        return arr3(v, ends[-1][1])
    v.contract(C_ + "get_pos", gp)
    md1 = v.real("md1")
    D0 = v.real("D0", lo=0)
    c = v.obj(C_ + "Connector", pos1=arr3(v, p), vec1=arr3(v, t), vec_target=arr3(v, u), pos_target=arr3(v, q), md1=md1, dogleg=D0, pos3=arr3(v, vec3(v, "z")), tangent_length=v.real("T0"),
              radius_design=v.real("Rd", gt=0), radius_design2=v.real("Rd2", gt=0), radius_critical=v.real("Rc", gt=0), radius_critical2=v.real("Rc2", gt=0), min_error=1e-5,
              distances1=(v.real("d1"), v.real("d2"), v.real("d3")), distances2=(v.real("e1"), v.real("e2"), v.real("e3")))
    v.method(c, "_happy_finish")
    D1, D2, L1, L2 = [v.get(c, x) for x in ("dogleg", "dogleg2", "dist_curve", "dist_curve2")]
    f1, f2 = v.get(c, "func_dogleg"), v.get(c, "func_dogleg2")
    v.ensure("angles of the two curves are between their directions",
             T.land(T.eq(dots[0][0], dot(t, v3)), T.lor(T.eq(D1, dots[0][1]), T.land(T.le(sub(D1, dots[0][1]), T.const(1e-9)), T.le(sub(dots[0][1], D1), T.const(1e-9)))),
                    T.eq(dots[1][0], dot(v3, u)), T.eq(D2, dots[1][1])))
    v.ensure("ratio factors are those of the angles", T.land(T.lor(*[T.land(T.eq(f1, y), T.eq(D1, x)) for x, y in rfs]), T.lor(*[T.land(T.eq(f2, y), T.eq(D2, x)) for x, y in rfs])))
    v.ensure("first arc no wider than the design", T.land(T.le(L1, mul(v.get(c, "radius_design"), D1)), T.le(L1, mul(r1, D1))))
    for k in range(3):
        a = ends[0][0]
        v.ensure("first curve ends at its arc's end " + "NEV"[k], T.land(T.eq(v.at(v.get(c, "pos2"), k), ends[0][1][k]), T.eq(v.at(a[0], k), p[k]), T.eq(v.at(a[1], k), t[k]), T.eq(v.at(a[2], k), v3[k]), T.eq(a[3], L1), T.eq(a[4], f1)))
        v.ensure("hold direction " + "NEV"[k], T.land(T.eq(v.at(v.get(c, "vec3"), k), v3[k]), T.eq(v.at(v.get(c, "vec2"), k), v3[k])))
    a, b = v.get(c, "md2"), v.get(c, "md3")
    H = sub(b, a)
    v.ensure("hold not backwards", T.le(0, H))
    for k in range(3):
        v.ensure("hold leads to the second curve " + "NEV"[k], T.eq(v.at(v.get(c, "pos3"), k), add(v.at(v.get(c, "pos2"), k), mul(H, v3[k]))))
        v.ensure("target not moved " + "NEV"[k], T.land(T.eq(v.at(v.get(c, "pos_target"), k), q[k]), T.eq(v.at(v.get(c, "vec_target"), k), u[k])))
    v.ensure("first curve's depth", T.eq(a, add(md1, T.absv(L1))))
    v.ensure("end depth", T.eq(v.get(c, "md_target"), add(b, T.absv(L2))))


def s_get_pos(v):
    p, t, u = [vec3(v, x) for x in "ptu"]
    L, f = v.real("L"), v.real("f")
    r = v.call(C_ + "get_pos", arr3(v, p), arr3(v, t), arr3(v, u), L, f)
    for k in range(3):
        v.ensure("chord of the arc " + "NEV"[k], T.eq(v.at(r, k), add(p[k], M(L, f, 0.5, add(t[k], u[k])))))


SPECS = [Spec("curve and hold: distances", s_md), Spec("single curve: distances", s_mc), Spec("critical radius", s_radius_critical), Spec("direction to the target", s_vec_target), Spec("direction without a curve", s_vec_hold),
         Spec("lemma: arc", s_arc), Spec("curve end", s_get_pos), Spec("curve and hold", lambda v: s_method(v, "_min_dist_to_target")), Spec("single curve", lambda v: s_method(v, "_min_curve_to_target")), Spec("distances", s_distances), Spec("direction", lambda v: s_min_curve(v, "free")),
         Spec("direction and depth/curve and hold", lambda v: s_min_curve(v, "hold")), Spec("direction and depth/curve", lambda v: s_min_curve(v, "full")),
         Spec("hold/position", lambda v: s_hold(v, "pos")), Spec("hold/depth", lambda v: s_hold(v, "md")), Spec("curve-hold-curve", s_finish)]

# ------------------------------------------------------------------ dynamic
def unitv(d):
    i, a = d.real(0, 180, (0.0, 90.0, 180.0)), d.real(0, 360, (0.0, 90.0, 180.0, 270.0))
    return i, a


def g(d):
    mode = d.choice(["pos"] * 4 + ["pos+one", "dir", "dir", "dir+md", "dir+md", "one", "one+md", "md", "ahead", "closest", "closest", "chc", "chc", "chc"])
    i, a = unitv(d)
    c = dict(mode=mode, start=[i, a], end=list(unitv(d)), md1=d.real(0, 3000, (0.0,)), pos1=[d.real(-2000, 2000, (0.0,)) for _ in range(3)], deg=d.bool(.7), unit=d.choice(["meters", "meters", "feet"]),
             dls=d.real(.2, 15, (3.0,)), dls2=d.real(.2, 15) if d.bool(.3) else None, vec=[d.bool(), d.bool()], force=d.bool(.2), node=d.bool(.4), ints=False)
    c["L"] = d.choice([d.real(1, 3000), d.real(.01, 3)])
    c["rel"] = [d.real(0, 180, (0.0, 90.0, 180.0)) if d.bool(.92) else 10 ** d.plain(-8, -2), d.real(0, 360)]
    c["dist"] = 10 ** d.plain(-1.5, 1.5)
    c["one"] = d.choice(["inc", "azi"])
    c["len"] = d.choice([d.plain(.02, .98), d.plain(1.02, 5), 10 ** d.plain(-1, 1)])
    if mode == "ahead":
        c["ints"] = d.bool()
    return c


def build(c):
    """-> keyword arguments, expectations"""
    from .p07 import ref_at
    rad = math.radians
    denom = 30 if c["unit"] == "meters" else 100
    t = ref_tan(rad(c["start"][0]), rad(c["start"][1]))
    R = denom / rad(c["dls"])
    R2 = denom / rad(c["dls2"]) if c["dls2"] else R
    p = np.array(c["pos1"], float)
    f = (lambda x: x) if c["deg"] else rad
    kw = dict(pos1=list(p), md1=c["md1"], dls_design=f(c["dls"]), degrees=c["deg"], unit=c["unit"])
    if c["dls2"]:
        kw["dls_design2"] = f(c["dls2"])
    if c["vec"][0]:
        kw["vec1"] = list(t)
    else:
        kw.update(inc1=f(c["start"][0]), azi1=f(c["start"][1]))
    u = ref_tan(rad(c["end"][0]), rad(c["end"][1]))
    h = np.array([math.cos(rad(c["start"][0])) * math.cos(rad(c["start"][1])), math.cos(rad(c["start"][0])) * math.sin(rad(c["start"][1])), -math.sin(rad(c["start"][0]))])
    r = np.cross(t, h)
    w = rad(c["rel"][1])
    n = math.cos(w) * h + math.sin(w) * r
    x = rad(c["rel"][0])
    to = math.cos(x) * t + math.sin(x) * n
    m = c["mode"]
    ex = dict(t=t, R=R, R2=R2, p=p)
    if m in ("pos", "pos+one", "closest"):
        q = p + to * R * c["dist"]
        kw["pos2"] = list(q)
        if m == "pos+one":
            kw["inc2" if c["one"] == "inc" else "azi2"] = f(c["end"][0 if c["one"] == "inc" else 1])
        if m == "closest":
            kw["closest_approach"] = True
        ex["q"] = q
    elif m == "ahead":
        if c["ints"]:
            t = np.round(t) if np.abs(np.round(t)).sum() == 1 else np.array([0., 0., 1.])
            p = np.round(p)
            kw["pos1"] = [int(z) for z in p]
            kw.pop("inc1", None), kw.pop("azi1", None)
            kw["vec1"] = [int(z) for z in t]
            q = p + t * max(1, round(c["L"]))
            kw["pos2"] = [int(z) for z in q]
        else:
            q = p + t * c["L"]
            kw["pos2"] = list(q)
        ex.update(q=q, t=t, p=p)
    elif m in ("dir", "dir+md", "one", "one+md"):
        if m.startswith("one"):
            k = 0 if c["one"] == "inc" else 1
            e = list(c["start"])
            e[k] = c["end"][k]
            u = ref_tan(rad(e[0]), rad(e[1]))
            kw["inc2" if k == 0 else "azi2"] = f(e[k])
            if c["vec"][0]:
                # the other angle is the one read off the vector
                if abs(math.sin(rad(c["start"][0]))) < 1e-6:
                    raise Skip()
        elif c["vec"][1]:
            kw["vec2"] = list(u)
        else:
            kw.update(inc2=f(c["end"][0]), azi2=f(c["end"][1]))
        D = ref_angle(t, u)
        if m.endswith("md"):
            kw["md2"] = c["md1"] + R * max(D, .01) * c["len"]
        if c["force"]:
            kw["force_min_curve"] = True
        ex.update(u=u, D=D)
    elif m == "md":
        kw["md2"] = c["md1"] + c["L"]
    else:
        # within 80 degrees of both directions, at least five radii away
        q = p + to * max(R, R2) * (5 + c["dist"])
        if t @ to < 0 or u @ to < 0:
            if u @ to < 0:
                u = u - 2 * (u @ to) * to
            if t @ to < 0:
                to = to - 2 * (t @ to) * t
                if u @ to < 0:
                    u = u - 2 * (u @ to) * to
                q = p + to * max(R, R2) * (5 + c["dist"])
        if max(ref_angle(t, to), ref_angle(u, to)) > rad(80):
            raise Skip()
        kw["pos2"] = list(q)
        if c["vec"][1]:
            kw["vec2"] = list(u)
        else:
            i2, a2 = math.acos(max(-1, min(1, u[2]))), math.atan2(u[1], u[0]) % (2 * math.pi)
            u = ref_tan(i2, a2)
            fd = math.degrees if c["deg"] else float
            kw.update(inc2=fd(i2), azi2=fd(a2))
        ex.update(q=q, u=u)
    if c["node"] and "inc1" not in kw:
        import welleng as we
        ex["node1"] = we.node.Node(pos=kw.pop("pos1"), vec=kw.pop("vec1"), md=kw.pop("md1"))
        if "vec2" in kw and "pos2" in kw:
            ex["node2"] = we.node.Node(pos=kw.pop("pos2"), vec=kw.pop("vec2"))
        for k in ("node1", "node2"):
            if k in ex:
                kw[k] = ex[k]
    return kw, ex


def chord(t, u, L, R):
    """displacement of an arc of that length from direction t to u; None if they do not belong together"""
    D = L / R
    if abs(math.cos(D) - t @ u) > 1e-6 * (1 + abs(D)):
        return None
    if abs(math.sin(D)) < 1e-4:
        # near a half or full turn the plane is ill determined
        return 0.5 * L * (t + u) if abs(D) < 1e-3 else None
    return R * math.tan(D / 2) * (t + u)


def ck(c):
    import welleng as we
    import copy
    kw, ex = build(c)
    m, t, p, R = c["mode"], ex["t"], ex["p"], ex["R"]
    if m in ("dir", "dir+md", "one", "one+md", "chc") and ref_angle(t, ex["u"]) > math.pi - 1e-3:
        raise Skip()
    keep = copy.deepcopy({k: v for k, v in kw.items() if not k.startswith("node")})
    key = None
    if "q" in ex:
        dq = ex["q"] - p
        d = float(np.linalg.norm(dq))
        x = float(dq @ t)
        y = float(np.linalg.norm(dq - x * t))
        if abs(y - 2 * R) < 1e-4 * R and m != "chc":
            key = "two-radii"
        if x < 0 and y < 1e-6 * d and m != "chc":
            key = "directly-behind"
    C = we.connector.Connector(**kw)
    for k in keep:
        if not np.array_equal(np.asarray(keep[k], object), np.asarray(kw[k], object)):
            return "argument %s changed" % k
    msg = verdict(c, ex, C, kw)
    if msg and key:
        return (key, msg)
    return msg


def verdict(c, ex, C, kw):
    m, t, p, R, md1 = c["mode"], ex["t"], ex["p"], ex["R"], c["md1"]
    for nm, got, want in (("pos1", C.pos1, p), ("vec1", C.vec1, t), ("node start", C.node_start.pos_nev, p), ("node start vec", C.node_start.vec_nev, t)):
        if not close(got, want, 1e-9, 1e-9):
            return "%s: %s" % (nm, worst(got, want))
    if C.md1 != md1 or C.node_start.md != md1:
        return "start depth"
    E, U, MD = np.asarray(C.pos_target, float).reshape(3), np.asarray(C.vec_target, float).reshape(3), float(np.asarray(C.md_target).reshape(()))
    if not (np.all(np.isfinite(E)) and np.all(np.isfinite(U)) and math.isfinite(MD)):
        return "non-finite end"
    if not close(C.node_end.pos_nev, E, 1e-12, 1e-12) or not close(C.node_end.vec_nev, U, 1e-9, 1e-9) or float(np.asarray(C.node_end.md).reshape(())) != MD:
        return "end node is not the target"
    if abs(np.linalg.norm(U) - 1) > 1e-6:
        return "end direction is not a unit vector"
    if not close(ref_tan(float(C.inc_target), float(C.azi_target)), U, 1e-6, 1e-6):
        return "target angles are not those of the target direction"
    D0 = 1 + float(np.abs(E - p).max()) + abs(MD - md1)
    if m == "md":
        if abs(MD - kw["md2"]) > 1e-9 * (1 + MD) or not close(E, p + t * c["L"], 1e-9, 1e-8) or not close(U, t, 1e-9, 1e-9):
            return "hold to depth: %s" % worst(E, p + t * c["L"])
        return None
    if m == "ahead":
        if not close(E, ex["q"], 1e-12, 1e-12):
            return "target moved: %s" % worst(E, ex["q"])
        d = float(np.linalg.norm(ex["q"] - p))
        if C.method == "hold":
            if abs(MD - md1 - d) > 1e-6 * (1 + d) or not close(U, t, 1e-9, 1e-9):
                return "hold to target: depth %r expected %r" % (MD, md1 + d)
            return None
        if abs(MD - md1 - d) > 1e-5 * (1 + d) or ref_angle(U, t) > 1e-3:
            return "target directly ahead: %r longer, %r turned" % (MD - md1 - d, ref_angle(U, t))
        return None
    if m in ("dir", "dir+md", "one", "one+md"):
        u, D = ex["u"], ex["D"]
        if not close(U, u, 1e-9, 1e-9):
            return "end direction: %s" % worst(U, u)
        if m.endswith("md"):
            L = kw["md2"] - md1
            if abs(MD - kw["md2"]) > 1e-9 * (1 + MD):
                return "end depth %r expected %r" % (MD, kw["md2"])
            arc = min(L, R * D)
        else:
            arc = R * D
            L = arc
            if abs(MD - md1 - arc) > 1e-7 * D0:
                return "arc length %r expected %r" % (MD - md1, arc)
        end, _ = ref_point(np.zeros(3), t, u, arc, arc) if D > 1e-7 else (t * arc, t)
        want = p + end + (L - arc) * u
        tol = 1e-7 * D0
        if not np.all(np.abs(E - want) <= tol):
            return "end position: %s" % worst(E, want)
        if not D < 1e-9 and abs(C.dist_curve - arc) > tol:
            return "curve length %r expected %r" % (C.dist_curve, arc)
        return None
    if m in ("pos", "pos+one", "closest"):
        q = ex["q"]
        dq = q - p
        d = float(np.linalg.norm(dq))
        x = float(dq @ t)
        y = float(np.linalg.norm(dq - x * t))
        want = q
        if C.method == "hold":
            if y > 3e-5 * d or x < 0:
                return "hold to a target that is not ahead"
            return None if close(E, q, 1e-12, 1e-12) and abs(MD - md1 - d) < 1e-6 * (1 + d) else "hold to target"
        crit = d * d / (2 * y) if y > 1e-9 * d else math.inf
        inside = R > crit * (1 + 1e-4)
        outside = R < crit * (1 - 1e-4)
        if m == "closest" and (inside or abs(C.pos_target - q).max() > 1e-9):
            if outside:
                return "closest approach although the target is reachable"
            n = (dq - x * t) / y
            cc = p + R * n
            if np.linalg.norm(q - cc) < 1e-3 * R:
                return None
            want = cc + R * (q - cc) / np.linalg.norm(q - cc)
            if np.linalg.norm(want - p) < 1e-3 * R:
                return None
        if not np.all(np.abs(E - want) <= 1e-9 * D0):
            return "end position: %s" % worst(E, want)
        r = R if outside or m == "closest" else min(R, crit)
        L1, H = float(C.dist_curve), float(C.tangent_length)
        if L1 < 0 or H < -1e-9 * D0:
            return "backwards: curve %r hold %r" % (L1, H)
        if abs(MD - md1 - L1 - H) > 1e-9 * D0:
            return "end depth %r is not start, curve and hold %r" % (MD, md1 + L1 + H)
        if inside and H > 1e-9 * D0:
            return "hold in a single curve"
        if y < 1e-5 * d:
            return None if x < 0 or abs(MD - md1 - d) < 1e-3 * d + 1e-9 * D0 else "end depth of a nearly straight path %r expected %r" % (MD, md1 + d)
        rr = r if (inside or outside) else None
        for r in ([rr] if rr else [R, crit]):
            D = L1 / r
            if D > 1 and min(abs(math.sin(D / 2)), abs(math.cos(D / 2))) < 1e-3:
                return None
            ch = chord(t, U, L1, r)
            if ch is not None and np.all(np.abs(p + ch + H * U - want) <= 3e-5 * D0):
                break
        else:
            if ch is None:
                return "curve of radius %r turns %r but the directions are %r apart" % (r, L1 / r, ref_angle(t, U))
            return "curve and hold do not lead to the target: %s" % worst(p + ch + H * U, want)
        if H > 1e-6 * D0 and C.method == "min_dist_to_target":
            if not close(C.pos2, want - H * U, 1e-9, 1e-9 * D0) or abs(C.md2 - md1 - L1) > 1e-9 * D0:
                return "end of the curve"
        return None
    # curve-hold-curve
    q, u = ex["q"], ex["u"]
    if not close(U, u, 1e-6, 1e-6):
        return "end direction: %s" % worst(U, u)
    if not close(E, q, 1e-12, 1e-12):
        return "target moved: %s" % worst(E, q)
    d = float(np.linalg.norm(q - p))
    if C.method == "hold":
        return None if ref_angle(t, u) < 1e-6 and np.allclose((q - p) / d, t, atol=1e-4) and abs(MD - md1 - d) < 1e-6 * d else "hold although the target is elsewhere"
    L1, L2, H = float(C.dist_curve), float(C.dist_curve2), float(C.md3 - C.md2)
    w = np.asarray(C.vec3, float).reshape(3)
    if min(L1, L2, H) < 0 or abs(MD - md1 - L1 - L2 - H) > 1e-9 * D0 or abs(C.md2 - md1 - L1) > 1e-9 * D0:
        return "lengths %r do not make up the depth %r" % ((L1, H, L2), MD - md1)
    a1, a2 = ref_angle(t, w), ref_angle(w, u)

    def ch(a, b, L, D):
        return 0.5 * L * (a + b) * (math.tan(D / 2) / (D / 2) if D > 1e-6 else 1)
    if L1 > ex["R"] * a1 * (1 + 1e-3) + 1e-6 * d:
        return "first curve wider than the design radius: %r turning %r" % (L1, a1)
    e1 = p + ch(t, w, L1, a1)
    if not np.all(np.abs(e1 - np.asarray(C.pos2, float).reshape(3)) <= 1e-6 * D0):
        return "first curve: %s" % worst(e1, np.asarray(C.pos2).reshape(3))
    e2 = e1 + H * w
    if not np.all(np.abs(e2 - np.asarray(C.pos3, float).reshape(3)) <= 1e-6 * D0):
        return "hold: %s" % worst(e2, np.asarray(C.pos3).reshape(3))
    e3 = e2 + ch(w, u, L2, a2)
    if np.linalg.norm(e3 - q) > 1e-4 * d:
        return "misses the target by %r at %r" % (float(np.linalg.norm(e3 - q)), d)
    return None


TWO = dict(mode="pos", start=[0.0, 0.0], end=[0.0, 0.0], md1=0.0, pos1=[0.0, 0.0, 0.0], deg=False, unit="meters", dls=math.degrees(.1), dls2=None, vec=[True, False], force=False, node=False, ints=False,
           L=1.0, rel=[math.degrees(math.atan2(600, 1000)), 0.0], dist=math.hypot(600, 1000) / 300, one="inc", len=1.0)
DYN = [Dyn("connector", g, ck, n=(3000, 60000), directed=[TWO, dict(TWO, rel=[180.0, 0.0]), dict(TWO, rel=[6.4e-7, 0.0], dist=1.3)])]
