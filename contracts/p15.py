"""P15 building, dropping and extending to depth"""
from .common import *
from .p12 import frame, lin

FILES = ["welleng/connector.py", "welleng/utils.py"]
C_ = "welleng.connector."
U = "welleng.utils."
META = dict(
    title="drop_off reaches its inclination and extend_to_tvd its depth",
    statement="drop_off turns in the vertical plane through the start direction, at the design severity, to the target inclination, or towards it as far as the maximum length allows, and holds that direction for what is left of the length. "
              "extend_to_tvd ends at the target vertical depth: without a target inclination straight ahead, with one by a curve at the design severity to that inclination followed by a hold, or by part of that curve if the depth is reached first. "
              "The sections continue each other in position, direction and depth.",
    over=["inputs"], quantifier="all start nodes, target inclinations, severities, lengths and reachable depths",
    why="The end conditions must hold for builds as well as drops and for every geometry; the tests drop one well from 30 degrees to vertical.",
    mechanism=[("drop", "welleng/connector.py:drop_off"), ("extend", "welleng/connector.py:extend_to_tvd"), ("arc", "welleng/utils.py:get_arc")],
    observe_at="Node list of drop_off(...), Connector list of extend_to_tvd(...)",
    note="drop_off deductively; extend_to_tvd deductively under the assumed contract that scipy's minimiser brings its objective to zero, which the bounded executable contract checks")
CASES = ["drop", "build", "drop, too short", "build, too short"]


def node_obj(v, t=None, md=True):
    p = vec3(v, "p")
    return v.obj("welleng.node.Node", pos_nev=list(p), vec_nev=list(t), md=v.real("md0") if md else None), p


def node_model(v, rec):
    def m(I, pos=None, vec=None, md=None, **k):
        n = v.obj("welleng.node.Node", pos_nev=pos, vec_nev=vec, md=md)
        rec.append(n)
        return n
    v.external(C_ + "Node", m)


def s_drop(v, case, md=True):
    i, a, t, _ = frame(v)
    d, dls = v.real("delta", gt=0), v.real("dls", gt=0)
    ti = v.real("target")
    R = v.real("R", gt=0)
    node, p = node_obj(v, t, md)
    calls, nodes = [], []
    q, u = vec3(v, "q"), vec3(v, "u")
    rad = T.radians(ti) if hasattr(T, "radians") else div(mul(ti, T.PI), 180)
    free = "short" not in case
    up = "build" in case
    D = sub(rad, i) if up else sub(i, rad)
    v.assume(T.lt(0, D))
    if not free:
        v.assume(T.lt(d, mul(R, D)))
        v.cut("the section is shorter than the curve", T.lt(div(d, R), D))
    want = D if free else div(d, R)
    v.assume(T.lt(D, mul(2, T.PI)))
    rec = []
    v.contract(U + "radius_from_dls", lambda I, x: rec.append(("radius", x)) or R)
    v.contract(U + "get_angles", lambda I, vec, nev=False: rec.append(("angles", vec, nev)) or v.table((1, 2), lambda k, c: T.ite(T.eq(c, 0), i, a)))

    def arc(I, dogleg, radius, toolface, pos=None, vec=None, target=False):
        calls.append((dogleg, radius, toolface, pos, vec))
        return (arr3(v, q), arr3(v, u), mul(dogleg, radius))
    v.contract(U + "get_arc", arc)
    node_model(v, nodes)
    if free and v.branch(T.lt(v.real("which"), 0)):
        r = v.call(C_ + "drop_off", ti, dls, None, node)
        L = None
    else:
        if free:
            v.assume(T.le(mul(R, D), d))
        L = d
        r = v.call(C_ + "drop_off", ti, dls, d, node)
    m0 = v.real("md0") if md else T.const(0)
    v.ensure("one arc", T.TRUE if len(calls) == 1 else T.FALSE)
    dg, rr, tf, pos, vec = calls[0]
    v.ensure("radius of the severity", T.land(T.eq(rr, R), T.land(*[T.eq(x[1], dls) for x in rec if x[0] == "radius"])))
    v.ensure("turns to the inclination or as far as it can", T.eq(dg, want))
    v.ensure("towards the inclination", T.eq(tf, 0 if up else T.PI))
    for c in range(3):
        v.ensure("from the start", T.land(T.eq(v.at(pos, c), p[c]), T.eq(v.at(vec, c), t[c])))
    n0 = r[0]
    A = mul(R, want)
    for c in range(3):
        v.ensure("ends where the arc ends", T.land(T.eq(v.at(v.get(n0, "pos_nev"), c), q[c]), T.eq(v.at(v.get(n0, "vec_nev"), c), u[c])))
    v.ensure("depth of the arc's end", T.eq(v.get(n0, "md"), add(m0, A)))
    if L is None:
        v.ensure("no hold", T.TRUE if len(r) == 1 else T.FALSE)
    elif len(r) > 1:
        H = sub(L, A)
        v.ensure("the hold makes up the length", T.land(T.eq(v.get(r[1], "md"), add(m0, L)), T.TRUE if len(r) == 2 else T.FALSE))
        for c in range(3):
            v.ensure("straight on", T.land(T.eq(v.at(v.get(r[1], "pos_nev"), c), add(q[c], mul(H, u[c]))), T.eq(v.at(v.get(r[1], "vec_nev"), c), u[c])))
    else:
        v.ensure("no hold only if nothing is left", T.le(sub(L, A), T.const(1e-5)))


def s_plane(v):
    """lemma: an arc to the high side (toolface 0) or low side (pi) ends at an inclination that much more or less"""
    i, a = v.real("i"), v.real("a")
    D, R = v.real("D"), v.real("R", gt=0)
    t = tangent(i, a)
    v.contract(U + "get_angles", lambda I, vec, nev=False: v.table((1, 2), lambda k, c: T.ite(T.eq(c, 0), i, a)))
    v.contract(U + "get_unit_vec", lambda I, x: x)
    for up in (True, False):
        pos, vec, L = v.call(U + "get_arc", D, R, T.const(0) if up else T.PI, arr3(v, vec3(v, "p")), arr3(v, t), False)
        e = tangent(add(i, D) if up else sub(i, D), a)
        for c in range(3):
            v.ensure("direction " + ("up" if up else "down"), T.eq(v.at(vec, c), e[c]))
        v.ensure("length", T.eq(L, mul(R, D)))


def s_straight(v):
    t = vec3(v, "t")
    node, p = node_obj(v, t)
    tv, x = v.real("tvd"), v.real("x", lo=0)
    con, mins = [], []

    def minimize(I, fun, x0, args=(), bounds=None, method=None, **k):
        mins.append(bounds)
        v.assume(T.eq(I.call(fun, (arr3(v, [x]),) + tuple(args), {}) if False else I.call(fun, (x,) + tuple(args), {}), 0))
        return v.obj("welleng.node.Node", x=x)
    v.external("scipy.optimize.minimize", minimize)
    v.external(C_ + "Connector", lambda I, *a, **k: con.append(k) or v.obj(C_ + "Connector"))
    r = v.call(C_ + "extend_to_tvd", tv, node)
    v.ensure("one connector", T.TRUE if len(r) == len(con) == 1 else T.FALSE)
    k = con[0]
    v.ensure("ends at the depth", T.eq(v.at(k["pos2"], 2), tv))
    v.ensure("from the node's depth", T.eq(k["md1"], v.get(node, "md")))
    v.ensure("only forwards", T.TRUE if mins[0][0][0] == 0 else T.FALSE)
    for c in range(3):
        v.ensure("straight ahead", T.land(T.eq(v.at(k["pos2"], c), add(p[c], mul(x, t[c]))), T.eq(v.at(k["pos1"], c), p[c]), T.eq(v.at(k["vec1"], c), t[c])))


def s_inc(v, two, dls=True):
    t = vec3(v, "t")
    node, p = node_obj(v, t)
    tv, x, ti = v.real("tvd"), v.real("x", lo=0), v.real("ti")
    d = v.real("dls", gt=0) if dls else None
    con, drops = [], []
    ns = [v.obj("welleng.node.Node", pos_nev=vec3(v, "a"), vec_nev=vec3(v, "b")), v.obj("welleng.node.Node", pos_nev=vec3(v, "c"), vec_nev=vec3(v, "b"))][:2 if two else 1]
    v.contract(C_ + "drop_off", lambda I, ti, dls, delta_md=None, node=None, tol=None: drops.append((ti, dls, delta_md, node)) or list(ns))

    def minimize(I, fun, x0, args=(), **k):
        v.assume(T.eq(I.call(fun, (x,) + tuple(args), {}), 0))
        return v.obj("welleng.node.Node", x=x)
    v.external("scipy.optimize.minimize", minimize)
    ends = [v.obj("welleng.node.Node"), v.obj("welleng.node.Node")]
    v.external(C_ + "Connector", lambda I, *a, **k: con.append(k) or v.obj(C_ + "Connector", node_end=ends[len(con) - 1]))
    r = v.call(C_ + "extend_to_tvd", tv, node, target_inc=ti, **({"dls": d} if dls else {}))
    v.ensure("a connector per section", T.TRUE if len(r) == len(con) == len(ns) else T.FALSE)
    for y in drops:
        v.ensure("drops as asked for", T.land(T.eq(y[0], ti), T.eq(y[1], d if dls else T.const(2.5)), T.eq(y[2], x), T.TRUE if y[3] is node else T.FALSE))
    v.ensure("the curve starts at the node", T.TRUE if con[0]["node1"] is node else T.FALSE)
    for c in range(3):
        v.ensure("the curve ends where the drop does", T.land(T.eq(v.at(con[0]["pos2"], c), v.get(ns[0], "pos_nev")[c]), T.eq(v.at(con[0]["vec2"], c), v.get(ns[0], "vec_nev")[c])))
        if two:
            v.ensure("the hold ends where the drop's does", T.eq(v.at(con[1]["pos2"], c), v.get(ns[1], "pos_nev")[c]))
    v.ensure("design severity", T.land(*[T.eq(k["dls_design"], d if dls else T.const(2.5)) for k in con]))
    if two:
        v.ensure("the hold continues the curve", T.TRUE if con[1]["node1"] is ends[0] else T.FALSE)
    v.ensure("ends at the depth", T.eq(v.at(con[-1]["pos2"], 2), tv))


SPECS = [Spec("drop_off/" + c, lambda v, c=c: s_drop(v, c)) for c in CASES] + [Spec("drop_off/depth not given", lambda v: s_drop(v, "drop", False)), Spec("lemma: vertical plane", s_plane), Spec("extend/straight", s_straight),
         Spec("extend/part of the curve", lambda v: s_inc(v, False)), Spec("extend/curve and hold", lambda v: s_inc(v, True)), Spec("extend/default severity", lambda v: s_inc(v, True, False))]


# ------------------------------------------------------------------ dynamic
def g(d):
    return dict(kind=d.choice(["drop", "drop", "extend", "extend", "straight"]), inc=d.real(0, 180, (0.0, 90.0)), azi=d.real(0, 360, (0.0, 90.0, 180.0, 270.0)), pos=[d.real(-3000, 3000, (0.0,)) for _ in range(3)], md=d.choice([None, 0.0, d.real(0, 5000)]),
                ti=d.real(0, 180, (0.0, 90.0)), dls=d.choice([None, d.real(.2, 15, (3.0, 2.5))]), delta=d.choice([None, d.real(.1, 5000), d.real(.1, 300)]), past=d.choice([None, None, None, 10 ** d.plain(-4, 1), 1 + 10 ** d.plain(-4, 1), 0.0, -10 ** d.plain(-4, 1)]), ahead=d.choice([d.real(1, 3000), d.real(.1, 50)]), start=d.bool(.9))


def ck(c):
    import welleng as we
    N = we.node.Node
    dls = c["dls"] or 2.5
    R = 30 / math.radians(dls)
    rd = math.radians
    if c["start"]:
        inc, azi, pos, md = c["inc"], c["azi"], np.array(c["pos"]), c["md"] or 0.0
        node = N(pos=list(c["pos"]), inc=inc, azi=azi, md=c["md"])
    else:
        inc, azi, pos, md, node = 0.0, 0.0, np.zeros(3), 0.0, None
    t = ref_tan(rd(inc), rd(azi))
    vert = math.sin(rd(inc)) < 1e-6
    sc = 1 + np.abs(pos).max() + R
    if c["kind"] == "drop":
        D = abs(rd(c["ti"] - inc))
        A = R * D
        if c.get("past") is not None and A + c["past"] > 0:
            c = dict(c, delta=A + c["past"])  # barely more, or less, than the curve needs
        got = we.connector.drop_off(c["ti"], dls, c["delta"], node)
        L = A if c["delta"] is None else c["delta"]
        A = min(A, L)
        end = inc + math.degrees(A / R) * (1 if c["ti"] > inc else -1)
        if len(got) not in (1, 2) or c["delta"] is None and len(got) != 1 or c["delta"] is not None and (len(got) == 2) != (L - A > 1e-5) and abs(L - A - 1e-5) > 1e-7:
            return "%d nodes for a section of %r with a curve of %r" % (len(got), L, A)
        if abs(got[0].md - md - A) > 1e-6 * sc or abs(got[-1].md - md - L) > 2e-5 * sc:
            return "lengths %r for a curve of %r in a section of %r" % ([x.md - md for x in got], A, L)
        for x in got:
            if abs(x.inc_deg - end) > 1e-5:
                return "inclination %r expected %r (from %r towards %r in %r)" % (x.inc_deg, end, inc, c["ti"], L)
        u = ref_tan(rd(end), rd(azi)) if not vert else np.array(got[0].vec_nev)
        for x in got:
            if not np.allclose(x.vec_nev, u, atol=1e-7):
                return "leaves the vertical plane: %s" % worst(x.vec_nev, u)
        e, _ = ref_point(np.zeros(3), t, u, A, A) if A > 1e-6 else (t * A, t)
        if abs(A / R - math.pi) > 1e-3 and not np.allclose(got[0].pos_nev, pos + e, atol=1e-7 * sc):
            return "arc end: %s" % worst(got[0].pos_nev, pos + e)
        if len(got) == 2 and not np.allclose(np.array(got[1].pos_nev) - got[0].pos_nev, u * (L - A), atol=1e-8 * (sc + L)):
            return "hold end"
        return None
    if c["kind"] == "straight":
        if inc > 89:
            raise Skip()
        tv = pos[2] + c["ahead"]
        got = we.connector.extend_to_tvd(tv, node)
        L = c["ahead"] / t[2]
        want = pos + t * L
        tol = 1e-3 + 1e-5 * L
        if len(got) != 1 or not np.allclose(got[0].pos_target, want, atol=tol) or abs(got[0].md_target - md - L) > tol or not np.allclose(got[0].vec_target, t, atol=1e-6):
            return "extended to %r expected %r" % (list(map(float, got[0].pos_target)), list(want))
        return None
    # curve and hold
    if inc > 85 or c["ti"] > 85:
        raise Skip()
    tv = pos[2] + c["ahead"]
    kw = {} if c["dls"] is None else dict(dls=c["dls"])
    got = we.connector.extend_to_tvd(tv, node, target_inc=c["ti"], **kw)
    sgn = 1 if c["ti"] > inc else -1
    full = abs(R * (math.sin(rd(c["ti"])) - math.sin(rd(inc))))
    tol = 2e-3 + 1e-5 * c["ahead"]
    if abs(got[-1].pos_target[2] - tv) > tol:
        return "ends at %r expected %r" % (float(got[-1].pos_target[2]), tv)
    if full <= c["ahead"]:
        end, A, H = c["ti"], R * abs(rd(c["ti"] - inc)), (c["ahead"] - full) / math.cos(rd(c["ti"]))
    else:
        end, H = math.degrees(math.asin(max(-1, min(1, math.sin(rd(inc)) + sgn * c["ahead"] / R)))), 0.0
        A = R * abs(rd(end - inc))
    if abs(full - c["ahead"]) > 10 * tol:
        if (len(got) == 2) != (H > 0):
            return "%d sections although %r are left to hold" % (len(got), H)
    ce = 30 * tol / math.cos(rd(max(inc, end)))
    if abs(float(got[-1].md_target) - md - A - H) > ce:
        return "length %r expected %r" % (float(got[-1].md_target) - md, A + H)
    got_inc = math.degrees(math.acos(max(-1, min(1, got[-1].vec_target[2]))))
    if abs(got_inc - end) > 1e-4 + math.degrees(ce / R):
        return "inclination %r expected %r" % (got_inc, end)
    if not vert and abs(float(np.asarray(got[-1].vec_target) @ np.array([-math.sin(rd(azi)), math.cos(rd(azi)), 0]))) > 1e-6:
        return "leaves the vertical plane"
    if not np.allclose(got[0].pos1, pos, atol=1e-9 * sc) or not np.allclose(got[0].vec1, t, atol=1e-9) or abs(got[0].md1 - md) > 1e-9 * (1 + md):
        return "does not start at the node"
    if len(got) == 2 and not (close(got[0].pos_target, got[1].pos1, 1e-9, 1e-9) and close(got[0].vec_target, got[1].vec1, 1e-9, 1e-9) and abs(got[0].md_target - got[1].md1) < 1e-9 * (1 + md)):
        return "the hold does not continue the curve"
    return None


DYN = [Dyn("build, drop and extend", g, ck, n=(600, 12000))]
