"""P13 batch curve-hold solver"""
from .common import *
from .p12 import lin, TWO
from . import p12

FILES = ["welleng/connector.py", "welleng/utils.py"]
C_ = "welleng.connector."
META = dict(
    title="The batch curve-and-hold solver gives each row its connector's solution",
    statement="Every row of solve_curve_hold_batch is the curve-and-hold solution for that row's start, direction, target and radius alone: the hold, the angle, the arc length, the end direction, the end of the curve and the total depth a Connector with that design radius finds, with the path ending at the target. "
              "Leading shapes are preserved, a single radius applies to every row, a target straight ahead is a hold, and the arguments are not changed.",
    over=["inputs", "configurations"], quantifier="all batches of any shape and length, all starts, directions and targets outside the design circle, all radii",
    why="Tests compare twenty rows of one seed; row independence and agreement with the scalar path must hold for every shape, mixture of branches and degenerate row.",
    mechanism=[("batch", "welleng/connector.py:solve_curve_hold_batch"), ("distances to angle", "welleng/connector.py:min_dist_to_target"), ("direction", "welleng/connector.py:get_vec_target"), ("wrapping", "welleng/connector.py:check_dogleg")],
    observe_at="the dict returned by solve_curve_hold_batch")


def row(v, A, j):
    return [v.at(A, j, c) for c in range(3)]


def s_batch(v, scalar_radius):
    """callees by contract: what the batch passes them per row, and what it makes of their results"""
    n = v.int("n", lo=1)
    P, U, Q = v.arr("P", n, 3), v.arr("U", n, 3), v.arr("Q", n, 3)
    R = v.real("R", gt=0) if scalar_radius else v.arr("R", n)
    Tn, D, L, F, W = v.arr("T", n), v.arr("D", n), v.arr("L", n), v.arr("F", n), v.arr("W", n, 3)
    D2 = v.arr("D2", n)
    rec = {}

    def k(name, val):
        def f(I, *a):
            rec[name] = a
            return val
        return f
    v.contract(C_ + "min_dist_to_target", k("min", (Tn, D)))
    v.contract(C_ + "check_dogleg", k("check", D2))
    v.contract(C_ + "get_curve_hold_data", k("data", (L, F)))
    v.contract(C_ + "get_vec_target", k("vec", W))
    out = v.call(C_ + "solve_curve_hold_batch", P, U, Q, R)
    j = v.idx(n)
    p, u, q = row(v, P, j), row(v, U, j), row(v, Q, j)
    dq = [sub(q[c], p[c]) for c in range(3)]
    r, (d, x, y) = rec["min"]
    v.ensure("solved with the row's radius", T.eq(v.at(r) if scalar_radius else v.at(r, j), R if scalar_radius else v.at(R, j)))
    d, x, y = v.at(d, j), v.at(x, j), v.at(y, j)
    xx = dot(dq, u)
    v.ensure("distance to the row's target", T.land(T.le(0, d), T.eq(mul(d, d), norm2(dq))))
    v.ensure("advance along the row's direction", T.lor(T.eq(x, xx), T.land(T.eq(x, d), T.lt(d, xx))))
    res = lin((1, dq), (neg(x), u))
    v.ensure("offset from the row's direction", T.land(T.le(0, y), T.eq(mul(y, y), norm2(res))))
    v.ensure("angle wrapped", T.eq(v.at(rec["check"][0], j), v.at(D, j)))
    v.ensure("arc of the row", T.land(T.eq(v.at(rec["data"][0]) if scalar_radius else v.at(rec["data"][0], j), R if scalar_radius else v.at(R, j)), T.eq(v.at(rec["data"][1], j), v.at(D2, j))))
    a = rec["vec"]
    v.ensure("direction from the row's solution", T.land(*([T.eq(v.at(a[0], j, c), p[c]) for c in range(3)] + [T.eq(v.at(a[1], j, c), u[c]) for c in range(3)] + [T.eq(v.at(a[2], j, c), q[c]) for c in range(3)]
                                                             + [T.eq(v.at(a[3], j), v.at(Tn, j)), T.eq(v.at(a[4], j), v.at(L, j)), T.eq(v.at(a[5], j), v.at(F, j))])))
    for nm, w in (("tangent_length", v.at(Tn, j)), ("dogleg", v.at(D2, j)), ("dist_curve", v.at(L, j)), ("md", add(v.at(L, j), v.at(Tn, j)))):
        v.ensure("row's " + nm, T.land(T.eq(v.at(out[nm], j), w), T.eq(out[nm].shape[0], n)))
    for c in range(3):
        v.ensure("row's direction " + "NEV"[c], T.eq(v.at(out["vec_target"], j, c), v.at(W, j, c)))
        v.ensure("row's end of curve " + "NEV"[c], T.eq(v.at(out["pos2"], j, c), sub(q[c], mul(v.at(Tn, j), v.at(W, j, c)))))


def s_min(v):
    """array and scalar agree row by row"""
    n = v.int("n", lo=1)
    R, d, x, y = v.arr("R", n), v.arr("d", n), v.arr("x", n), v.arr("y", n)
    Tn, D = v.call(C_ + "min_dist_to_target", R, (d, x, y))
    D2 = v.call(C_ + "check_dogleg", D)
    j = v.idx(n)
    T1, D1 = v.call(C_ + "min_dist_to_target", v.at(R, j), (v.at(d, j), v.at(x, j), v.at(y, j)))
    D3 = v.call(C_ + "check_dogleg", D1)
    v.ensure("hold as in the scalar solution", T.eq(v.at(Tn, j), T1))
    v.ensure("angle as in the scalar solution", T.eq(v.at(D, j), D1))
    v.ensure("wrapped angle as in the scalar solution", T.eq(v.at(D2, j), D3))


def s_data(v):
    n = v.int("n", lo=1)
    R, D = v.arr("R", n), v.arr("D", n)
    L, F = v.call(C_ + "get_curve_hold_data", R, D)
    j = v.idx(n)
    L1, F1 = v.call(C_ + "get_curve_hold_data", v.at(R, j), v.at(D, j))
    v.ensure("arc as in the scalar solution", T.eq(v.at(L, j), L1))
    v.ensure("ratio factor as in the scalar solution", T.eq(v.at(F, j), F1))
    v.ensure("arc is radius times angle", T.eq(v.at(L, j), mul(v.at(R, j), v.at(D, j))))


def s_vec(v):
    n = v.int("n", lo=1)
    P, U, Q = v.arr("P", n, 3), v.arr("U", n, 3), v.arr("Q", n, 3)
    Tn, L, F = v.arr("T", n), v.arr("L", n), v.arr("F", n)
    j = v.idx(n)
    # a curve or a hold is left in the row
    den = add(M(v.at(L, j), v.at(F, j), 0.5), v.at(Tn, j))
    v.assume(T.ne(den, 0))
    W = v.call(C_ + "get_vec_target", P, U, Q, Tn, L, F)
    w = v.call(C_ + "get_vec_target", arr3(v, row(v, P, j)), arr3(v, row(v, U, j)), arr3(v, row(v, Q, j)), v.at(Tn, j), v.at(L, j), v.at(F, j))
    for c in range(3):
        v.ensure("direction as in the scalar solution " + "NEV"[c], T.eq(v.at(W, j, c), v.at(w, c)))


SPECS = [Spec("batch", lambda v: s_batch(v, False)), Spec("batch/one radius", lambda v: s_batch(v, True)), Spec("distances to angle", s_min), Spec("arc", s_data), Spec("direction", s_vec)]


# ------------------------------------------------------------------ dynamic
def g(d):
    n = d.int(1, 7)
    rows = []
    for _ in range(n):
        rows.append(dict(start=[d.real(0, 180, (0.0, 90.0)), d.real(0, 360, (0.0,))], pos=[d.real(-2000, 2000, (0.0,)) for _ in range(3)],
                         rel=[d.real(0, 180, (0.0, 90.0)) if d.bool(.9) else 10 ** d.plain(-8, -2), d.real(0, 360)], dist=10 ** d.plain(-1, 1.5), dls=d.real(.2, 15, (3.0,))))
        if d.bool(.15):
            # straight ahead along an axis
            rows[-1].update(start=[d.choice([0.0, 90.0]), d.choice([0.0, 90.0])], rel=[0.0, 0.0])
    return dict(rows=rows, shape=d.choice(["flat", "flat", "2d", "one"]), same=d.bool(.3))


def ck(c):
    import welleng as we
    P, U, Q, R, ok = [], [], [], [], []
    for k, r in enumerate(c["rows"]):
        a, b = [math.radians(x) for x in r["start"]]
        t = ref_tan(a, b)
        t[np.abs(t) < 1e-15] = 0
        h = np.array([math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), -math.sin(a)])
        h = h - (h @ t) * t
        w, x = math.radians(r["rel"][1]), math.radians(r["rel"][0])
        nn = math.cos(w) * h + math.sin(w) * np.cross(t, h)
        rad = 30 / math.radians(c["rows"][0]["dls"] if c["same"] else r["dls"])
        P.append(r["pos"]), U.append(t), R.append(rad)
        Q.append(np.array(r["pos"]) + (t if x == 0 else math.cos(x) * t + math.sin(x) * nn) * rad * r["dist"])
    P, U, Q, R = [np.array(x, float) for x in (P, U, Q, R)]
    n = len(R)
    rr = float(R[0]) if c["same"] else R
    args = [P, U, Q, rr]
    if c["shape"] == "2d":
        m = 2 if n % 2 == 0 else 1
        args = [x.reshape(m, n // m, 3) for x in (P, U, Q)] + [rr if c["same"] else R.reshape(m, n // m)]
    if c["shape"] == "one":
        args = [P[0], U[0], Q[0], float(R[0])]
        n = 1
    keep = [np.array(a) for a in args]
    out = we.connector.solve_curve_hold_batch(*args)
    for a, b in zip(args, keep):
        if not np.array_equal(a, b):
            return "argument changed"
    lead = np.shape(args[0])[:-1]
    for k in ("tangent_length", "dogleg", "dist_curve", "md"):
        if np.shape(out[k]) != lead:
            return "shape of %s: %r expected %r" % (k, np.shape(out[k]), lead)
    for k in ("pos2", "vec_target"):
        if np.shape(out[k]) != lead + (3,):
            return "shape of %s: %r" % (k, np.shape(out[k]))
    flat = {k: np.reshape(out[k], (n, 3) if k in ("pos2", "vec_target") else (n,)) for k in ("pos2", "vec_target", "tangent_length", "dogleg", "dist_curve", "md")}
    for k in range(n):
        dq = Q[k] - P[k]
        d = float(np.linalg.norm(dq))
        x = float(dq @ U[k])
        y = float(np.linalg.norm(dq - x * U[k]))
        # inside the design circle, or one of the connector's degenerate targets (P12): no claim
        if y > 0 and R[k] > d * d / (2 * y) * (1 - 1e-4) or abs(y - 2 * R[k]) < 1e-2 * R[k] or (x < 0 and y < 1e-3 * d):
            continue
        L, H, D, u = flat["dist_curve"][k], flat["tangent_length"][k], flat["dogleg"][k], flat["vec_target"][k]
        sc = 1 + np.abs(P[k]).max() + np.abs(Q[k]).max() + abs(L)
        if not np.all(np.isfinite([L, H, D])) or not np.all(np.isfinite(u)):
            return "row %d not finite" % k
        if L < -1e-9 * sc or H < -1e-9 * sc or abs(L - R[k] * D) > 1e-9 * sc or abs(flat["md"][k] - L - H) > 1e-9 * sc:
            return "row %d: lengths %r" % (k, (L, H, D, flat["md"][k]))
        if not close(flat["pos2"][k], Q[k] - H * u, 1e-9, 1e-9 * sc):
            return "row %d: end of curve %s" % (k, worst(flat["pos2"][k], Q[k] - H * u))
        if y < 1e-6 * d:
            if abs(L + H - d) > 1e-4 * d or ref_angle(u, U[k]) > 1e-2:
                return "row %d: straight ahead but %r of %r" % (k, L + H, d)
        elif not (D > 1 and min(abs(math.sin(D / 2)), abs(math.cos(D / 2))) < 1e-3):
            ch = p12.chord(U[k], u, L, R[k])
            if ch is None or not np.all(np.abs(P[k] + ch + H * u - Q[k]) <= 3e-5 * sc):
                return "row %d: curve and hold do not lead to the target" % k
        try:
            C = we.connector.Connector(pos1=P[k], vec1=U[k], pos2=Q[k], dls_design=30 / R[k], degrees=False)
        except AssertionError:
            return "row %d: connector refuses" % k
        if C.method == "min_dist_to_target":
            for nm, a, b in (("dogleg", D, C.dogleg), ("hold", H, C.tangent_length), ("arc", L, C.dist_curve)):
                if abs(a - b) > 1e-7 * sc:
                    return "row %d: %s %r, connector %r" % (k, nm, a, b)
            if not close(u, C.vec_target, 1e-6, 1e-6) or abs(flat["md"][k] - C.md_target) > 1e-6 * sc or not close(flat["pos2"][k], C.pos2, 1e-6, 1e-6 * sc):
                return "row %d differs from the connector" % k
        elif C.method == "hold" and abs(flat["md"][k] - C.md_target) > 3e-5 * sc:
            return "row %d: depth %r, connector holds to %r" % (k, flat["md"][k], C.md_target)
    return None


DYN = [Dyn("batch", g, ck, n=(1200, 20000))]
