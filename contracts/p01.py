"""P01 minimum-curvature step"""
from .common import *

FILES = ["welleng/utils.py"]
META = dict(
    title="A minimum-curvature step is the circular arc through both directions",
    statement="For every pair of stations (dogleg below 180 degrees) the displacement computed for the interval is the chord of the one circular arc "
              "whose length is the course length and which leaves along the first and arrives along the second direction (a straight line when they agree), "
              "with dogleg angle equal to the angle between the two directions whichever way round they are given. "
              "A path of stations starts at the given start coordinates and each later station adds exactly its interval's displacement; the inputs are not modified.",
    over=["inputs"], quantifier="all inclinations, azimuths, course lengths and station counts, dogleg < 180 degrees",
    why="Tests compare a handful of wells with reference listings; they cannot show the trigonometric identity for every pair of directions, the removable singularity at zero dogleg, or every station count.",
    mechanism=[("dogleg", "welleng/utils.py:get_dogleg"), ("ratio factor", "welleng/utils.py:get_rf"), ("interval displacement", "welleng/utils.py:min_curve_step"),
               ("path accumulation", "welleng/utils.py:MinCurve")],
    observe_at="MinCurve.poss, MinCurve.delta_x/y/z, get_dogleg and min_curve_step return values")
U = "welleng.utils."


def s_dogleg(v):
    i1, a1, i2, a2 = [v.real(x) for x in ("i1", "a1", "i2", "a2")]
    t1, t2 = tangent(i1, a1), tangent(i2, a2)
    t = dogleg_lemmas(v, t1, t2)
    d = v.call(U + "get_dogleg", i1, a1, i2, a2)
    v.ensure("cos(dogleg) = t1.t2", T.eq(T.cos(d), t))
    v.ensure("0 <= dogleg <= pi", T.land(T.le(0, d), T.le(d, T.PI)))


def s_rf(v):
    d = v.real("d")
    v.assume(T.le(0, d), T.lt(d, T.PI))
    rf = v.call(U + "get_rf", d)
    v.ensure("rf(0) = 1", T.implies(T.eq(d, 0), T.eq(rf, 1)))
    v.ensure("rf * dogleg * cos(dogleg/2) = 2 sin(dogleg/2)",
             T.implies(T.lt(0, d), T.eq(M(rf, d, T.cos(div(d, 2))), mul(2, T.sin(div(d, 2))))))


def s_rf_arr(v):
    n = v.int("n", lo=1)
    d = v.arr("d", n)
    v.forall(n, lambda i: T.land(T.le(0, T.app("d", (i,))), T.lt(T.app("d", (i,)), T.PI)))
    rf = v.call(U + "get_rf", d)
    k = v.idx(n)
    x = v.at(d, k)
    v.assume(T.land(T.le(0, x), T.lt(x, T.PI)))
    v.ensure("rf(0) = 1", T.implies(T.eq(x, 0), T.eq(v.at(rf, k), 1)))
    v.ensure("rf * dogleg * cos(dogleg/2) = 2 sin(dogleg/2)",
             T.implies(T.lt(0, x), T.eq(M(v.at(rf, k), x, T.cos(div(x, 2))), mul(2, T.sin(div(x, 2))))))


def s_step(v):
    n = v.int("n", lo=1)
    md, i1, a1, i2, a2, rf = [v.arr(x, n) for x in ("dmd", "i1", "a1", "i2", "a2", "rf")]
    r = v.call(U + "min_curve_step", md, i1, a1, i2, a2, rf)
    k = v.idx(n)
    t1, t2 = tangent(v.at(i1, k), v.at(a1, k)), tangent(v.at(i2, k), v.at(a2, k))
    for c in range(3):
        v.ensure("displacement " + "NEV"[c], T.eq(v.at(r, k, c), M(v.at(md, k), v.at(rf, k), 0.5, add(t1[c], t2[c]))))


def s_step_scalar(v):
    """scalar call with the ratio factor left to the function"""
    dmd, i1, a1, i2, a2 = [v.real(x) for x in ("dmd", "i1", "a1", "i2", "a2")]
    t1, t2 = tangent(i1, a1), tangent(i2, a2)
    t = dogleg_lemmas(v, t1, t2)
    v.assume(T.lt(-1, t))
    r = v.call(U + "min_curve_step", dmd, i1, a1, i2, a2)
    d = v.call(U + "get_dogleg", i1, a1, i2, a2)
    rf = v.call(U + "get_rf", d)
    for c in range(3):
        v.ensure("displacement " + "NEV"[c], T.eq(v.at(r, c), M(dmd, rf, 0.5, add(t1[c], t2[c]))))


def s_chord(v):
    """lemma over the contracts: the displacement is the chord of a circular
    arc of length dmd that leaves along t1 and arrives along t2"""
    i1, a1, i2, a2, dmd = [v.real(x) for x in ("i1", "a1", "i2", "a2", "dmd")]
    d = v.real("d", gt=0)
    v.assume(T.lt(d, T.PI))
    t1, t2 = tangent(i1, a1), tangent(i2, a2)
    # contracts of get_dogleg and get_rf (proved above)
    v.assume(T.eq(T.cos(d), dot(t1, t2)))
    rf = v.call(U + "get_rf", d)
    D = [M(dmd, rf, 0.5, add(t1[c], t2[c])) for c in range(3)]
    R = div(dmd, d)
    v.assume(T.eq(mul(T.cos(i1), T.cos(i2)), sub(T.cos(d), add(mul(t1[0], t2[0]), mul(t1[1], t2[1])))))
    v.assume(T.lt(0, T.cos(div(d, 2))), T.lt(0, T.sin(d)))
    # chord length 2 R sin(d/2)
    q = sub(norm2(D), M(4, R, R, T.sin(div(d, 2)), T.sin(div(d, 2))))
    w = M(dmd, dmd, div(mul(T.sin(div(d, 2)), T.sin(div(d, 2))), M(T.cos(div(d, 2)), T.cos(div(d, 2)))), 2, div(1, M(d, d)))
    v.ensure("|chord|^2 = (2 R sin(dogleg/2))^2 modulo cos(dogleg) = t1.t2", T.eq(q, mul(w, sub(dot(t1, t2), T.cos(d)))))
    # arc point in the frame (t1, n): R sin d t1 + R (1 - cos d) n with n = (t2 - cos d t1)/sin d
    for c in range(3):
        nrm = div(sub(t2[c], mul(T.cos(d), t1[c])), T.sin(d))
        v.ensure("chord is the arc's end point (%s)" % "NEV"[c],
                 T.eq(D[c], add(M(R, T.sin(d), t1[c]), M(R, sub(1, T.cos(d)), nrm))))


def s_mincurve(v, start=False):
    n = v.int("n", lo=2)
    md, inc, azi = [v.arr(x, n) for x in ("md", "inc", "azi")]
    kw = {}
    st = [0, 0, 0]
    if start:
        st = [v.real("s" + c) for c in "xyz"]
        kw["start_xyz"] = arr3(v, st)
    m = v.call(U + "MinCurve", md, inc, azi, **kw)
    P = v.get(m, "poss")
    for c in range(3):
        v.ensure("start " + "xyz"[c], T.eq(v.at(P, 0, c), st[c]))
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    t1, t2 = tangent(v.at(inc, k), v.at(azi, k)), tangent(v.at(inc, k1), v.at(azi, k1))
    rf = v.at(v.get(m, "rf"), k1)
    dl = v.at(v.get(m, "dogleg"), k1)
    dm = sub(v.at(md, k1), v.at(md, k))
    # x = east, y = north, z = down
    for c, j in ((0, 1), (1, 0), (2, 2)):
        dd = M(dm, rf, 0.5, add(t1[j], t2[j]))
        v.ensure("position increment " + "xyz"[c], T.eq(sub(v.at(P, k1, c), v.at(P, k, c)), dd))
        v.ensure("delta_" + "xyz"[c], T.eq(v.at(v.get(m, "delta_" + "xyz"[c]), k1), dd))
        v.ensure("delta_%s[0] = 0" % "xyz"[c], T.eq(v.at(v.get(m, "delta_" + "xyz"[c]), 0), 0))
    d = v.call(U + "get_dogleg", v.at(inc, k), v.at(azi, k), v.at(inc, k1), v.at(azi, k1))
    v.ensure("dogleg of the interval", T.eq(dl, d))
    v.ensure("ratio factor of the interval", T.eq(rf, v.call(U + "get_rf", d)))
    v.ensure("delta_md", T.eq(v.at(v.get(m, "delta_md"), k1), dm))


def s_reverse(v):
    """walking the interval backwards undoes it"""
    dmd, i1, a1, i2, a2 = [v.real(x) for x in ("dmd", "i1", "a1", "i2", "a2")]
    rf = v.real("rf")
    f = v.call(U + "min_curve_step", dmd, i1, a1, i2, a2, rf)
    b = v.call(U + "min_curve_step", dmd, sub(T.PI, i2), add(a2, T.PI), sub(T.PI, i1), add(a1, T.PI), rf)
    for c in range(3):
        v.ensure("reverse " + "NEV"[c], T.eq(add(v.at(f, c), v.at(b, c)), 0))
    t1, t2 = tangent(i1, a1), tangent(i2, a2)
    dogleg_lemmas(v, t1, t2)
    d1 = v.call(U + "get_dogleg", i1, a1, i2, a2)
    d2 = v.call(U + "get_dogleg", i2, a2, i1, a1)
    v.ensure("dogleg symmetric", T.eq(d1, d2))


def replay(env, tab):
    """counter-model -> inputs of the executable contract"""
    md = [0.0, abs(env.get("dmd", 30.0)) or 30.0]
    inc, azi = [env.get("i1", 0.3), env.get("i2", 0.5)], [env.get("a1", 0.1), env.get("a2", 0.4)]
    for (n, ix), val in tab.items():
        if n in ("inc", "azi") and ix and 0 <= ix[0] < 2:
            (inc if n == "inc" else azi)[ix[0]] = val
    inc = [x % math.pi for x in inc]
    azi = [x % (2 * math.pi) for x in azi]
    return [("step", {"md": md, "inc": inc, "azi": azi, "start": [0, 0, 0]})]


SPECS = [Spec("get_dogleg", s_dogleg, replay=replay), Spec("get_rf", s_rf), Spec("get_rf/array", s_rf_arr),
         Spec("min_curve_step", s_step, replay=replay), Spec("min_curve_step/scalar", s_step_scalar, replay=replay),
         Spec("lemma: chord of the arc", s_chord), Spec("MinCurve", s_mincurve, replay=replay),
         Spec("MinCurve/start", lambda v: s_mincurve(v, True), replay=replay), Spec("reversal", s_reverse, replay=replay)]


# ------------------------------------------------------------------ bounded
def g_step(d):
    c = gen_stations(d, maxdl=3.0)
    c["inc"] = [math.radians(x) for x in c["inc"]]
    c["azi"] = [math.radians(x) for x in c["azi"]]
    c["start"] = [d.real(-1000, 1000) for _ in range(3)] if d.bool(.3) else [0.0, 0.0, 0.0]
    c["unit"] = d.choice(["meters", "feet"])
    return c


def c_step(c):
    from welleng import utils
    md, inc, azi = np.array(c["md"], float), np.array(c["inc"], float), np.array(c["azi"], float)
    keep = [x.copy() for x in (md, inc, azi)]
    m = utils.MinCurve(md, inc, azi, start_xyz=c["start"], unit=c.get("unit", "meters"))
    if not all(np.array_equal(x, y) for x, y in zip(keep, (md, inc, azi))):
        return "inputs modified"
    s = np.array(c["start"], float)
    scale = 1 + max(md) + np.abs(s).max()
    if not close(m.poss[0], s, 1e-12, 1e-9 * scale):
        return "path does not start at the start position: %s" % m.poss[0]
    for k in range(1, len(md)):
        e, dl = ref_step(md[k] - md[k - 1], inc[k - 1], azi[k - 1], inc[k], azi[k])
        if dl > 3.05:
            continue
        g = m.poss[k] - m.poss[k - 1]
        exp = e[[1, 0, 2]]
        if not close(g, exp, 1e-7, 1e-9 * scale):
            return "interval %d: displacement %s" % (k, worst(g, exp))
        if not close(m.dogleg[k], dl, 1e-6, 1e-7):
            return "interval %d: dogleg %r expected %r" % (k, float(m.dogleg[k]), dl)
        L = md[k] - md[k - 1]
        if np.linalg.norm(g) > L * (1 + 1e-9) + 1e-9 * scale:
            return "interval %d: chord %r longer than course length %r" % (k, float(np.linalg.norm(g)), L)
        one = utils.min_curve_step(L, inc[k - 1], azi[k - 1], inc[k], azi[k])
        if not close(np.ravel(one), e, 1e-7, 1e-9 * scale):
            return "scalar step %d: %s" % (k, worst(np.ravel(one), e))
        dd = utils.get_dogleg(inc[k], azi[k], inc[k - 1], azi[k - 1])
        if not close(dd, dl, 1e-6, 1e-7):
            return "dogleg not symmetric: %r vs %r" % (float(dd), dl)
    return None


DYN = [Dyn("step", g_step, c_step, n=(4000, 60000), directed=[
    {"md": [0, 30], "inc": [0, 0], "azi": [0, 3], "start": [0, 0, 0]},
    {"md": [0, 30, 60, 90], "inc": [0.5, 0.5, 0.5, 1.5], "azi": [6.2, 0.1, 0.1, 3.0], "start": [1, 2, 3]},
    {"md": [100, 130], "inc": [1e-9, 2e-9], "azi": [0, 0], "start": [0, 0, 0]},
    {"md": [0, 100], "inc": [0.0, 3.0], "azi": [0, 0], "start": [0, 0, 0]},
    {"md": [0, 100], "inc": [1.2, 1.9], "azi": [0, 2.9], "start": [0, 0, 0]}])]
