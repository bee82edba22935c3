"""P19 separation factor and its parts"""
from .common import *
from pyvc.arrays import as_arr

FILES = ["welleng/clearance.py", "welleng/survey.py", "welleng/utils.py"]
C = "welleng.clearance."
META = dict(
    title="The separation factor is the ISCWSA separation rule at every station",
    statement="For every pair of wells and every station of the reference well the separation factor is (centre-to-centre distance - both hole radii - surface margin) / (k sqrt(sigma_ref^2 + sigma_off^2 + sigma_pa^2)), where sigma^2 = u.C.u is each well's variance along the unit vector u to the closest point (the offset covariance interpolated to that point); "
              "the boundary, the wellbore separation, the separation of the ellipses and the minimum allowable separation distance are the matching sums, so the factor is below one exactly when the distance is below the allowable one. "
              "Stations added at a minimum carry the same rule and leave the factors of the other stations as they are; below a kick-off point the reference covariance counts from there: zero at the kick-off, each source's own increment below.",
    over=["inputs"], quantifier="all pairs of wells, covariances, margins and stations",
    why="The clearance tests compare the standard ISCWSA wells to two decimals; the stop-drilling decision depends on this ratio for every other pair.",
    mechanism=[("rule", "welleng/clearance.py:IscwsaClearance.__init__"), ("variances", "welleng/clearance.py:IscwsaClearance._get_PCRs"), ("offset covariance", "welleng/clearance.py:IscwsaClearance._interpolate_covs"), ("minima", "welleng/clearance.py:IscwsaClearance.get_sf_mins"), ("kick-off", "welleng/clearance.py:Clearance._get_ref_cov_below_kop")],
    observe_at="IscwsaClearance(...).sf, eou_boundary, masd, eou_separation, wellbore_separation, ref_pcr, off_pcr")


def s_variance(v):
    n = v.int("n", lo=1)
    u, w = v.arr("u", n, 3), v.arr("w", n, 3)
    A, B = v.arr("A", n, 3, 3), v.arr("B", n, 1, 3, 3)
    o = v.obj(C + "IscwsaClearance", ref_cov_nev=A, off_cov_nev=B, ref_delta_nevs=u, off_delta_nevs=w)
    v.method(o, "_get_PCRs")
    k = v.idx(n)
    q = lambda x, M_: S(*[M(v.at(x, k, i), M_(i, j), v.at(x, k, j)) for i in range(3) for j in range(3)])
    v.ensure("reference", T.eq(v.at(v.get(o, "ref_pcr"), k), T.sqrt(q(u, lambda i, j: v.at(A, k, i, j)))))
    v.ensure("offset", T.eq(v.at(v.get(o, "off_pcr"), k), T.sqrt(q(w, lambda i, j: v.at(B, k, 0, i, j)))))


def s_interpolate(v):
    n = v.int("n", lo=2)
    A, B = v.arr("A", n, 3, 3), v.arr("B", n, 3, 3)
    off = v.obj("welleng.survey.Survey", cov_hla=A, cov_nev=B)
    o = v.obj(C + "IscwsaClearance", offset=off, _off_cov_nev_corrected=None, _off_cov_hla_corrected=None)
    k = v.idx(T.isub(n, 1))
    f = v.real("f")
    h, c = v.method(o, "_interpolate_covs", T.iadd(k, 1), f)
    for i in range(3):
        for j in range(3):
            for nm, r, X in (("hole frame", h, A), ("position", c, B)):
                v.ensure("%s covariance between the stations %d%d" % (nm, i, j), T.eq(v.at(r, i, j), add(mul(sub(1, f), v.at(X, k, i, j)), mul(f, v.at(X, T.iadd(k, 1), i, j)))))


def s_rule(v):
    """the constructor, with the closest points and the variances by contract"""
    n, m = v.int("n", lo=2), v.int("m", lo=2)
    mk = lambda p, n: v.obj("welleng.survey.Survey", md=v.arr(p + "md", n), n=v.arr(p + "n", n), e=v.arr(p + "e", n), tvd=v.arr(p + "t", n), radius=v.arr(p + "r", n), cov_nev=v.arr(p + "C", n, 3, 3), cov_hla=v.arr(p + "H", n, 3, 3), delta_md=v.arr(p + "d", n))
    ref, off = mk("r", n), mk("o", m)
    k, spa, Sm = v.real("k", gt=0), v.real("spa", gt=0), v.real("Sm")
    v.forall(n, lambda i: T.le(0, v.at(v.get(ref, "md"), i)))
    idx = v.arr("idx", n, kind="i")
    v.forall(n, lambda i: T.land(T.le(0, v.at(idx, i)), T.lt(v.at(idx, i), m)))
    v.external("scipy.spatial.distance.cdist", lambda I, a, b: v.arr("cd", n, m))
    v.external("numpy.argmin", lambda I, a, axis=None: idx)
    D, rp, op = v.arr("D", n), v.arr("rp", n), v.arr("op", n)
    path = v.obj("welleng.survey.Survey", **{x: v.arr("p" + x, n) for x in ("n", "e", "tvd")})
    def contract(name, **attrs):
        def f(I, o):
            for a, x in attrs.items():
                I.setattr(o, a, x)
        v.contract(C + "IscwsaClearance." + name, f)
    contract("_get_closest_points", off=path)
    contract("_get_delta_nev_vectors", distance_cc=D)
    contract("_get_covs")
    contract("_get_PCRs", ref_pcr=rp, off_pcr=op)
    o = v.call(C + "IscwsaClearance", ref, off, k=k, sigma_pa=spa, Sm=Sm, minimize_sf=False)
    i = v.idx(n)
    g = lambda a: v.at(v.get(o, a), i)
    R = add(v.at(v.get(ref, "radius"), i), v.at(v.get(off, "radius"), v.at(idx, i)))
    q = S(mul(v.at(rp, i), v.at(rp, i)), mul(v.at(op, i), v.at(op, i)), mul(spa, spa))
    E_ = mul(k, T.sqrt(q))
    v.cut("variance", T.lt(0, q))
    v.cut("variances of the wells", T.le(0, add(mul(v.at(rp, i), v.at(rp, i)), mul(v.at(op, i), v.at(op, i)))))
    v.ensure("combined standard deviation", T.eq(mul(g("sigmaS"), g("sigmaS")), add(mul(v.at(rp, i), v.at(rp, i)), mul(v.at(op, i), v.at(op, i)))))
    v.ensure("hole radii", T.eq(g("calc_hole"), R))
    v.ensure("boundary", T.eq(g("eou_boundary"), E_))
    v.ensure("wellbore separation", T.eq(g("wellbore_separation"), S(v.at(D, i), neg(R), neg(Sm))))
    v.ensure("ellipse separation", T.eq(g("eou_separation"), S(v.at(D, i), neg(R), neg(Sm), neg(E_))))
    v.ensure("allowable distance", T.eq(g("masd"), S(E_, R, Sm)))
    v.ensure("separation factor", T.eq(g("sf"), div(S(v.at(D, i), neg(R), neg(Sm)), E_)))
    v.ensure("boundary is positive", T.lt(0, g("eou_boundary")))


def s_below_one(v):
    """the factor is below one exactly when the distance is below the allowable one"""
    D, R, Sm = v.real("D"), v.real("R"), v.real("Sm")
    E_ = v.real("E", gt=0)
    sf = div(S(D, neg(R), neg(Sm)), E_)
    masd = S(E_, R, Sm)
    v.ensure("below", T.implies(T.lt(D, masd), T.lt(sf, 1)))
    v.ensure("not below", T.implies(T.le(masd, D), T.le(1, sf)))
    E2 = v.real("E2", gt=0)
    v.assume(T.lt(E_, E2), T.lt(0, S(D, neg(R), neg(Sm))))
    v.ensure("more uncertainty, smaller factor", T.lt(div(S(D, neg(R), neg(Sm)), E2), sf))


def s_kop(v, prop, kind):
    """below the kick-off each source counts from there; sources in depth alone keep their size"""
    n = v.int("n", lo=3)
    ki = T.iadd(v.idx(T.isub(n, 2)), 1)
    d = v.arr("d", n)
    other = v.arr("o", n)
    dia = v.table((n, 3), lambda k, c: T.ite(T.eq(c, 0), v.at(d, k), T.const(0) if kind == "depth" else v.at(other, k)))
    sg, cv = v.arr("sg", n, 3), v.arr("cv", n, 3, 3)
    e = v.obj("welleng.error.ErrorModel.Error", e_DIA=dia, propagation=prop, sigma_e_NEV=sg, cov_NEV=cv)
    ref = v.obj("welleng.survey.Survey", md=v.arr("md", n), err=v.obj("types.SimpleNamespace", errors=v.obj("types.SimpleNamespace", errors={"X": e})))
    o = v.obj(C + "Clearance", reference=ref, kop_index=ki)
    j = v.idx(n, "w")
    v.assume(T.lt(1, T.absv(v.at(d, j))))
    if kind != "depth":
        v.assume(T.lt(1, T.absv(v.at(other, j))))
    r = v.method(o, "_get_ref_cov_below_kop")
    k = v.idx(T.isub(n, ki))
    s = T.iadd(ki, k)
    for a in range(3):
        for b in range(3):
            v.ensure("certain at the kick-off %d%d" % (a, b), T.eq(v.at(r, 0, a, b), 0))
    v.assume(T.le(1, T.toreal(k)))
    z = (lambda f, *c: f(s, *c)) if kind == "depth" else (lambda f, *c: sub(f(s, *c), f(ki, *c)))
    for a in range(3):
        for b in range(3):
            if prop == "random":
                w = z(lambda q, x, y: v.at(cv, q, x, y), a, b)
            else:
                w = mul(z(lambda q, x: v.at(sg, q, x), a), z(lambda q, x: v.at(sg, q, x), b))
            v.ensure("the source's own below it %d%d" % (a, b), T.eq(v.at(r, k, a, b), w))


def s_minima(v, N, at, side):
    """get_sf_mins: a station added where the factor is least between two others, and everything worked out again with it
    (the search by contract: some point between the stations before and after)"""
    import numpy as np
    h = v.obj("welleng.survey.SurveyHeader", azi_reference="grid")
    arrs = {q: v.arr(q, N) for q in ("md", "inc_rad", "azi_grid_rad", "radius", "interpolated", "sf")}
    Cv = v.arr("C", N, 3, 3)
    for i in range(N - 1):
        v.assume(T.lt(v.at(arrs["md"], i), v.at(arrs["md"], i + 1)))
    md = [v.at(arrs["md"], i) for i in range(N)]
    st = {q: arr3(v, vec3(v, q)) for q in ("start_nev", "start_xyz")}
    ref = v.obj("welleng.survey.Survey", header=h, unit="feet", cov_nev=Cv, delta_md=as_arr([sub(md[i], md[i - 1]) if i else T.const(0) for i in range(N)]), **{q: a for q, a in arrs.items() if q != "sf"}, **st)
    off = v.obj("welleng.survey.Survey")
    par = {q: v.real(q, gt=0) for q in ("k", "sigma_pa", "Sm", "kop_depth")}
    rr, ro = v.arr("Rr", N), v.arr("Ro", 5)
    o = v.obj(C + "IscwsaClearance", ref=ref, reference=ref, offset=off, sf=arrs["sf"], Rr=rr, Ro=ro, **par)
    x = v.real("x")
    v.assume(*([T.lt(0, x), T.lt(x, sub(md[at + 1], md[at]))] if side == "after" else [T.lt(x, 0), T.lt(sub(md[at - 1], md[at]), x)]))
    v.assume(T.ne(x, sub(md[at], md[at - 1])))                # (by the way it compares, the code passes over a minimum that far beyond the station)
    calls, made = [], {}
    v.external("scipy.signal.argrelmin", lambda I, a, **k: (as_arr([at]),))

    def search(I, fn, x0, args=(), method=None, bounds=None, **k):
        calls.append((args, bounds))
        return v.obj("contracts.common.Quantity", x=as_arr([x]), fun=v.real("fun"))
    v.external("scipy.optimize.minimize", search)
    v.external("numpy.searchsorted", lambda I, a, z, side="left", **k: at + (1 if side_ == "after" else 0))
    side_ = side
    node = v.obj("welleng.node.Node", md=v.real("pmd"), inc_rad=v.real("pinc"), azi_rad=v.real("pazi"), cov_nev=v.arr("pC", 1, 3, 3))

    def point(I, s, z, *a, **k):
        made["at"] = (s, z)
        return node
    v.contract("welleng.survey.Survey.interpolate_md", point)
    new = v.obj("welleng.survey.Survey")

    def survey(I, *a, **k):
        made["survey"] = dict(zip(("md", "inc", "azi"), a), **k)
        return new
    v.external(C + "Survey", survey)

    def again(I, *a, **k):
        made["again"] = (a, k)
        return v.obj(C + "IscwsaClearance", sf=v.arr("sf again", N + 1), ref=a[0])
    v.external(C + "IscwsaClearance", again)
    v.method(o, "get_sf_mins")
    yes = lambda q: T.TRUE if q else T.FALSE
    b = calls[0][1]
    b = b[0] if isinstance(b, (list, tuple)) else [v.at(b, 0, 0), v.at(b, 0, 1)]
    v.ensure("searched between the stations before and after", T.land(T.eq(b[0], sub(md[at - 1], md[at])), T.eq(b[1], sub(md[at + 1], md[at])), yes(len(calls) == 1)))
    v.ensure("the point found on the reference", T.land(yes(made["at"][0] is ref), T.eq(made["at"][1], add(md[at], x))))
    k = made["survey"]
    p = at + (1 if side == "after" else 0)
    put = lambda rows, z: rows[:p] + [z] + rows[p:]
    col = lambda q: [v.at(arrs[q], i) for i in range(N)]
    for q, w in (("md", put(md, v.get(node, "md"))), ("inc", put(col("inc_rad"), v.get(node, "inc_rad"))), ("azi", put(col("azi_grid_rad"), v.get(node, "azi_rad")))):
        v.ensure("stations in order: " + q, T.land(yes(k[q].shape[0] == N + 1), *[T.eq(v.at(k[q], i), z) for i, z in enumerate(w)]))
    v.ensure("covariances", T.land(*[T.eq(v.at(k["cov_nev"], i, a, b_), v.at(v.get(node, "cov_nev"), 0, a, b_) if i == p else v.at(Cv, i - (i > p), a, b_)) for i in range(N + 1) for a in range(3) for b_ in range(3)]))
    v.ensure("radii of the others", T.land(*[T.eq(v.at(k["radius"], i), v.at(arrs["radius"], i - (i > p))) for i in range(N + 1) if i != p]))
    v.ensure("start, unit and angles", T.land(yes(k["deg"] is False and k["unit"] == "feet" and v.get(k["header"], "azi_reference") == "grid"), *[T.eq(v.at(k[q], c), v.at(st[q], c)) for q in st for c in range(3)]))
    a, q = made["again"]
    v.ensure("worked out again with the same margins", T.land(yes(a[0] is new or v.get(o, "ref") is a[0]), yes(a[1] is off and q.get("minimize_sf") is False), *[T.eq(q[z], par[z]) for z in par]))
    v.ensure("and taken over", yes(v.get(o, "sf").shape[0] == N + 1))


SPECS = [Spec("variance along the line", s_variance), Spec("offset covariance", s_interpolate), Spec("rule", s_rule), Spec("below one", s_below_one)]
SPECS += [Spec("minima/%d of %d/%s" % (a, n, s), lambda v, n=n, a=a, s=s: s_minima(v, n, a, s), bounded="%d stations" % n) for n, a, s in ((3, 1, "before"), (3, 1, "after"), (4, 2, "before"), (4, 2, "after"))]
SPECS += [Spec("kick-off/%s/%s" % (p, k), lambda v, p=p, k=k: s_kop(v, p, k)) for p in ("random", "systematic", "global", "within_pad") for k in ("depth", "other")]


# ---- executed against the real code
def gen_wells(d, kop=False):
    from .p07 import gen_full
    a = gen_full(d, lo=2, hi=6, maxinc=d.choice([0.0, 30.0, 80.0]), maxdl=.5)
    b = gen_full(d, lo=2, hi=7, maxinc=d.choice([0.0, 30.0, 80.0]), maxdl=.5)
    b["gsf"], b["unit"] = a["gsf"], a["unit"]
    for c, s in ((a, 1.0), (b, 1.0)):
        k = d.real(.2, 30)
        L = [[[d.plain(-1, 1) for _ in range(3)] for _ in range(3)] for _ in c["md"]]
        tot, out = np.zeros((3, 3)), []
        for x in L:
            out.append((tot * k).tolist())
            tot = tot + np.array(x) @ np.array(x).T
        c["C"] = out if d.bool(.8) else [(np.array(x) @ np.array(x).T * k).tolist() for x in L]
    r = d.r.random()
    off = [d.real(-300, 300), d.real(-300, 300), d.real(-100, 100)]
    b["nev"] = [x + y for x, y in zip(a["nev"], off)]
    if r < .2:
        b.update(md=list(a["md"]), inc=list(a["inc"]), azi=list(a["azi"]), C=a["C"])
    if r < .1:
        # a twin alongside, its stations almost level with the reference's
        u = ref_tan(math.radians(a["inc"][0]), math.radians(a["azi"][0]))
        o = np.array([d.plain(-1, 1) for _ in range(3)])
        o = o - (o @ u) * u
        o = o / max(np.linalg.norm(o), 1e-3) * d.real(2, 60) + u * d.choice([0.0, d.real(-2, 2), d.real(-.5, .5)])
        b["nev"] = [x + float(y) for x, y in zip(a["nev"], o)]
    rad = lambda n: d.choice([None, d.real(.05, .5), [d.real(.05, .5) for _ in range(n)]])
    return dict(a=a, b=b, ra=rad(len(a["md"])), rb=rad(len(b["md"])), k=d.choice([3.5, d.real(.5, 5)]), spa=d.choice([.5, d.real(.01, 3)]), Sm=d.choice([.3, 0.0, d.real(0, 2)]))


def build(c):
    from .p07 import full_survey
    return full_survey(c["a"], radius=c["ra"]), full_survey(c["b"], radius=c["rb"])


def rule(ref, off, cl, k, spa, Sm, j, closest=None):
    """the separation rule at station j from the positions and covariances alone"""
    p = np.array([ref.n[j], ref.e[j], ref.tvd[j]])
    q = np.array([cl.off.n[j], cl.off.e[j], cl.off.tvd[j]])
    m = cl.off.md[j]
    i = min(max(int(np.searchsorted(off.md, m, side="right")) - 1, 0), len(off.md) - 2)
    f = (m - off.md[i]) / (off.md[i + 1] - off.md[i])
    Co = off.cov_nev[i] + f * (off.cov_nev[i + 1] - off.cov_nev[i])
    Cr = ref.cov_nev[j]
    D = float(np.linalg.norm(q - p))
    u = (q - p) / D if D else np.zeros(3)
    ds = [np.linalg.norm(np.array([off.n[x], off.e[x], off.tvd[x]]) - p) for x in range(len(off.md))]
    near = int(np.argmin(ds))
    tie = len(ds) > 1 and sorted(ds)[1] - ds[near] < 1e-6 and len(set(off.radius)) > 1
    R = float(ref.radius[j] + off.radius[near])
    vr, vo = float(u @ Cr @ u), float(u @ Co @ u)
    E_ = k * math.sqrt(max(vr, 0) + max(vo, 0) + spa ** 2)
    return dict(D=D, R=R, E=E_, vr=vr, vo=vo, tie=tie, sf=(D - R - Sm) / E_, masd=E_ + R + Sm, sep=D - R - Sm)


def compare(ref, off, cl, c):
    n = len(cl.ref.md)
    if len(cl.sf) != n:
        return "%d factors for %d stations" % (len(cl.sf), n)
    for j in range(n):
        w = rule(cl.ref, off, cl, c["k"], c["spa"], c["Sm"], j)
        if w["tie"]:
            continue
        t = 1e-6 * (1 + abs(w["D"]) + abs(w["E"]))
        for nm, got, want in (("distance", cl.distance_cc[j], w["D"]), ("boundary", cl.eou_boundary[j], w["E"]), ("allowable distance", cl.masd[j], w["masd"]), ("wellbore separation", cl.wellbore_separation[j], w["sep"]),
                              ("ellipse separation", cl.eou_separation[j], w["sep"] - w["E"]), ("hole radii", cl.calc_hole[j], w["R"])):
            if not abs(got - want) <= t:
                return "%s at station %d is %r instead of %r" % (nm, j, float(got), want)
        if not abs(cl.sf[j] - w["sf"]) <= 1e-6 * (1 + abs(w["sf"])) * (1 + 1 / w["E"]):
            return "separation factor at station %d is %r, the rule gives %r" % (j, float(cl.sf[j]), w["sf"])


def check_sf(c):
    import welleng as we
    ref, off = build(c)
    cl = we.clearance.IscwsaClearance(ref, off, k=c["k"], sigma_pa=c["spa"], Sm=c["Sm"], minimize_sf=False)
    return compare(ref, off, cl, c)


def check_min(c):
    import welleng as we
    ref, off = build(c)
    base = we.clearance.IscwsaClearance(ref, off, k=c["k"], sigma_pa=c["spa"], Sm=c["Sm"], minimize_sf=False)
    cl = we.clearance.IscwsaClearance(ref, off, k=c["k"], sigma_pa=c["spa"], Sm=c["Sm"])
    r = compare(cl.ref, off, cl, c)
    if r:
        return "with minima: " + r
    md = list(cl.ref.md)
    for j, m in enumerate(ref.md):
        hit = [x for x in range(len(md)) if abs(md[x] - m) < 1e-9 * (1 + abs(m))]
        if not hit:
            return "station %d is gone after the search for minima" % j
        if not abs(cl.sf[hit[0]] - base.sf[j]) <= 1e-5 * (1 + abs(base.sf[j])) * (1 + 1 / base.eou_boundary[j]):
            return "the factor of station %d changes from %r to %r with the minima" % (j, float(base.sf[j]), float(cl.sf[hit[0]]))
    for x in range(len(md)):
        if min(abs(md[x] - m) for m in ref.md) > 1e-6:
            j = int(np.searchsorted(ref.md, md[x]))
            f = (md[x] - ref.md[j - 1]) / (ref.md[j] - ref.md[j - 1])
            Cw = ref.cov_nev[j - 1] + f * (ref.cov_nev[j] - ref.cov_nev[j - 1])
            if np.abs(cl.ref.cov_nev[x] - Cw).max() > 1e-6 * max(np.abs(Cw).max(), 1e-6):
                return "covariance at the added depth %r is not between its neighbours'" % md[x]
            from .p07 import ref_at
            p, u, _ = ref_at(c["a"], md[x])
            if np.abs(np.array([cl.ref.n[x], cl.ref.e[x], cl.ref.tvd[x]]) - p).max() > 1e-5 * (1 + np.abs(p).max()):
                return "added station at %r is off the path" % md[x]
            if not cl.ref.interpolated[x]:
                return "added station at %r is not flagged" % md[x]


def check_kop(c):
    import warnings
    import welleng as we
    from .p07 import full_survey
    from .p16 import make
    a = dict(c["a"], model=c["model"], C=None, gsf=1.0)
    ref = make(a)
    if ref is None:
        raise Skip
    off = full_survey(dict(c["b"], gsf=1.0), radius=c["rb"])
    n = len(a["md"])
    ki = c["ki"] % (n - 1)
    kd = ref.md[ki] - (0.0 if ki == 0 or c["exact"] else .4 * (ref.md[ki] - ref.md[ki - 1]))
    cl = we.clearance.IscwsaClearance(ref, off, k=c["k"], sigma_pa=c["spa"], Sm=c["Sm"], minimize_sf=False, kop_depth=kd)
    if len(cl.ref.md) != n - ki or np.abs(cl.ref.md - ref.md[ki:]).max() > 1e-9:
        return "reference below %r has depths %s" % (kd, cl.ref.md.tolist())
    for x in ("n", "e", "tvd", "x", "y", "z"):
        if np.abs(getattr(cl.ref, x) - getattr(ref, x)[ki:]).max() > 1e-6 * (1 + np.abs(getattr(ref, x)).max()):
            return "positions change below the kick-off (%s)" % x
    if ki:
        want = np.zeros((n - ki, 3, 3))
        for e in ref.err.errors.errors.values():
            d = np.asarray(e.e_DIA)
            only_depth = np.abs(d[:, 1:]).max() < 1e-10 and np.abs(d[:, 0]).max() > 1e-10
            Cn = np.asarray(e.cov_NEV)
            if e.propagation == "random":
                y = Cn[ki:] - (0 if only_depth else Cn[ki])
                y[0] = 0
            else:
                s = np.asarray(e.sigma_e_NEV)[ki:] - (0 if only_depth else np.asarray(e.sigma_e_NEV)[ki])
                s[0] = 0
                y = np.einsum("ki,kj->kij", s, s)
            want += y
        if np.abs(cl.ref.cov_nev - want).max() > 1e-7 * max(np.abs(want).max(), 1e-6):
            return "covariance below the kick-off is not the sum of the sources' own"
        if np.abs(cl.ref.cov_nev[0]).max() > 0:
            return "the kick-off point is uncertain"
    if np.linalg.eigvalsh(cl.ref.cov_nev).min() < -1e-9:
        raise Skip
    return compare(cl.ref, off, cl, c)


def gen_kop(d):
    c = gen_wells(d)
    c["model"] = d.choice(["ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4", "MWD+IFR1", "GYRO-NS"])
    c["a"]["unit"] = c["b"]["unit"] = "meters"
    c["ki"], c["exact"] = d.int(0, 5), d.bool()
    return c


DYN = [Dyn("rule", gen_wells, check_sf, n=(120, 2500)), Dyn("minima", gen_wells, check_min, n=(60, 1500)), Dyn("kick-off", gen_kop, check_kop, n=(60, 1200))]
