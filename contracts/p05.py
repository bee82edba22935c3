"""P05 coordinate frames and covariance transforms"""
from .common import *
from .p03 import high, right

FILES = ["welleng/utils.py", "welleng/survey.py"]
U = "welleng.utils."
META = dict(
    title="NEV, XYZ and hole-frame transforms are exact rotations and inverses",
    statement="Converting positions between x, y, z and north, east, vertical (with any pair of start coordinates) and back restores them, and swaps exactly east and north. "
              "The high-side/lateral/along-hole frame of a station is the right-handed orthonormal set (cos i cos a, cos i sin a, -sin i), (-sin a, cos a, 0), (sin i cos a, sin i sin a, cos i); vectors transform into it by those dot products and covariances C by T C T', the reverse transforms are their inverses, and symmetry and trace of covariances are preserved. "
              "A survey given one of its two covariance forms carries the other as its transform at each station, with any start covariance added to the north/east/vertical form and the hole-frame form recomputed; building covariances from components and extracting the standard deviations are inverse.",
    over=["inputs"], quantifier="all inclinations, azimuths, positions and 3x3 covariances, any number of stations",
    why="Tests check round trips on sampled surveys; a transposed or mis-signed axis survives many symmetric samples, and must be excluded for every direction.",
    mechanism=[("frame", "welleng/utils.py:get_transform"), ("to hole frame", "welleng/utils.py:NEV_to_HLA"), ("from hole frame", "welleng/utils.py:HLA_to_NEV"), ("axes", "welleng/utils.py:get_nev / get_xyz"),
               ("survey covariances", "welleng/survey.py:Survey._get_errors"), ("covariance assembly", "welleng/utils.py:make_cov, make_long_cov, cov_from_vec, get_sigmas, errors_from_cov")],
    observe_at="returned arrays; Survey.cov_nev and cov_hla")


def s_axes(v):
    n = v.int("n", lo=1)
    p = v.arr("p", n, 3)
    sx, sn = vec3(v, "sx"), vec3(v, "sn")
    nev = v.call(U + "get_nev", p, start_xyz=arr3(v, sx), start_nev=arr3(v, sn))
    back = v.call(U + "get_xyz", nev, start_xyz=arr3(v, sx), start_nev=arr3(v, sn))
    k = v.idx(n)
    for c, d in ((0, 1), (1, 0), (2, 2)):
        v.ensure("nev " + "NEV"[c], T.eq(v.at(nev, k, c), add(sub(v.at(p, k, d), sx[d]), sn[c])))
    for c in range(3):
        v.ensure("xyz restored " + "xyz"[c], T.eq(v.at(back, k, c), v.at(p, k, c)))


def s_single(v):
    """one position given as a flat vector"""
    p = vec3(v, "p")
    nev = v.call(U + "get_nev", arr3(v, p))
    xyz = v.call(U + "get_xyz", arr3(v, p))
    for c, d in ((0, 1), (1, 0), (2, 2)):
        v.ensure("nev " + "NEV"[c], T.eq(v.at(nev, 0, c), p[d]))
        v.ensure("xyz " + "NEV"[c], T.eq(v.at(xyz, 0, c), p[d]))


def listing(v):
    n = v.int("n", lo=1)
    s = v.arr("s", n, 3)
    k = v.idx(n)
    i, a = v.at(s, k, 1), v.at(s, k, 2)
    return n, s, k, [high(i, a), right(i, a), tangent(i, a)]


def s_frame(v):
    n, s, k, R = listing(v)
    t = v.call(U + "get_transform", s)
    for r in range(3):
        for c in range(3):
            v.ensure("axis %s component %d" % ("HLA"[r], c), T.eq(v.at(t, k, r, c), R[r][c]))
    for r in range(3):
        for q in range(r, 3):
            v.ensure("axes %s.%s" % ("HLA"[r], "HLA"[q]), T.eq(S(*[mul(v.at(t, k, r, c), v.at(t, k, q, c)) for c in range(3)]), int(r == q)))
    x = cross([v.at(t, k, 0, c) for c in range(3)], [v.at(t, k, 1, c) for c in range(3)])
    for c in range(3):
        v.ensure("right-handed", T.eq(x[c], v.at(t, k, 2, c)))


def s_vecs(v):
    n, s, k, R = listing(v)
    w = v.arr("w", n, 3)
    h = v.call(U + "NEV_to_HLA", s, w, cov=False)
    x = [v.at(w, k, c) for c in range(3)]
    for r in range(3):
        v.ensure("component " + "HLA"[r], T.eq(v.at(h, k, r), dot(R[r], x)))
    b = v.call(U + "HLA_to_NEV", s, h, cov=False)
    for c in range(3):
        v.ensure("restored " + "NEV"[c], T.eq(v.at(b, k, c), x[c]))


def s_cov(v, rev=False):
    n, s, k, R = listing(v)
    C = v.arr("C", n, 3, 3)
    f, g = ("HLA_to_NEV", "NEV_to_HLA") if rev else ("NEV_to_HLA", "HLA_to_NEV")
    Q = [[R[c][r] for c in range(3)] for r in range(3)] if rev else R
    h = v.call(U + f, s, C, cov=True)
    cc = lambda a, b: v.at(C, k, a, b)
    for a in range(3):
        for b in range(3):
            v.ensure("transformed %d%d" % (a, b), T.eq(v.at(h, k, a, b), S(*[M(Q[a][p], cc(p, q), Q[b][q]) for p in range(3) for q in range(3)])))
    bk = v.call(U + g, s, h, cov=True)
    for a in range(3):
        for b in range(3):
            v.ensure("restored %d%d" % (a, b), T.eq(v.at(bk, k, a, b), cc(a, b)))
    v.ensure("trace preserved", T.eq(S(*[v.at(h, k, a, a) for a in range(3)]), S(*[cc(a, a) for a in range(3)])))
    v.assume(*[T.eq(cc(a, b), cc(b, a)) for a in range(3) for b in range(a)])
    for a in range(3):
        for b in range(a):
            v.ensure("symmetry preserved", T.eq(v.at(h, k, a, b), v.at(h, k, b, a)))
    # positive semi-definiteness carries over: x' (T C T') x = y' C y with y = T' x
    x = vec3(v, "x")
    y = [S(*[mul(Q[a][c], x[a]) for a in range(3)]) for c in range(3)]
    v.ensure("quadratic form carried over", T.eq(S(*[M(x[a], v.at(h, k, a, b), x[b]) for a in range(3) for b in range(3)]),
                                                 S(*[M(y[a], cc(a, b), y[b]) for a in range(3) for b in range(3)])))


def s_survey(v, hla=False, start=False):
    n = v.int("n", lo=2)
    C = v.arr("C", n, 3, 3)
    kw = {"cov_hla" if hla else "cov_nev": C}
    S0 = None
    if start:
        S0 = v.arr("S0", 3, 3)
        kw["start_cov_nev"] = S0
    n, md, inc, azi, h, s = survey(v, n, **kw)
    k = v.idx(n)
    i, a = v.at(inc, k), v.at(azi, k)
    R = [high(i, a), right(i, a), tangent(i, a)]
    nev, hl = v.get(s, "cov_nev"), v.get(s, "cov_hla")
    cc = lambda a, b: v.at(C, k, a, b)
    for a in range(3):
        for b in range(3):
            e = S(*[M(R[p][a], cc(p, q), R[q][b]) for p in range(3) for q in range(3)]) if hla else cc(a, b)
            if start:
                e = add(e, v.at(S0, a, b))
            v.ensure("cov_nev %d%d" % (a, b), T.eq(v.at(nev, k, a, b), e))
    N = [[v.at(nev, k, p, q) for q in range(3)] for p in range(3)]
    for a in range(3):
        for b in range(3):
            v.ensure("cov_hla is T cov_nev T' %d%d" % (a, b), T.eq(v.at(hl, k, a, b), S(*[M(R[a][p], N[p][q], R[b][q]) for p in range(3) for q in range(3)])))


def s_build(v):
    n = v.int("n", lo=1)
    a = [v.arr(x, n) for x in "abc"]
    k = v.idx(n)
    x = [v.at(q, k) for q in a]
    for long in (True, False):
        c = v.call(U + "make_cov", *a, long=long)
        for p in range(3):
            for q in range(3):
                e = mul(x[p], x[q]) if long or p == q else 0
                v.ensure("make_cov %s %d%d" % (long, p, q), T.eq(v.at(c, k, p, q), e))
        sg = v.call(U + "get_sigmas", c)
        for p in range(3):
            v.ensure("sigma %d" % p, T.implies(T.le(0, x[p]), T.eq(v.at(sg[p], k), x[p])))
    w = v.arr("w", n, 3)
    c = v.call(U + "cov_from_vec", w)
    for p in range(3):
        for q in range(3):
            v.ensure("cov_from_vec %d%d" % (p, q), T.eq(v.at(c, k, p, q), mul(v.at(w, k, p), v.at(w, k, q))))
    r = v.arr("r", n, 6)
    c = v.call(U + "make_long_cov", r)
    ix = [[0, 1, 2], [1, 3, 4], [2, 4, 5]]
    for p in range(3):
        for q in range(3):
            v.ensure("make_long_cov %d%d" % (p, q), T.eq(v.at(c, k, p, q), v.at(r, k, ix[p][q])))
    ls = v.call(U + "get_sigmas", c, long=True)
    for j, (p, q) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
        v.ensure("long sigma %d%d" % (p, q), T.eq(v.at(ls[j], k), v.at(r, k, ix[p][q])))
    e = v.call(U + "errors_from_cov", c)
    for j, (p, q) in enumerate(((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))):
        v.ensure("errors_from_cov %d%d" % (p, q), T.eq(v.at(e, k, j), v.at(r, k, ix[p][q])))


SPECS = [Spec("axes", s_axes), Spec("axes/flat", s_single), Spec("frame", s_frame), Spec("vectors", s_vecs), Spec("covariance", s_cov), Spec("covariance/reverse", lambda v: s_cov(v, True)),
         Spec("assembly", s_build)]
SPECS += [Spec("survey covariance/%s%s" % ("hla" if h else "nev", "/start" if s else ""), lambda v, h=h, s=s: s_survey(v, h, s)) for h in (False, True) for s in (False, True)]


def rcov(d, scale=1.0):
    A = np.array([[d.plain(-1, 1) for _ in range(3)] for _ in range(3)]) * scale
    return (A @ A.T).tolist()


def g(d):
    c = gen_stations(d, maxdl=3.0, hi=6)
    n = len(c["md"])
    c["C"] = [rcov(d, d.choice([0.1, 1, 30])) for _ in range(n)]
    c["S0"] = rcov(d) if d.bool() else None
    c["hla"] = d.bool()
    c["w"] = [[d.real(-1000, 1000) for _ in range(3)] for _ in range(n)]
    c["s"] = [[d.real(-1000, 1000) for _ in range(3)] for _ in range(2)]
    return c


def ck(c):
    import welleng as we
    from welleng import utils as u
    C = np.array(c["C"])
    I, A = np.radians(c["inc"]), np.radians(c["azi"])
    n = len(I)
    R = np.array([[[math.cos(i) * math.cos(a), math.cos(i) * math.sin(a), -math.sin(i)], [-math.sin(a), math.cos(a), 0.], ref_tan(i, a)] for i, a in zip(I, A)])
    lst = np.column_stack([c["md"], I, A])
    w = np.array(c["w"])
    keep = [x.copy() for x in (C, lst, w)]
    tol = dict(rtol=1e-9, atol=1e-9 * (1 + np.abs(C).max()))
    hw = u.NEV_to_HLA(lst, w, cov=False)
    e = np.array([R[k] @ w[k] for k in range(n)])
    if not close(hw, e, 1e-9, 1e-7):
        return "vectors to hole frame: %s" % worst(hw, e)
    if not close(u.HLA_to_NEV(lst, hw, cov=False), w, 1e-9, 1e-7):
        return "vectors back: %s" % worst(u.HLA_to_NEV(lst, hw, cov=False), w)
    if not close(u.HLA_to_NEV(lst, hw, cov=False, trans=u.get_transform(lst)), w, 1e-9, 1e-7):
        return "vectors back with a given transform"
    e = np.array([R[k] @ C[k] @ R[k].T for k in range(n)])
    if not close(u.NEV_to_HLA(lst, C), e, **tol):
        return "covariance to hole frame: %s" % worst(u.NEV_to_HLA(lst, C), e)
    f = np.array([R[k].T @ C[k] @ R[k] for k in range(n)])
    if not close(u.HLA_to_NEV(lst, C), f, **tol):
        return "covariance from hole frame: %s" % worst(u.HLA_to_NEV(lst, C), f)
    s = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=we.survey.SurveyHeader(azi_reference="grid", b_total=50000, dip=70, declination=0),
                         start_cov_nev=None if c["S0"] is None else np.array(c["S0"]), **{"cov_hla" if c["hla"] else "cov_nev": C})
    nev = (f if c["hla"] else C) + (0 if c["S0"] is None else np.array(c["S0"]))
    if not close(s.cov_nev, nev, **tol):
        return "survey cov_nev: %s" % worst(s.cov_nev, nev)
    hla = np.array([R[k] @ nev[k] @ R[k].T for k in range(n)])
    if not close(s.cov_hla, hla, **tol):
        return "survey cov_hla: %s" % worst(s.cov_hla, hla)
    sx, sn = c["s"]
    p = u.get_nev(w, start_xyz=sx, start_nev=sn)
    e = (w - sx)[:, [1, 0, 2]] + sn
    if not close(p, e, 1e-12, 1e-9):
        return "get_nev: %s" % worst(p, e)
    if not close(u.get_xyz(p, start_xyz=sx, start_nev=sn), w, 1e-9, 1e-9):
        return "get_xyz does not undo get_nev: %s" % worst(u.get_xyz(p, start_xyz=sx, start_nev=sn), w)
    a, b, d = np.abs(w).T
    for long in (True, False):
        m = u.make_cov(a, b, d, long=long)
        e = np.array([np.outer(x, x) * (1 if long else np.eye(3)) for x in np.abs(w)])
        if not close(m, e, 1e-9, 1e-9):
            return "make_cov(long=%s): %s" % (long, worst(m, e))
        if not close(np.array(u.get_sigmas(m)).T, np.abs(w), 1e-9, 1e-9):
            return "get_sigmas: %s" % worst(np.array(u.get_sigmas(m)).T, np.abs(w))
    E = u.errors_from_cov(C)
    if not close(u.make_long_cov(E), C, 1e-12, 1e-12):
        return "covariance from its six components: %s" % worst(u.make_long_cov(E), C)
    D = u.errors_from_cov(C, data=True)
    for k in range(n):
        if not close([D[k][x] for x in ("nn", "ne", "nv", "ee", "ev", "vv")], [C[k][i][j] for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))]):
            return "errors_from_cov data of station %d" % k
    if not close(u.cov_from_vec(w), np.array([np.outer(x, x) for x in w])):
        return "cov_from_vec"
    if not all(np.array_equal(x, y) for x, y in zip(keep, (C, lst, w))):
        return "inputs modified"


DYN = [Dyn("frames", g, ck, n=(2000, 30000))]
