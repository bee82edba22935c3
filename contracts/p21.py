"""P21 the uncertainty envelope as a mesh"""
from fractions import Fraction
from pyvc.interp import Model
from .common import *

FILES = ["welleng/mesh.py", "welleng/utils.py", "welleng/clearance.py"]
ME = "welleng.mesh."
META = dict(
    title="The mesh of a well is the closed surface of its uncertainty ellipses",
    statement="For every survey with covariances (or, for circles, without) and every number of vertices the mesh has one ring per station, in the plane across the hole at the station: its points lie on the ellipse with the principal axes of the across-hole covariance, semi-axes sigma standard deviations plus the hole radius, the surface margin and half the project-ahead sigma (on that ellipse's pedal curve for the pedal method, on the hole's circle for circles), equally spaced in the ellipse's angle. "
              "Lining the rings up only rotates or reverses the order in which a ring's points are listed; the two end centres are the first and last position. "
              "The faces join neighbouring rings and fan both ends from their centre into one closed surface: every vertex is used and every edge belongs to exactly two faces. Slicing a well into meshes covers every interval, each mesh being that of its slice, and a mesh clearance uses the margin for the offset well only.",
    over=["inputs", "configurations"], quantifier="all surveys, covariances, numbers of vertices, sigmas and margins",
    why="The mesh test runs three methods on one well and checks nothing about the shape; a hole or an undersized ring makes the collision check miss a collision.",
    mechanism=[("rings", "welleng/mesh.py:WellMesh._get_vertices"), ("order", "welleng/mesh.py:WellMesh._align_verts"), ("faces", "welleng/mesh.py:get_faces"), ("ends", "welleng/mesh.py:get_ends"), ("slices", "welleng/mesh.py:sliced_mesh"), ("clearance", "welleng/clearance.py:MeshClearance._get_mesh")],
    observe_at="WellMesh(...).vertices, .mesh, sliced_mesh(), to_trimesh()")


def s_ring(v, method):
    n = v.int("n", lo=1)
    nv = v.int("nv", lo=4)
    _, h, s = survey_obj(v, n=n)
    H = v.arr("H", n, 3, 3)
    s.attrs["cov_hla"] = H
    rad = v.get(s, "radius")
    k, j = v.idx(n), v.idx(nv, "j")
    sg, pa, Sm = v.real("sigma", lo=0), v.real("pa", lo=0), v.real("Sm", lo=0)
    P = v.arr("P", n, 3)
    o = v.obj(ME + "WellMesh", s=s, n_verts=nv, sigma=sg, radius=rad, Sm=Sm, sigma_pa=pa, method=method, nevs=P)
    asked = []
    if method == "ellipse":
        W, E = v.arr("W", n, 2), v.arr("E", n, 2, 2)
        v.forall(n, lambda i: T.land(T.le(v.at(W, i, 0), v.at(W, i, 1)), T.eq(add(mul(v.at(E, i, 0, 1), v.at(E, i, 0, 1)), mul(v.at(E, i, 1, 1), v.at(E, i, 1, 1))), 1)))
        v.external("numpy.linalg.eigh", lambda I, a, **kw: asked.append(a) or (W, E))
    if method == "pedal_curve":
        o.attrs["sigmaH"], o.attrs["sigmaL"] = v.arr("sH", n), v.arr("sL", n)
    v.method(o, "_get_vertices")
    r = v.get(o, "vertices")
    v.ensure("one ring per station, one point per vertex", T.land(T.eq(r.shape[0], n), T.eq(r.shape[1], nv), T.eq(r.shape[2], 3)))
    I_, A_ = v.at(v.get(s, "inc_rad"), k), v.at(v.get(s, "azi_grid_rad"), k)
    ax = [[mul(T.cos(I_), T.cos(A_)), mul(T.cos(I_), T.sin(A_)), neg(T.sin(I_))], [neg(T.sin(A_)), T.cos(A_), T.const(0)], tangent(I_, A_)]
    lam = div(M(2, T.PI, T.toreal(j)), T.toreal(nv))
    c, sn = T.cos(lam), T.sin(lam)
    R = S(v.at(rad, k), Sm, div(pa, 2))
    if method == "circle":
        x, y = mul(v.at(rad, k), c), mul(v.at(rad, k), sn)
    elif method == "ellipse":
        a = add(mul(sg, T.sqrt(T.ite(T.le(0, v.at(W, k, 1)), v.at(W, k, 1), 0))), R)
        b = add(mul(sg, T.sqrt(T.ite(T.le(0, v.at(W, k, 0)), v.at(W, k, 0), 0))), R)
        e0, e1 = v.at(E, k, 0, 1), v.at(E, k, 1, 1)
        v.cut("unit direction", T.eq(T.sqrt(add(mul(e0, e0), mul(e1, e1))), 1))
        v.cut("its cosine", T.eq(T.cos(T.atan2(e1, e0)), e0))
        v.cut("its sine", T.eq(T.sin(T.atan2(e1, e0)), e1))
        x, y = sub(M(a, c, e0), M(b, sn, e1)), add(M(a, c, e1), M(b, sn, e0))
        v.ensure("of the across-hole covariance", T.land(*[T.eq(v.at(asked[0], k, p, q), v.at(H, k, p, q)) for p in range(2) for q in range(2)]))
    for i in range(3):
        v.ensure("point of the ring " + "NEV"[i], T.eq(v.at(r, k, j, i), S(v.at(P, k, i), mul(x, ax[0][i]), mul(y, ax[1][i]))))


def s_pedal(v, nv):
    n = v.int("n", lo=1)
    _, h, s = survey_obj(v, n=n)
    rad = v.get(s, "radius")
    k = v.idx(n)
    sg, pa, Sm = v.real("sigma", lo=0), v.real("pa", lo=0), v.real("Sm", lo=0)
    P = v.arr("P", n, 3)
    sH, sL = v.arr("sH", n), v.arr("sL", n)
    o = v.obj(ME + "WellMesh", s=s, n_verts=nv, sigma=sg, radius=rad, Sm=Sm, sigma_pa=pa, method="pedal_curve", nevs=P, sigmaH=sH, sigmaL=sL)
    R = S(v.at(rad, k), Sm, div(pa, 2))
    a, b = add(mul(sg, v.at(sH, k)), R), add(mul(sg, v.at(sL, k)), R)
    v.assume(T.lt(0, a), T.lt(0, b))
    v.method(o, "_get_vertices")
    r = v.get(o, "vertices")
    v.ensure("one ring per station, one point per vertex", T.land(T.eq(r.shape[0], n), T.eq(r.shape[1], nv), T.eq(r.shape[2], 3)))
    I_, A_ = v.at(v.get(s, "inc_rad"), k), v.at(v.get(s, "azi_grid_rad"), k)
    ax = [[mul(T.cos(I_), T.cos(A_)), mul(T.cos(I_), T.sin(A_)), neg(T.sin(I_))], [neg(T.sin(A_)), T.cos(A_), T.const(0)], tangent(I_, A_)]
    m = nv // 2
    for j in range(nv):
        # cosine and sine of the ellipse's angle at the vertex
        q = 1 - Fraction(2 * (j % m), m)
        c, sn = T.const(q), T.sqrt(T.const(1 - q * q))
        if j >= m:
            c, sn = neg(c), neg(sn)
        den = S(M(b, b, c, c), M(a, a, sn, sn))
        v.cut("not both zero", T.lt(0, den))
        x, y = div(M(a, b, b, c), den), div(M(a, a, b, sn), den)
        for i in range(3):
            v.ensure("foot of the tangent %d %s" % (j, "NEV"[i]), T.eq(v.at(r, k, j, i), S(v.at(P, k, i), mul(x, ax[0][i]), mul(y, ax[1][i]))))


def s_faces(v, nv):
    rows = v.int("rows", lo=2)
    nv = v.int("nv", lo=3) if nv is None else nv
    f = v.call(ME + "get_faces", nv, rows)
    total = T.iadd(T.imul(2, T.imul(nv, T.isub(rows, 1))), T.imul(2, nv))
    v.ensure("number of faces", T.land(T.eq(f.shape[0], total), T.eq(f.shape[1], 3)))
    r = v.idx(T.isub(rows, 1), "r")
    for j in range(nv):
        b = (j + 1) % nv
        lo, up = T.imul(r, nv), T.imul(T.iadd(r, 1), nv)
        base = T.iadd(nv, T.iadd(T.imul(r, 2 * nv), 2 * j))
        want = [(T.iadd(lo, j), T.iadd(up, j), T.iadd(up, b)), (T.iadd(lo, j), T.iadd(lo, b), T.iadd(up, b))]
        for t in range(2):
            for c in range(3):
                v.ensure("face %d.%d corner %d" % (j, t, c), T.eq(v.at(f, T.iadd(base, t), c), want[t][c]))
        for c, w in enumerate((T.imul(nv, rows), j, b)):
            v.ensure("top %d corner %d" % (j, c), T.eq(v.at(f, j, c), w))
        last = T.imul(nv, T.isub(rows, 1))
        for c, w in enumerate((T.iadd(T.imul(nv, rows), 1), T.iadd(last, b), T.iadd(last, j))):
            v.ensure("bottom %d corner %d" % (j, c), T.eq(v.at(f, T.iadd(nv, T.iadd(T.imul(2 * nv, T.isub(rows, 1)), j)), c), w))


def s_order(v, rings):
    nv = 4
    n = rings
    from pyvc.arrays import as_arr
    P = as_arr([[v.real("c%d%d" % (i, c)) for c in range(3)] for i in range(n)])
    Vx = [[[v.real("p%d%d%d" % (i, j, c)) for c in range(3)] for j in range(nv)] for i in range(n)]
    for i in range(n):
        for j in range(nv):
            v.assume(T.lt(0, norm2([sub(Vx[i][j][c], P.at((i, c))) for c in range(3)])))
    o = v.obj(ME + "WellMesh", nevs=P, vertices=as_arr(Vx), n_verts=nv)

    def tree(I, pts, **kw):
        # assumed of the tree: it answers with the index of one of its points
        def query(I2, x, **kw2):
            for q in range(nv - 1):
                if v.branch(T.eq(v.ctx.fresh("near", "I"), q)):
                    return (v.ctx.fresh("dist"), q)
            return (v.ctx.fresh("dist"), nv - 1)
        return v.obj("types.SimpleNamespace", query=Model(query))
    v.external("scipy.spatial.KDTree", tree)
    v.method(o, "_align_verts")
    r = v.get(o, "vertices")
    v.ensure("same shape", T.TRUE if tuple(r.shape) == (n, nv, 3) else T.FALSE)
    for i in range(n):
        alts = []
        for sgn in (1, -1):
            for k in range(nv):
                alts.append(T.land(*[T.eq(v.at(r, i, j, c), Vx[i][(k + sgn * j) % nv][c]) for j in range(nv) for c in range(3)]))
        v.ensure("ring %d has the same points in the same round order" % i, T.lor(*alts))


def s_ends(v):
    n = v.int("n", lo=1)
    nv = 5
    X, P = v.arr("X", n, nv, 3), v.arr("P", n, 3)
    F = v.arr("F", 7, 3, kind="i")
    o = v.obj(ME + "WellMesh", vertices=X, nevs=P, faces=F, n_verts=nv)
    v.method(o, "_make_trimesh")
    m = v.get(v.get(o, "mesh"), "vertices")
    k = v.idx(n)
    v.ensure("all the rings' points and two centres", T.eq(m.shape[0], T.iadd(T.imul(n, nv), 2)))
    for c in range(3):
        for j in range(nv):
            v.ensure("ring point %d" % j, T.eq(v.at(m, T.iadd(T.imul(k, nv), j), c), v.at(X, k, j, c)))
        v.ensure("first centre", T.eq(v.at(m, T.imul(n, nv), c), v.at(P, 0, c)))
        v.ensure("last centre", T.eq(v.at(m, T.iadd(T.imul(n, nv), 1), c), v.at(P, T.isub(n, 1), c)))
    v.ensure("the faces are the mesh's", T.TRUE if v.get(v.get(o, "mesh"), "faces") is F else T.FALSE)


def s_slices(v):
    rec, meshes = [], []
    v.contract("welleng.survey.slice_survey", lambda I, s, start, stop=None: rec.append((s, start, stop)) or ("slice", start, stop))
    def mesh(I, s, **k):
        meshes.append((s, k))
        return v.obj("types.SimpleNamespace", mesh=("mesh", len(meshes) - 1))
    v.contract(ME + "WellMesh", mesh)
    sg, pa, Sm = v.real("sigma"), v.real("pa"), v.real("Sm")
    for l in range(2, 7):
        s = v.obj("welleng.survey.Survey", md=v.arr("md%d" % l, l))
        for step in (1, 2, 3, 5):
            for start in (0, 1):
                for stop in (-1, l, l - 1):
                    end = l if stop == -1 else stop
                    if end - start < 2:
                        continue
                    del rec[:], meshes[:]
                    r = v.call(ME + "sliced_mesh", s, n_verts=9, sigma=sg, sigma_pa=pa, Sm=Sm, start=start, stop=stop, step=step)
                    want = list(range(start, end - 1, step))
                    ok = [(a, b) for _, a, b in rec] == [(i, min(i + step + 1, end)) for i in want] and all(x is s for x, _, _ in rec)
                    ok = ok and [x for x, _ in meshes] == [("slice", a, b) for _, a, b in rec] and r == [("mesh", i) for i in range(len(want))]
                    v.ensure("%d stations %d:%d by %d: consecutive slices" % (l, start, end, step), T.TRUE if ok else T.FALSE)
                    v.ensure("%d stations %d:%d by %d: settings" % (l, start, end, step), T.land(*[T.land(T.eq(k["sigma"], sg), T.eq(k["sigma_pa"], pa), T.eq(k["Sm"], Sm), T.TRUE if (k["n_verts"], k["method"]) == (9, "ellipse") else T.FALSE) for _, k in meshes]))


def s_clearance(v, offset):
    got = []
    v.contract(ME + "WellMesh", lambda I, *a, **k: got.append((a, k)) or ("mesh",))
    sg, pa, Sm = v.real("sigma"), v.real("pa"), v.real("Sm")
    s = v.obj("welleng.survey.Survey")
    o = v.obj("welleng.clearance.MeshClearance", sigma=sg, sigma_pa=pa, Sm=Sm, n_verts=9)
    r = v.method(o, "_get_mesh", s, offset=offset)
    a, k = got[0]
    v.ensure("one mesh, of the survey", T.TRUE if r == ("mesh",) and len(got) == 1 and (k.get("survey") is s or a and a[0] is s) and k.get("n_verts") == 9 and k.get("method", "ellipse") == "ellipse" else T.FALSE)
    v.ensure("margin for the offset well only", T.eq(k.get("Sm", 0), Sm if offset else 0))
    v.ensure("sigma", T.eq(k.get("sigma", 3), sg))
    v.ensure("project ahead", T.eq(k.get("sigma_pa", 0.5), pa))


SPECS = [Spec("ring/" + m, lambda v, m=m: s_ring(v, m)) for m in ("ellipse", "circle")]
SPECS += [Spec("ring/pedal curve/%d" % m, lambda v, m=m: s_pedal(v, m), bounded="rings of %d points, any number of stations" % m) for m in (4, 12)]
SPECS += [Spec("faces/%d" % m, lambda v, m=m: s_faces(v, m), bounded="rings of %d points, any number of rings" % m) for m in (3, 4, 12)]
SPECS += [Spec("order/%d" % m, lambda v, m=m: s_order(v, m), bounded="%d rings of four points (the rings are treated one by one)" % m) for m in (2,)]
SPECS += [Spec("vertices", s_ends), Spec("slices", s_slices, bounded="two to six stations, steps 1, 2, 3, 5"), Spec("clearance/offset", lambda v: s_clearance(v, True)), Spec("clearance/reference", lambda v: s_clearance(v, False))]


def g(d):
    from .p07 import gen_full
    c = gen_full(d, hi=6, maxinc=120, maxdl=1.5)
    n = len(c["md"])
    c["cov"] = []
    for _ in range(n):
        a = np.array([[d.real(-5, 5) for _ in range(3)] for _ in range(3)])
        k = d.int(0, 9)
        if k == 0:
            a = a * 0
        elif k == 1:
            a = np.diag([d.real(.01, 5), d.real(.01, 5), 1])
        elif k == 2:
            a[:, 1:] = 0
        c["cov"].append((a @ a.T).tolist())
    c["rad"] = [d.real(.05, .5) for _ in range(n)]
    c["nv"] = d.choice([12, 12, 8, 16, 20, 24])
    c["sigma"], c["pa"], c["Sm"] = d.real(0, 4, (0.0, 3.0)), d.real(0, 2, (0.0, .5)), d.real(0, 2, (0.0,))
    c["method"] = d.choice(["ellipse", "ellipse", "pedal_curve", "circle"])
    c["step"] = d.int(1, 3)
    return c


def closed(f, nvert):
    f = np.asarray(f)
    if f.shape[1:] != (3,) or f.min() < 0 or f.max() != nvert - 1 or len(np.unique(f)) != nvert:
        return "faces use the vertices %d..%d (%d of %d)" % (f.min(), f.max(), len(np.unique(f)), nvert)
    if np.any((f[:, 0] == f[:, 1]) | (f[:, 1] == f[:, 2]) | (f[:, 0] == f[:, 2])):
        return "a face repeats a vertex"
    e = np.sort(np.vstack([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]]), axis=1)
    u, k = np.unique(e, axis=0, return_counts=True)
    if np.any(k != 2):
        return "edge %s belongs to %d faces" % (u[np.argmax(k != 2)].tolist(), k[np.argmax(k != 2)])
    if nvert - len(u) + len(f) != 2:
        return "not a sphere: %d vertices, %d edges, %d faces" % (nvert, len(u), len(f))


def expect(c, s, m, k):
    """the ring of station k in the hole's axes"""
    H = np.array(s.cov_hla[k], float) if s.cov_hla is not None else np.zeros((3, 3))
    R = c["rad"][k] + c["Sm"] + c["pa"] / 2
    if c["method"] == "circle":
        t = np.arange(c["nv"]) * 2 * math.pi / c["nv"]
        return np.c_[c["rad"][k] * np.cos(t), c["rad"][k] * np.sin(t)]
    if c["method"] == "pedal_curve":
        a, b = math.sqrt(max(H[0, 0], 0)) * c["sigma"] + R, math.sqrt(max(H[1, 1], 0)) * c["sigma"] + R
        h = np.arccos(np.linspace(1, -1, c["nv"] // 2, endpoint=False))
        t = np.r_[h, h + math.pi]
        den = b * b * np.cos(t) ** 2 + a * a * np.sin(t) ** 2
        return np.c_[a * b * b * np.cos(t) / den, a * a * b * np.sin(t) / den]
    return None


def ck(c):
    from welleng.mesh import WellMesh, sliced_mesh
    from .p07 import full_survey, snapshot, same_snapshot
    s = full_survey(c)
    s = __import__("welleng").survey.Survey(md=np.array(c["md"]), inc=np.array(c["inc"]), azi=np.array(c["azi"]), header=s.header, start_nev=c["nev"], start_xyz=c["xyz"],
                                            unit=c["unit"], cov_nev=np.array(c["cov"]), radius=np.array(c["rad"]), deg=True)
    snap = snapshot(s)
    n, nv = len(c["md"]), c["nv"]
    kw = dict(n_verts=nv, sigma=c["sigma"], sigma_pa=c["pa"], Sm=c["Sm"], method=c["method"])
    m = WellMesh(s, **kw)
    P = np.c_[s.n, s.e, s.tvd]
    sc = 1 + np.abs(P).max() * 1e-3
    Vt = np.asarray(m.vertices)
    if Vt.shape != (n, nv, 3):
        return "vertices have shape %s" % (Vt.shape,)
    cov = np.array(c["cov"])
    for k in range(n):
        i, a = s.inc_rad[k], s.azi_grid_rad[k]
        ax = np.array([[math.cos(i) * math.cos(a), math.cos(i) * math.sin(a), -math.sin(i)], [-math.sin(a), math.cos(a), 0], [math.sin(i) * math.cos(a), math.sin(i) * math.sin(a), math.cos(i)]])
        q = (Vt[k] - P[k]) @ ax.T
        if not close(q[:, 2], 0 * q[:, 2], 0, 1e-7 * sc):
            return "ring %d leaves the plane across the hole by %r" % (k, float(np.abs(q[:, 2]).max()))
        H = ax @ cov[k] @ ax.T
        R = c["rad"][k] + c["Sm"] + c["pa"] / 2
        x = q[:, :2]
        if c["method"] == "ellipse":
            w, E = np.linalg.eigh(H[:2, :2])
            A, B = [math.sqrt(max(z, 0)) * c["sigma"] + R for z in (w[1], w[0])]
            if w[1] - w[0] < 1e-9 * (1 + w[1]):
                r = np.hypot(*x.T)
                if not close(r, A + 0 * r, 1e-5, 1e-5):
                    return "ring %d: radius %s" % (k, worst(r, A + 0 * r))
                continue
            y = x @ np.c_[E[:, 1], E[:, 0]]
            if not close(np.hypot(y[:, 0] / A, y[:, 1] / B), np.ones(nv), 1e-5, 1e-5):
                return "ring %d is off its ellipse: %s" % (k, worst(np.hypot(y[:, 0] / A, y[:, 1] / B), np.ones(nv)))
            t = np.sort(np.arctan2(y[:, 1] / B, y[:, 0] / A) % (2 * math.pi))
            t = np.diff(np.r_[t, t[0] + 2 * math.pi])
            if not close(t, 2 * math.pi / nv + 0 * t, 1e-4, 1e-4):
                return "ring %d: angles %s" % (k, worst(t, 2 * math.pi / nv + 0 * t))
            th = np.unwrap(np.arctan2(y[:, 1] / B, y[:, 0] / A))
            if not (np.all(np.diff(th) > 0) or np.all(np.diff(th) < 0)):
                return "ring %d is not listed in round order" % k
        else:
            c2 = dict(c)
            S2 = type("S", (), dict(cov_hla=[None] * k + [H]))
            e = expect(c2, S2, m, k)
            alts = [np.roll(e[::g_], r_, axis=0) for g_ in (1, -1) for r_ in range(nv)]
            if not any(close(x, z, 1e-6, 1e-6 * sc) for z in alts):
                return "ring %d is not the expected %s: %s" % (k, c["method"], worst(x, e))
    f = np.asarray(m.mesh.faces)
    w = closed(f, n * nv + 2)
    if w:
        return w
    mv = np.asarray(m.mesh.vertices)
    if not close(mv[:-2], Vt.reshape(-1, 3), 0, 0) or not close(mv[-2:], P[[0, -1]], 0, 0):
        return "mesh vertices are not the rings and the two end positions"
    # faces join neighbouring rings in their round order
    for r in range(n - 1):
        g_ = f[np.all((f >= r * nv) & (f < (r + 2) * nv), axis=1) & (np.ptp(f // nv, axis=1) == 1)]
        if len(g_) != 2 * nv:
            return "%d faces between rings %d and %d" % (len(g_), r, r + 1)
    kw2 = dict(kw)
    if c["method"] == "ellipse":
        kw2.pop("method")
    ms = sliced_mesh(s, step=c["step"], **kw2)
    st = list(range(0, n - 1, c["step"]))
    if len(ms) != len(st):
        return "%d slices for %d stations by %d" % (len(ms), n, c["step"])
    for a, x in zip(st, ms):
        b = min(a + c["step"] + 1, n)
        v = np.asarray(x.vertices)
        if len(v) != (b - a) * nv + 2:
            return "slice %d has %d vertices" % (a, len(v))
        for r in range(b - a):
            p_, q_ = v[r * nv:(r + 1) * nv], Vt[a + r]
            D = np.abs(p_[:, None] - q_[None]).max(-1)
            if c["method"] != "ellipse" and D.min(1).max() > 1e-6 * sc * 10:
                return "slice %d: ring %d is not the station's" % (a, a + r)
            if np.abs(p_.mean(0) - q_.mean(0)).max() > 1e-6 * sc * 10:
                return "slice %d: ring %d is centred elsewhere" % (a, a + r)
        w = closed(x.faces, len(v))
        if w:
            return "slice %d: %s" % (a, w)
    return same_snapshot(s, snap)


def gf(d):
    return {"nv": d.int(3, 30), "rows": d.int(2, 12)}


def ckf(c):
    from welleng.mesh import get_faces
    return closed(get_faces(c["nv"], c["rows"]), c["nv"] * c["rows"] + 2)


DYN = [Dyn("mesh", g, ck, n=(250, 6000)), Dyn("faces", gf, ckf, n=(150, 2000))]
