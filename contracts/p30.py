"""P30 maximum curvature and difficulty"""
import ast
from fractions import Fraction
from pyvc.arrays import Unsupported
from .common import *
from .p12 import lin

FILES = ["welleng/survey.py", "welleng/utils.py"]
S_ = "welleng.survey."
U = "welleng.utils."
META = dict(
    title="Maximum curvature adds half-way stations and keeps the surveyed ones",
    statement="Survey.maximum_curvature keeps every surveyed station's depth and direction and adds one station half way through each interval, whose direction is that of the arc that leaves the station before at its toolface with the interval's dogleg severity plus the noise (per 30 m, or per 100 ft for feet); surveyed stations keep their interpolated flag and the new ones are flagged as interpolated. "
              "With zero noise positions and directions are those of the minimum curvature survey, whatever the unit, azimuth reference, grid scale factor or start, straight and vertical stations included. "
              "The directional difficulty index is log10 of depth times horizontal displacement times accumulated dogleg over vertical depth, in feet and degrees for metric surveys as well as for surveys in feet, and zero where that is undefined.",
    over=["inputs", "configurations"], quantifier="all surveys, noises, units, azimuth references and headers",
    why="Tests compute a single survey in metres; that the added stations lie on the original arc without noise must hold for every survey.",
    mechanism=[("maximum curvature", "welleng/survey.py:Survey.maximum_curvature"), ("difficulty", "welleng/survey.py:directional_difficulty_index")],
    observe_at="Survey.maximum_curvature(...), directional_difficulty_index(...)")


def s_max(v, unit, which):
    n = v.int("n", lo=2)
    den = 30 if unit == "meters" else 100
    A = {k: v.arr(k, n) for k in ("md", "delta_md", "dls", "toolface", "inc_rad", "azi_grid_rad", "incd", "azid")}
    flag = v.arr("interpolated", n)
    sd = v.table((n, 3), lambda k, c: T.ite(T.eq(c, 0), v.at(A["md"], k), T.ite(T.eq(c, 1), v.at(A["incd"], k), v.at(A["azid"], k))))
    h = v.obj(S_ + "SurveyHeader", azi_reference="grid")
    nev, xyz = arr3(v, vec3(v, "s")), arr3(v, vec3(v, "x"))
    s = v.obj(S_ + "Survey", md=A["md"], delta_md=A["delta_md"], dls=A["dls"], toolface=A["toolface"], inc_rad=A["inc_rad"], azi_grid_rad=A["azi_grid_rad"], survey_deg=sd, header=h, unit=unit, start_nev=nev, start_xyz=xyz,
              interpolated=flag, vec_nev=v.table((n, 3), lambda k, c: v.real("unused")))
    noise = v.real("noise", lo=0)
    ang = []
    v.contract(U + "get_angles", lambda I, x, nev=False: ang.append((x, nev)) or v.arr("ang", T.isub(n, 1), 2))
    made = []

    def mk(I, *a, **k):
        made.append(k)
        return v.obj(S_ + "Survey", md=k["md"], **{})
    v.external(S_ + "Survey", mk)
    r = v.method(s, "maximum_curvature", noise)
    v.ensure("one survey", T.TRUE if len(made) == 1 else T.FALSE)
    k = made[0]
    m = T.isub(T.imul(2, n), 1) if hasattr(T, "imul") else k["md"].shape[0]
    v.ensure("header, unit and start", T.land(T.TRUE if k["unit"] == unit and k["header"] is h else T.FALSE, *([T.eq(v.at(k["start_nev"], c), v.at(nev, c)) for c in range(3)] + [T.eq(v.at(k["start_xyz"], c), v.at(xyz, c)) for c in range(3)])))
    j = v.idx(n)
    last = T.isub(n, 1)
    if which == "last":
        j = last
        p = T.isub(k["md"].shape[0], 1)
    else:
        v.assume(T.lt(j, last))
        p = T.iadd(j, j)
    v.ensure("twice the stations less one", T.eq(k["md"].shape[0], T.isub(T.iadd(n, n), 1)))
    if which != "mid":
        v.ensure("depth kept", T.eq(v.at(k["md"], p), v.at(A["md"], j)))
        v.ensure("inclination kept", T.eq(v.at(k["inc"], p), v.at(A["incd"], j)))
        v.ensure("azimuth kept", T.eq(v.at(k["azi"], p), v.at(A["azid"], j)))
        v.ensure("degrees", T.TRUE if k.get("deg", True) is True else T.FALSE)
        v.ensure("flag kept", T.eq(v.at(v.get(r, "interpolated"), p), v.at(flag, j)))
        return
    q = T.iadd(p, 1)
    v.ensure("half way", T.eq(v.at(k["md"], q), add(v.at(A["md"], j), mul(0.5, v.at(A["delta_md"], T.iadd(j, 1))))))
    v.ensure("angles of the half-way direction", T.land(T.eq(v.at(k["inc"], q), mul(v.at(v.arr("ang", T.isub(n, 1), 2), j, 0), div(180, T.PI))), T.eq(v.at(k["azi"], q), mul(v.at(v.arr("ang", T.isub(n, 1), 2), j, 1), div(180, T.PI))),
                                                        T.TRUE if ang[-1][1] else T.FALSE))
    v.ensure("flagged as interpolated", T.eq(v.at(v.get(r, "interpolated"), q), 1))
    i, a, w = v.at(A["inc_rad"], j), v.at(A["azi_grid_rad"], j), v.at(A["toolface"], j)
    D = mul(div(M(add(v.at(A["dls"], T.iadd(j, 1)), noise), v.at(A["delta_md"], T.iadd(j, 1))), 2 * den), div(T.PI, 180))
    t = tangent(i, a)
    h_ = [mul(T.cos(i), T.cos(a)), mul(T.cos(i), T.sin(a)), neg(T.sin(i))]
    r_ = [neg(T.sin(a)), T.cos(a), T.const(0)]
    u = lin((T.cos(D), t), (M(T.sin(D), T.cos(w)), h_), (M(T.sin(D), T.sin(w)), r_))
    for c in range(3):
        v.ensure("half-way direction " + "NEV"[c], T.eq(v.at(ang[-1][0], j, c), u[c]))


SPECS = [Spec("maximum curvature/%s/%s" % (u, w), lambda v, u=u, w=w: s_max(v, u, w)) for u in ("meters", "feet") for w in ("kept", "last", "mid")]


# ------------------------------------------------------------------ dynamic
def s_ddi(v, unit, N=4):
    """directional_difficulty_index, where it is defined (pint by contract: a length in metres is its number over 0.3048 in feet)"""
    n, h, s = survey_obj(v, n=N, unit=unit)
    U_ = "contracts.common.Quantity"
    v.external(S_ + "ureg", lambda I, u: v.obj(U_, m=T.const(1), u=u))
    times = lambda I, q, x: v.obj(U_, m=I.binop(ast.Mult(), x, v.get(q, "m")), u=v.get(q, "u"))
    v.external(U_ + ".__rmul__", times)
    v.external(U_ + ".__mul__", times)
    FT = {"meters": Fraction("0.3048"), "m": Fraction("0.3048"), "meter": Fraction("0.3048"), "feet": Fraction(1), "ft": Fraction(1), "foot": Fraction(1)}

    def to(I, q, u):
        if v.get(q, "u") not in FT or u not in FT:
            raise Unsupported("conversion from %s to %s" % (v.get(q, "u"), u))
        return v.obj(U_, m=I.binop(ast.Mult(), v.get(q, "m"), T.const(FT[u] / FT[v.get(q, "u")])), u=u)
    v.external(U_ + ".to", to)
    args, out = [], v.arr("log10", N)
    v.external("numpy.log10", lambda I, x: args.append(x) or out)
    r = v.call(S_ + "directional_difficulty_index", s)
    v.ensure("one value for every station", T.TRUE if len(args) == 1 and r.shape[0] == N else T.FALSE)
    D, ft = T.const(0), Fraction("0.3048") if unit == "meters" else 1
    for k in range(N):
        md, n_, e, tvd, dl = (v.at(v.get(s, q), k) for q in ("md", "n", "e", "tvd", "dogleg"))
        D = add(D, dl) if k else dl
        x = v.at(args[0], k)
        # (depth in feet) times (displacement in feet) times (accumulated dogleg in degrees) over (vertical depth in feet)
        v.ensure("station %d" % k, T.implies(T.ne(tvd, 0), T.eq(M(x, tvd, ft, T.PI), M(md, T.sqrt(add(mul(n_, n_), mul(e, e))), D, 180))))
        v.ensure("its logarithm %d" % k, T.eq(v.at(r, k), v.at(out, k)))


def g(d):
    from .p07 import gen_full
    c = dict(full=gen_full(d, maxdl=2.9, hi=6), noise=d.choice([0.0, 0.0, d.real(0, 5)]), flags=d.bool(.4))
    if d.bool(.3):
        c["full"]["inc"][0] = 0.0
    if d.bool(.3):
        k = d.int(1, len(c["full"]["inc"]) - 1)
        c["full"]["inc"][k], c["full"]["azi"][k] = c["full"]["inc"][k - 1], c["full"]["azi"][k - 1]
    return c


def ck(c):
    import welleng as we
    from .p07 import full_survey, snapshot, same_snapshot
    full = c["full"]
    n = len(full["md"])
    s = full_survey(full)
    if c["flags"]:
        s.interpolated = np.array([k % 2 == 1 for k in range(n)])
    for k in range(n - 1):
        if ref_angle(np.array(s.vec_nev[k]), np.array(s.vec_nev[k + 1])) > 2.95:
            raise Skip()
    snap = snapshot(s)
    r = s.maximum_curvature(dls_noise=c["noise"])
    msg = same_snapshot(s, snap)
    if msg:
        return msg
    if r.unit != s.unit or len(r.md) != 2 * n - 1:
        return "%d stations in %s" % (len(r.md), r.unit)
    sc = 1 + np.abs(s.pos_nev).max() + s.md[-1]
    if not np.allclose(r.md[::2], s.md, rtol=1e-12, atol=1e-9) or not np.allclose(r.vec_nev[::2], s.vec_nev, atol=1e-9):
        return "surveyed stations moved"
    if not np.allclose(r.md[1::2], (s.md[1:] + s.md[:-1]) / 2, rtol=1e-12, atol=1e-9):
        return "added stations are not half way: %s" % worst(r.md[1::2], (s.md[1:] + s.md[:-1]) / 2)
    if list(map(bool, r.interpolated[::2])) != list(map(bool, s.interpolated)) or not all(map(bool, r.interpolated[1::2])):
        return "interpolated flags %r" % list(r.interpolated)
    den = 30 if s.unit == "meters" else 100
    for k in range(n - 1):
        t1, t2 = np.array(s.vec_nev[k]), np.array(s.vec_nev[k + 1])
        D = ref_angle(t1, t2)
        dm = s.md[k + 1] - s.md[k]
        H = (D + math.radians(c["noise"]) * dm / den) / 2
        got = np.array(r.vec_nev[2 * k + 1])
        if abs(ref_angle(t1, got) - (math.acos(math.cos(H)))) > 1e-6:
            return "half-way station %d turns %r instead of %r" % (k, ref_angle(t1, got), H)
        if D > 1e-3:
            nn = t2 - (t1 @ t2) * t1
            nn /= np.linalg.norm(nn)
            want = math.cos(H) * t1 + math.sin(H) * nn
            if not np.allclose(got, want, atol=1e-5):
                return "half-way direction %d: %s" % (k, worst(got, want))
    if not np.all(np.isfinite(r.pos_nev)) or not np.allclose(r.pos_nev[0], s.pos_nev[0], atol=1e-9 * sc):
        return "start moved"
    if c["noise"] == 0 and not np.allclose(r.pos_nev[::2], s.pos_nev, atol=1e-7 * sc):
        return "positions moved without noise: %s" % worst(r.pos_nev[::2], s.pos_nev)
    # difficulty
    ft = 1 / .3048 if s.unit == "meters" else 1.0
    tort = 0.0
    ddi = s.directional_difficulty_index()
    for k in range(n):
        if k:
            tort += math.degrees(ref_angle(np.array(s.vec_nev[k - 1]), np.array(s.vec_nev[k])))
        ah = math.hypot(s.n[k], s.e[k])
        x = s.md[k] * ah * tort * ft / s.tvd[k] if s.tvd[k] else 0.0
        if x <= 0 or tort < 1e-2 or abs(s.tvd[k]) < 1e-6 or ah < 1e-6:
            if x < 0 and ddi[k] != 0:
                return "difficulty %r for a negative product" % ddi[k]
            continue
        if abs(ddi[k] - math.log10(x)) > 1e-5 + 1e-3 * (tort < 1):
            return "difficulty of station %d %r expected %r" % (k, float(ddi[k]), math.log10(x))
    return None


SPECS += [Spec("difficulty/" + u, lambda v, u=u: s_ddi(v, u), bounded="four stations") for u in ("meters", "feet")]
DYN = [Dyn("maximum curvature", g, ck, n=(400, 8000))]
