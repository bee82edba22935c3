"""P31 tortuosity indices"""
from .common import *
import itertools
from pyvc.arrays import as_arr
from fractions import Fraction

FILES = ["welleng/survey.py"]
S_ = "welleng.survey."
META = dict(
    title="Tortuosity adds each turn section's arc over chord, split where turns change",
    statement="tortuosity_index and modified_tortuosity_index split a survey at exactly the interior stations where the turn of the next interval is not the turn of the last one: their normals differ by more than the relative tolerance or, when a severity tolerance is given, their dogleg severities do; straight intervals count as one turn. "
              "At each station the index is n/(n+1), n being the number of the section the interval before it is in, times the sum over the completed sections and the current one of arc length over chord less one, at the section's end or the station, measured from the section's start: times 1e7 and per foot drilled (of a survey in meters), or, modified, each divided by its arc length and times the length drilled. "
              "The Survey methods give the same with the tolerances given, the modified one after interpolating at the step and adding the severity noise of the maximum curvature method unless that is none; data=True gives the sections too. "
              "So the first station and a straight well have zero, no index is negative, moving or turning the well changes nothing, and the modified index doesn't depend on the length unit.",
    over=["inputs"], quantifier="all surveys and tolerances",
    why="No test calls either index, and where sections start depends on the survey.",
    mechanism=[("index", "welleng/survey.py:tortuosity_index"), ("modified", "welleng/survey.py:modified_tortuosity_index"), ("sections", "welleng/survey.py:_get_ti_data"), ("methods", "welleng/survey.py:Survey.modified_tortuosity_index")],
    observe_at="Survey.tortuosity_index(...), Survey.modified_tortuosity_index(...)")


def close_model(v, m, dm, rec):
    """which successive intervals turn alike: all cases, one at a time"""
    def isclose(I, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        rec.append((a, b, rtol, atol, equal_nan))
        if len(a.shape) == 2:
            return np.array([[bool(x), True, True] for x in m]).reshape(-1, 3)
        return np.array([bool(x) for x in dm], dtype=bool)
    v.external("numpy.isclose", isclose)


def search_model(v):
    """searchsorted of increasing values, decided one comparison at a time"""
    def ss(I, a, x, side="left", sorter=None):
        below = T.lt if side == "left" else T.le
        return as_arr([sum(1 for k in range(a.shape[0]) if v.branch(below(v.at(a, k), v.at(x, i)))) for i in range(x.shape[0])])
    v.external("numpy.searchsorted", ss)


def M(*xs):
    r = T.const(1)
    for x in xs:
        r = mul(r, x)
    return r


def s_index(v, n, m, dm, mod, mine, data=True):
    md, dls = v.arr("md", n), v.arr("dls", n)
    P, N = v.arr("pos", n, 3), v.arr("normals", n - 1, 3)
    for i in range(n - 1):
        v.assume(T.lt(v.at(md, i), v.at(md, i + 1)))
    s = v.obj(S_ + "Survey", md=md, dls=dls, pos_nev=P, normals=N, unit="meters")
    rec = []
    close_model(v, m, dm, rec)
    search_model(v)
    rt, dt = v.real("rtol", lo=0), v.real("dls_tol", lo=0)
    kw = dict(rtol=rt, dls_tol=dt if dm is not None else None, data=data)
    coeff, kappa = T.const(1) if mod else T.const(Fraction(3048, 10000)), T.const(1) if mod else T.const(10 ** 7)
    if mine:
        coeff, kappa = v.real("coeff", gt=0), v.real("kappa", gt=0)
        kw.update(coeff=coeff, kapa=kappa)
    starts = [0] + [i + 1 for i in range(n - 2) if not (m[i] and (dm is None or dm[i]))]
    sec = [sum(1 for k in starts if k < i) for i in range(1, n)]
    arc, chord = [], []
    for i in range(1, n):
        a = starts[sec[i - 1] - 1]
        sq = T.const(0)
        for c in range(3):
            d = sub(v.at(P, i, c), v.at(P, a, c))
            sq = add(sq, mul(d, d))
        v.assume(T.lt(0, sq))
        arc.append(div(sub(v.at(md, i), v.at(md, a)), coeff))
        chord.append(div(T.sqrt(sq), coeff))
    r = v.call(S_ + ("modified_" if mod else "") + "tortuosity_index", s, **kw)
    out = r["mti" if mod else "ti"] if data else r
    excess = [div(sub(div(a, c), 1), a) if mod else sub(div(a, c), 1) for a, c in zip(arc, chord)]
    v.ensure("one per station", T.TRUE if tuple(out.shape) == (n,) else T.FALSE)
    v.ensure("zero at the start", T.eq(v.at(out, 0), 0))
    done, last = T.const(0), 1
    for i in range(1, n):
        if sec[i - 1] != last:
            done, last = add(done, excess[i - 2]), sec[i - 1]
        L = div(sub(v.at(md, i), v.at(md, 0)), coeff)
        want = M(Fraction(sec[i - 1], sec[i - 1] + 1), mul(kappa, L) if mod else div(kappa, L), add(done, excess[i - 1]))
        v.ensure("index %d" % i, T.eq(v.at(out, i), want))
    if n > 2:
        got = {len(a.shape): (a, b, x, y, z) for a, b, x, y, z in rec}
        a, b, x, y, z = got[2]
        one = T.land(*[T.land(T.eq(v.at(a, i, c), v.at(N, i, c)), T.eq(v.at(b, i, c), v.at(N, i + 1, c))) for i in range(n - 2) for c in range(3)])
        two = T.land(*[T.land(T.eq(v.at(b, i, c), v.at(N, i, c)), T.eq(v.at(a, i, c), v.at(N, i + 1, c))) for i in range(n - 2) for c in range(3)])
        v.ensure("normals of successive intervals compared", T.land(T.TRUE if z is True else T.FALSE, T.eq(x, rt), T.eq(y, rt), T.lor(one, two)))
        if dm is not None:
            a, b, x, y, z = got[1]
            v.ensure("severities of successive intervals compared", T.land(T.eq(x, dt), *[T.land(T.eq(v.at(a, i), v.at(dls, i + 1)), T.eq(v.at(b, i), v.at(dls, i + 2))) for i in range(n - 2)]))
    if data:
        v.ensure("the sections' starts", T.land(*[T.eq(v.at(r["starts"], k), i) for k, i in enumerate(starts)]) if tuple(r["starts"].shape) == (len(starts),) else T.FALSE)
        v.ensure("their depths and places", T.land(*[T.land(T.eq(v.at(r["mds"], k), v.at(md, i)), *[T.eq(v.at(r["locs"], k, c), v.at(P, i, c)) for c in range(3)]) for k, i in enumerate(starts)]))
        v.ensure("arcs and chords", T.land(*[T.land(T.eq(v.at(r["l_cs"], i), arc[i]), T.eq(v.at(r["l_xs"], i), chord[i])) for i in range(n - 1)]))


def s_methods(v, mod, noise):
    o = v.obj(S_ + "Survey")
    rt, dt, st = v.real("rtol"), v.real("dls_tol"), v.real("step")
    made = []

    def interp(I, s, *a, **k):
        k = dict(zip(("step", "dls"), a), **k)
        n = v.obj(S_ + "Survey")
        made.append(("interp", s, k.get("step", 30), n))
        return n

    def curve(I, s, *a, **k):
        k = dict(zip(("dls_noise",), a), **k)
        n = v.obj(S_ + "Survey")
        made.append(("curve", s, k.get("dls_noise", 1), n))
        return n

    def fn(I, s, *a, **k):
        made.append(("index", s, dict(zip(("rtol", "dls_tol", "data"), a), **k), None))
        return 77
    v.contract(S_ + "interpolate_survey", interp)
    v.contract(S_ + "Survey.maximum_curvature", curve)
    v.contract(S_ + ("modified_" if mod else "") + "tortuosity_index", fn)
    kw = dict(rtol=rt, dls_tol=dt, data=True, coeff=v.real("coeff"))
    if mod:
        dn = v.real("noise", gt=0) if noise else None
        kw.update(step=st, dls_noise=dn)
    r = v.method(o, ("modified_" if mod else "") + "tortuosity_index", **kw)
    v.ensure("the index itself", T.TRUE if r == 77 else T.FALSE)
    names = [x[0] for x in made]
    v.ensure("preprocessing", T.TRUE if names == (["interp", "curve"] if mod and noise else []) + ["index"] else T.FALSE)
    s = o
    if mod and noise:
        v.ensure("interpolated at the step", T.land(T.TRUE if made[0][1] is o else T.FALSE, T.eq(made[0][2], st)))
        v.ensure("noise added", T.land(T.TRUE if made[1][1] is made[0][3] else T.FALSE, T.eq(made[1][2], dn)))
        s = made[1][3]
    k = made[-1][2]
    v.ensure("of that survey", T.TRUE if made[-1][1] is s else T.FALSE)
    v.ensure("with the tolerances given", T.land(T.eq(k["rtol"], rt), T.eq(k["dls_tol"], dt), T.eq(k["coeff"], kw["coeff"]), T.TRUE if k["data"] is True else T.FALSE))


SPECS = []
for mod in (False, True):
    w = "modified" if mod else "index"
    for n in (2, 3, 4, 5):
        for m in itertools.product((True, False), repeat=n - 2):
            SPECS.append(Spec("%s/%s" % (w, "".join("=!"[not x] for x in m) or "one"), lambda v, n=n, m=m, mod=mod: s_index(v, n, m, None, mod, False), bounded="%d stations" % n))
    for dm in itertools.product((True, False), repeat=2):
        SPECS.append(Spec("%s/severity %s" % (w, "".join("=!"[not x] for x in dm)), lambda v, dm=dm, mod=mod: s_index(v, 4, (True, False), dm, mod, False), bounded="4 stations"))
    SPECS.append(Spec("%s/own factors" % w, lambda v, mod=mod: s_index(v, 4, (False, True), None, mod, True, False), bounded="4 stations"))
    for noise in ((True, False) if mod else (False,)):
        SPECS.append(Spec("%s/method%s" % (w, "/noise" if noise else ""), lambda v, mod=mod, noise=noise: s_methods(v, mod, noise)))


# ------------------------------------------------------------------ dynamic
def g(d):
    """a well of holds and circular arcs, each surveyed a few times, and scattered changes of direction"""
    t = ref_tan(d.real(0, 2.5, (0.0, 0.5)), d.real(0, 6.28, (0.0,)))
    md, T_ = [d.choice([0.0, 0.0, d.real(0, 2000)])], [t]
    for _ in range(d.int(1, 4)):
        how = d.choice(["hold", "arc", "arc", "free"])
        k = d.int(1, 3)
        if how == "arc":
            w = np.array([d.plain(-1, 1) for _ in range(3)])
            nrm = w - (w @ t) * t
            if np.linalg.norm(nrm) < 1e-2:
                continue
            nrm /= np.linalg.norm(nrm)
            a, t0, sev = 0.0, t, d.real(0.5, 15)
            for _ in range(k):
                L = d.real(10, 200, (30.0, 100.0))
                if d.bool(.2):
                    sev *= d.choice([1.0, 0.5, 3.0])
                a += max(math.radians(sev) * L / 30, 0.02) if sev * L / 30 < 100 else 1.5
                t = math.cos(a) * t0 + math.sin(a) * nrm
                md.append(md[-1] + L)
                T_.append(t)
        else:
            for _ in range(k):
                if how == "free":
                    t = ref_tan(d.real(0, 3.1), d.real(0, 6.28))
                    if ref_angle(T_[-1], t) > 2.9:
                        t = T_[-1]
                md.append(md[-1] + d.real(5, 300))
                T_.append(t)
    if len(md) < 2:
        md.append(md[-1] + 30.0)
        T_.append(t)
    inc = [math.degrees(math.atan2(math.hypot(x[0], x[1]), x[2])) for x in T_]
    azi = [math.degrees(math.atan2(x[1], x[0])) % 360 for x in T_]
    # one direction is one pair of angles
    for k in range(1, len(md)):
        if T_[k] is T_[k - 1]:
            inc[k], azi[k] = inc[k - 1], azi[k - 1]
    return dict(md=md, inc=inc, azi=azi, unit=d.choice(["meters", "meters", "feet"]), nev=[d.real(-500, 500) for _ in range(3)] if d.bool(.5) else [0.0, 0.0, 0.0], mod=d.bool(),
                rtol=d.choice([None, 0.01, 0.1, 1.0, 0.001]), dls_tol=d.choice([None, "off", 0.001, 0.05, 0.5]), noise=d.choice([None, None, 0.0, d.real(0.1, 3)]), step=d.choice([None, 1.0, 10.0, 25.0]),
                data=d.bool(), how=d.choice(["method", "function"]), own=d.choice([None, None, d.real(0.1, 10)]))


def near(a, b, tol, rel):
    """elements agree within the tolerance; None where that is a matter of rounding"""
    res = True
    for x, y in zip(np.atleast_1d(a), np.atleast_1d(b)):
        q, lim = abs(x - y), tol + rel * abs(y)
        if abs(q - lim) < 1e-4 * lim + 1e-7:
            return None
        res = res and bool(q < lim)
    return res


def ck(c):
    import welleng as we
    from .p07 import snapshot, same_snapshot
    h = we.survey.SurveyHeader(azi_reference="grid", depth_unit=c["unit"])
    s = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=h, unit=c["unit"], start_nev=c["nev"])
    snap = snapshot(s)
    mod = c["mod"]
    kw = {}
    if c["rtol"] is not None:
        kw["rtol"] = c["rtol"]
    if c["dls_tol"] is not None:
        kw["dls_tol"] = None if c["dls_tol"] == "off" else c["dls_tol"]
    rtol = kw.get("rtol", 1.0 if mod else 0.01)
    dls_tol = kw.get("dls_tol", 1e-3 if mod else None)
    if c["own"]:
        kw["coeff"] = c["own"]
    coeff = c["own"] or (1.0 if mod else 0.3048)
    name = ("modified_" if mod else "") + "tortuosity_index"
    used = s
    if c["how"] == "function":
        r = getattr(we.survey, name)(s, data=c["data"], **kw)
    else:
        if mod:
            kw["dls_noise"] = c["noise"]
            kw["step"] = c["step"]
        r = getattr(s, name)(data=c["data"], **kw)
        if mod and c["noise"]:
            used = s.interpolate_survey(step=c["step"]).maximum_curvature(dls_noise=c["noise"])
            for k in ("dls_noise", "step"):
                kw.pop(k)
            want = we.survey.modified_tortuosity_index(used, **kw)
            got = r["mti"] if c["data"] else r
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-12):
                return "not the index of the interpolated survey with the noise"
    msg = same_snapshot(s, snap)
    if msg:
        return msg
    got = np.asarray((r["mti"] if mod else r["ti"]) if c["data"] else r, float)
    n = len(c["md"])
    if used is not s:
        if got[0] != 0 or (np.diff(used.md).min() > 0.1 and np.any(got < -1e-6)):
            return "negative index"
        return None
    if got.shape != (n,):
        return "shape %s" % (got.shape,)
    t = [ref_tan(math.radians(i), math.radians(a)) for i, a in zip(c["inc"], c["azi"])]
    P = ref_path(c["md"], np.radians(c["inc"]), np.radians(c["azi"]))
    N, D = [], []
    for k in range(n - 1):
        D.append(math.degrees(ref_angle(t[k], t[k + 1])) / (c["md"][k + 1] - c["md"][k]) * (30 if c["unit"] == "meters" else 100))
        straight = c["inc"][k] == c["inc"][k + 1] and c["azi"][k] == c["azi"][k + 1]
        x = np.cross(t[k], t[k + 1])
        if not straight and np.linalg.norm(x) < 1e-4:
            raise Skip()
        N.append(None if straight else x / np.linalg.norm(x))
    starts = [0]
    for k in range(n - 2):
        a, b = N[k], N[k + 1]
        same = (a is None and b is None) if a is None or b is None else near(a, b, rtol, rtol)
        if dls_tol is not None and same is not False:
            q = near(D[k], D[k + 1], rtol, dls_tol)
            same = None if q is None or same is None else q and same
            if q is False:
                same = False
        if same is None:
            raise Skip()
        if not same:
            starts.append(k + 1)
    want, total, sec = [0.0], 0.0, 1
    size = [1e-9]
    for i in range(1, n):
        k = sum(1 for q in starts if q < i)
        if k != sec:
            total, sec = total + x, k
        a = starts[k - 1]
        arc = (c["md"][i] - c["md"][a]) / coeff
        chord = np.linalg.norm(P[i] - P[a]) / coeff
        if chord < 1e-3 * arc:
            raise Skip()
        x = arc / chord - 1
        e = 1e-9 * (1 + abs(x)) * (arc / chord) ** 2 * (1 + (np.abs(P).max() + np.abs(c["nev"]).max()) / (chord * coeff))
        L = (c["md"][i] - c["md"][0]) / coeff
        if mod:
            x, e = x / arc, e / arc
            f = L * (1 if "kapa" not in kw else kw["kapa"])
        else:
            f = 1e7 / L
        want.append(k / (k + 1) * f * (total + x))
        size.append(f * (e * 10 + 1e-8 * (total + x)) * (k + 1))
    for i in range(n):
        if not abs(got[i] - want[i]) <= size[i] * 10:
            return "index at station %d is %r, expected %r (sections start at %r)" % (i, float(got[i]), want[i], starts)
    if c["data"] and [int(x) for x in r["starts"]] != starts:
        return "sections start at %r, expected %r" % (list(r["starts"]), starts)
    return None


DYN = [Dyn("tortuosity", g, ck, n=(400, 4000), directed=[
    dict(md=[0, 100, 200, 300, 400.], inc=[0, 10, 20, 40, 60.], azi=[0.] * 5, unit="meters", nev=[0., 0, 0], mod=False, rtol=None, dls_tol=0.001, noise=None, step=None, data=True, how="method", own=None)])]
