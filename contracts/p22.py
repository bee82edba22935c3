"""P22 torque and drag"""
from .common import *

FILES = ["welleng/torque_drag.py", "welleng/architecture.py"]
TD = "welleng.torque_drag."
META = dict(
    title="Torque and drag obey the soft-string balance on every interval",
    statement="For every survey, wellbore and string (from the top of the survey) tension and torque satisfy, interval by interval from the bit up, the soft-string balance: the normal force is sqrt((T dazi sin inc)^2 + (T dinc + W sin inc)^2), the tension grows by W cos inc plus (pickup), minus (slackoff) or without (rotating) friction times the normal force, and the torque by friction times the rotating normal force times the contact radius; "
              "W is the buoyed weight (unit weight x length x (1 - fluid density / string density)) and radius half the (tool joint) diameter of the string section the interval is in, friction that of the wellbore section, and azimuths turn the short way round. At the bit the tension is 0, minus the weight on bit or the overpull and the torque is 0 or the torque on bit. "
              "Section boundaries inside the survey become stations; a hookload table holds the surface tensions for every friction factor and depth asked for.",
    over=["inputs"], quantifier="all surveys, wellbores, strings, densities, friction factors and bit loads",
    why="The torque and drag test checks one well to loose tolerances; a wrong section, sign or diameter shifts the loads of other strings silently.",
    mechanism=[("balance", "welleng/torque_drag.py:TorqueDrag.get_forces_and_torsion"), ("normal force", "welleng/torque_drag.py:force_normal"), ("tension", "welleng/torque_drag.py:force_tension_delta"), ("weights", "welleng/torque_drag.py:TorqueDrag.get_weight_buoyed_and_radius"), ("friction", "welleng/torque_drag.py:TorqueDrag.get_coeff_friction_sliding"), ("stations", "welleng/torque_drag.py:TorqueDrag.add_survey_points_from_strings"), ("hookload", "welleng/torque_drag.py:HookLoad.get_data")],
    observe_at="TorqueDrag(...).tension, torque, survey; HookLoad(...).data")


def s_forces(v, drilling, pull):
    n = v.int("n", lo=2)
    m = v.int("m", lo=2)
    v.assume(T.le(m, n))
    inc, di, da = v.arr("inc", n), v.arr("di", n), v.arr("da", n)
    mu = v.arr("mu", n)
    w, r = v.arr("w", m), v.arr("r", m)
    o = v.obj(TD + "TorqueDrag", index=m, inc_average=inc, inc_delta=di, azi_delta=da, weight_buoyed=w, coeff_friction_sliding=mu, radius=r, tension={}, torque={})
    wob, tob, op = v.real("wob", gt=0), v.real("tob", gt=0), v.real("overpull", gt=0)
    kw = dict(wob=wob, tob=tob) if drilling else {}
    if pull:
        kw["overpull"] = op
    v.method(o, "get_forces_and_torsion", **kw)
    t, q = v.get(o, "tension"), v.get(o, "torque")
    names = ["overpull" if pull else "pickup", "sliding" if drilling else "slackoff", "drilling" if drilling else "rotating"]
    v.ensure("load cases", T.TRUE if set(t) == set(names) and list(q) == [names[2]] else T.FALSE)
    k = v.idx(m)
    last = v.branch(T.eq(k, T.isub(m, 1)))
    bit = [op if pull else T.const(0), neg(wob) if drilling else T.const(0), neg(wob) if drilling else T.const(0)]
    k1 = T.iadd(k, 1)
    for c, nm in enumerate(names):
        v.ensure(nm + ": one value per station", T.eq(t[nm].shape[0], m))
    v.ensure("torque: one value per station", T.eq(q[names[2]].shape[0], m))
    if last:
        for c, nm in enumerate(names):
            v.ensure(nm + ": at the bit", T.eq(v.at(t[nm], k), bit[c]))
        v.ensure("torque: at the bit", T.eq(v.at(q[names[2]], k), tob if drilling else 0))
        return
    # the interval below station k
    I_, D, A_, W, U = v.at(inc, k1), v.at(di, k1), v.at(da, k1), v.at(w, k1), v.at(mu, k1)
    for c, nm in enumerate(names):
        a = t[nm]
        below = v.at(a, k1)
        N = T.sqrt(add(T.power(M(below, A_, T.sin(I_)), 2), T.power(add(mul(below, D), mul(W, T.sin(I_))), 2)))
        v.ensure(nm + ": balance", T.eq(v.at(a, k), S(below, mul(W, T.cos(I_)), M((1, -1, 0)[c], U, N))))
    u = q[names[2]]
    v.ensure("torque: balance", T.eq(v.at(u, k), add(v.at(u, k1), M(U, N, v.at(r, k1)))))


def s_elements(v):
    from pyvc.arrays import as_arr
    f = [v.real("f%d" % i) for i in range(3)]
    i, d, a, w, mu, rad = [v.real(x) for x in ("inc", "di", "da", "w", "mu", "rad")]
    N = v.call(TD + "force_normal", as_arr(f), i, d, a, w)
    for c in range(3):
        v.ensure("normal force %d" % c, T.eq(v.at(N, c), T.sqrt(add(T.power(M(f[c], a, T.sin(i)), 2), T.power(add(mul(f[c], d), mul(w, T.sin(i))), 2)))))
    fn = [v.real("n%d" % c) for c in range(3)]
    t = v.call(TD + "force_tension_delta", w, i, mu, as_arr(fn))
    for c in range(3):
        v.ensure("tension step %d" % c, T.eq(t[c], add(mul(w, T.cos(i)), M((1, -1, 0)[c], mu, fn[c]))))
    v.ensure("torque step", T.eq(v.call(TD + "torsion_delta", mu, fn[2], rad), M(mu, fn[2], rad)))
    rho, st = v.real("rho"), v.real("steel", gt=0)
    v.ensure("buoyancy", T.eq(v.call(TD + "buoyancy_factor", rho, st), sub(1, div(rho, st))))
    v.ensure("steel", T.eq(v.call(TD + "buoyancy_factor", rho), sub(1, div(rho, T.const(7.85)))))


def s_intervals(v):
    n, h, s = survey_obj(v)
    o = v.obj(TD + "TorqueDrag", survey=s)
    for m in ("get_inc_average", "get_inc_delta", "get_azi_delta"):
        v.method(o, m)
    inc, ga = v.get(s, "inc_rad"), v.get(s, "azi_grid_rad")
    k = v.idx(n)
    for a in ("inc_average", "inc_delta", "azi_delta"):
        v.ensure(a + " per station", T.eq(v.get(o, a).shape[0], n))
        v.ensure(a + " starts at zero", T.eq(v.at(v.get(o, a), 0), 0))
    v.assume(T.le(1, k))
    k0 = T.isub(k, 1)
    v.ensure("average inclination", T.eq(v.at(v.get(o, "inc_average"), k), div(add(v.at(inc, k), v.at(inc, k0)), 2)))
    v.ensure("inclination change", T.eq(v.at(v.get(o, "inc_delta"), k), sub(v.at(inc, k), v.at(inc, k0))))
    d = settle(v, v.at(v.get(o, "azi_delta"), k))
    raw = sub(v.at(ga, k), v.at(ga, k0))
    v.ensure("azimuth change is the short way round", T.land(T.le(neg(T.PI), d), T.lt(d, T.PI)))
    v.ensure("and differs from the listed change by full turns (cosine)", T.eq(T.cos(d), T.cos(raw)))
    v.ensure("and differs from the listed change by full turns (sine)", T.eq(T.sin(d), T.sin(raw)))


def s_sections(v, hyp):
    """weights and diameters by string section, friction by wellbore section (a section includes its bottom)"""
    n = 5
    md = [T.const(x) for x in (0.0, 100.0, 250.0, 400.0, 1000.0)]
    from pyvc.arrays import as_arr
    dm = [T.const(0)] + [sub(b, a) for a, b in zip(md, md[1:])]
    s = v.obj("welleng.survey.Survey", md=as_arr(md), delta_md=as_arr(dm))
    cut, bot, wcut = hyp
    sec = {i: dict(top=(md[0], md[cut])[i], bottom=(md[cut], md[bot])[i], unit_weight=v.real("uw%d" % i), density=v.real("de%d" % i, gt=0), od=v.real("od%d" % i, gt=0)) for i in range(2)}
    sec[1]["tooljoint_od"] = v.real("tj", gt=0)
    ws = {i: dict(bottom=(md[wcut], md[-1])[i], coeff_friction_sliding=v.real("mu%d" % i)) for i in range(2)}
    rho = v.real("rho")
    o = v.obj(TD + "TorqueDrag", survey=s, fluid_density=rho, string=v.obj("welleng.architecture.BHA", sections=sec, bottom=md[bot]), wellbore=v.obj("welleng.architecture.WellBore", sections=ws, bottom=md[-1]))
    for m in ("get_buoyancy_factors", "get_weight_buoyed_and_radius", "get_coeff_friction_sliding"):
        v.method(o, m)
    w, r, mu = [v.get(o, x) for x in ("weight_buoyed", "radius", "coeff_friction_sliding")]
    v.ensure("one per station down to the bit", T.TRUE if tuple(w.shape) == tuple(r.shape) == (bot + 1,) and tuple(mu.shape) == (n,) else T.FALSE)
    v.ensure("no weight above the first station", T.eq(v.at(w, 0), 0))
    for k in range(1, bot + 1):
        x = sec[0 if k <= cut else 1]
        v.ensure("weight %d" % k, T.eq(v.at(w, k), M(x["unit_weight"], dm[k], sub(1, div(rho, x["density"])))))
        v.ensure("radius %d" % k, T.eq(v.at(r, k), div(x.get("tooljoint_od", x["od"]), 2)))
    for k in range(1, n):
        v.ensure("friction %d" % k, T.eq(v.at(mu, k), ws[0 if k <= wcut else 1]["coeff_friction_sliding"]))


def s_stations(v, unit):
    """the boundaries of both become stations, each with the direction interpolated there"""
    from pyvc.arrays import as_arr
    md = [0.0, 100.0, 250.0, 400.0]
    inc, azi = [v.real("i%d" % i) for i in range(4)], [v.real("a%d" % i) for i in range(4)]
    h = header(v, "magnetic", unit)
    s = v.obj("welleng.survey.Survey", md=as_arr(md), inc_rad=as_arr(inc), azi_grid_rad=as_arr(azi), header=h, unit=unit)
    ends = {60.0: 1, 250.0: None, 300.0: 3, 380.0: 3, 400.0: None}
    sec = lambda xs: {i: dict(bottom=x) for i, x in enumerate(xs)}
    asked, made = [], []
    at = {x: (v.real("pi%d" % x), v.real("pa%d" % x)) for x, k in ends.items() if k}

    def interpolate(I, sv, x, *a, **k):
        asked.append((sv, float(x) if not isinstance(x, Term) else float(T.numval(x))))
        i, a_ = at[asked[-1][1]]
        return v.obj("welleng.node.Node", inc_rad=as_arr([i]), azi_grid_rad=as_arr([a_]))
    v.contract("welleng.survey.interpolate_md", interpolate)

    def survey(I, **k):
        made.append(k)
        return v.obj("welleng.survey.Survey", **k)
    v.contract("welleng.survey.Survey", survey)
    o = v.obj(TD + "TorqueDrag", survey_original=s, wellbore=v.obj("welleng.architecture.WellBore", sections=sec([250.0, 400.0])), string=v.obj("welleng.architecture.BHA", sections=sec([60.0, 300.0, 380.0])))
    v.method(o, "add_survey_points_from_strings")
    v.ensure("missing boundaries are interpolated on the survey", T.TRUE if {x for _, x in asked} == set(at) and all(q is s for q, _ in asked) else T.FALSE)
    k = made[-1]
    r = v.get(o, "survey")
    want = sorted(set(md) | set(at))
    M_, I2, A2 = [as_arr(k[x]) for x in ("md", "inc", "azi")]
    v.ensure("every boundary and station once", T.TRUE if tuple(M_.shape) == tuple(I2.shape) == tuple(A2.shape) == (len(want),) else T.FALSE)
    for j, x in enumerate(want):
        i, a = (inc[md.index(x)], azi[md.index(x)]) if x in md else at[x]
        v.ensure("depth", T.eq(v.at(M_, j), T.const(x)))
        v.ensure("inclination", T.eq(v.at(I2, j), i))
        v.ensure("azimuth", T.eq(v.at(A2, j), a))
    v.ensure("in radians, in the survey's unit", T.TRUE if k.get("deg") is False and k.get("unit") == unit else T.FALSE)
    v.ensure("as grid azimuths", T.TRUE if v.get(k["header"], "azi_reference") == "grid" and v.get(h, "azi_reference") == "magnetic" else T.FALSE)
    for x in ("convergence", "declination"):
        v.ensure("header " + x, T.eq(v.get(k["header"], x), v.get(h, x)))


def s_run(v, loads):
    """the analysis runs down to the string's bottom, free and (when asked) with the bit loads"""
    from pyvc.arrays import as_arr
    seen = []
    md = as_arr([T.const(x) for x in (0.0, 10.0, 20.0, 30.0)])
    s = v.obj("welleng.survey.Survey")
    s2 = v.obj("welleng.survey.Survey", md=md)

    def add_points(I, o):
        seen.append("stations")
        I.setattr(o, "survey", s2)
    v.contract(TD + "TorqueDrag.add_survey_points_from_strings", add_points)
    steps = ("get_buoyancy_factors", "get_inc_average", "get_inc_delta", "get_azi_delta", "get_weight_buoyed_and_radius", "get_coeff_friction_sliding")
    for m in steps:
        v.contract(TD + "TorqueDrag." + m, lambda I, o, m=m: seen.append(m))
    v.contract(TD + "TorqueDrag.get_forces_and_torsion", lambda I, o, wob=False, tob=False, overpull=False: seen.append((I.getattr(o, "index"), wob, tob, overpull)))
    wb, st = v.obj("welleng.architecture.WellBore", complete=True), v.obj("welleng.architecture.BHA", complete=True, bottom=T.const(20.0))
    rho = v.real("rho")
    kw = {k: v.real(k, gt=0) for k in loads}
    o = v.call(TD + "TorqueDrag", s, wb, st, rho, name="x", **kw)
    runs = [x for x in seen if isinstance(x, tuple)]
    v.ensure("down to the bit", T.land(*[T.eq(r[0], 3) for r in runs]))
    free = [r for r in runs if not any(isinstance(x, Term) for x in r[1:])]
    v.ensure("free run", T.TRUE if len(free) == 1 and not any(free[0][1:]) else T.FALSE)
    bit = [r for r in runs if r not in free]
    v.ensure("loaded run", T.TRUE if len(bit) == (1 if loads else 0) and all((r[1 + i] is kw[k]) if k in kw else not r[1 + i] for r in bit for i, k in enumerate(("wob", "tob", "overpull"))) else T.FALSE)
    first = min(i for i, x in enumerate(seen) if isinstance(x, tuple))
    v.ensure("after the stations and every input", T.TRUE if seen[0] == "stations" and set(steps) <= set(seen[:first]) and seen.index("get_buoyancy_factors") < seen.index("get_weight_buoyed_and_radius") else T.FALSE)
    for a, w in (("survey_original", s), ("wellbore", wb), ("string", st), ("fluid_density", rho), ("name", "x")):
        v.ensure("keeps its " + a, T.TRUE if v.get(o, a) is w else T.FALSE)
    for a, b in ((False, True), (True, False)):
        w2, s2_ = v.obj("welleng.architecture.WellBore", complete=a), v.obj("welleng.architecture.BHA", complete=b, bottom=T.const(20.0))
        v.ensure("incomplete ones are refused", T.TRUE if v.raises(lambda: v.call(TD + "TorqueDrag", s, w2, s2_, rho), AssertionError) else T.FALSE)


def s_hookload(v, step):
    from pyvc.arrays import as_arr
    s = v.obj("welleng.survey.Survey")
    wb = v.obj("welleng.architecture.WellBore", sections={0: dict(coeff_friction_sliding=.9), 1: dict(coeff_friction_sliding=.8)})
    st = v.obj("welleng.architecture.BHA", top=0.0, bottom=100.0)
    num = lambda x: float(T.numval(x)) if isinstance(x, Term) else float(x)
    v.contract("welleng.architecture.String.depth", lambda I, o, x: v.obj("welleng.architecture.BHA", of=o, bottom=x))
    res = {}

    def td(I, survey, wellbore, string, fluid_density=None, name=None, **k):
        ffs = {num(x["coeff_friction_sliding"]) for x in I.getattr(wellbore, "sections").values()}
        key = (tuple(sorted(ffs)), num(I.getattr(string, "bottom")))
        ok = survey is s and I.getattr(string, "of") is st and len(I.getattr(wellbore, "sections")) == 2 and fluid_density is rho
        res[key] = (ok, {t: [v.ctx.fresh("T"), v.ctx.fresh("U")] for t in ("pickup", "slackoff", "rotating")})
        return v.obj(TD + "TorqueDrag", tension={t: as_arr(x) for t, x in res[key][1].items()})
    v.contract(TD + "TorqueDrag", td)
    rho = v.real("rho")
    o = v.call(TD + "HookLoad", s, wb, st, rho, step=step, ff_range=(.5, 1.5, .5))
    mds = [step * i for i in range(1, 100) if step * i < 100] + [100.0]
    d = v.get(o, "data")
    v.ensure("friction factors", T.TRUE if [num(x) for x in d] == [.5, 1.0, 1.5] else T.FALSE)
    for ff, tab in d.items():
        v.ensure("load cases", T.TRUE if set(tab) == {"pickup", "slackoff", "rotating"} else T.FALSE)
        for t, xs in tab.items():
            v.ensure("one value per depth", T.TRUE if len(xs) == len(mds) else T.FALSE)
            for x, m in zip(xs, mds):
                ok, w = res.get(((num(ff),), m), (False, None))
                v.ensure("surface tension of the run at that depth and friction", T.land(T.TRUE if ok else T.FALSE, T.eq(x, w[t][0]) if ok else T.FALSE))
    v.ensure("the wellbore is left as it was", T.TRUE if [x["coeff_friction_sliding"] for x in v.get(wb, "sections").values()] == [.9, .8] else T.FALSE)


SPECS = [Spec("stations/" + u, lambda v, u=u: s_stations(v, u), bounded="four stations, five boundaries at fixed depths") for u in ("meters", "feet")]
SPECS += [Spec("run/%s" % ("+".join(l) or "free"), lambda v, l=l: s_run(v, l), bounded="four stations at fixed depths") for l in ((), ("wob", "tob"), ("overpull",), ("tob",))]
SPECS += [Spec("hookload/%g" % x, lambda v, x=x: s_hookload(v, x), bounded="two or four depths, three friction factors") for x in (30.0, 50.0)]
SPECS += [Spec("balance/" + nm, lambda v, a=a, b=b: s_forces(v, a, b)) for nm, a, b in (("free", 0, 0), ("drilling", 1, 0), ("overpull", 0, 1), ("drilling and overpull", 1, 1))]
SPECS += [Spec("interval", s_elements), Spec("angles", s_intervals)]
SPECS += [Spec("sections/%d%d%d" % h, lambda v, h=h: s_sections(v, h), bounded="five stations, two sections each, fixed depths") for h in ((1, 3, 2), (2, 4, 3), (1, 2, 1))]


def g(d):
    from .p07 import gen_full
    c = gen_full(d, lo=3, hi=7, maxinc=110, maxdl=1.2)
    lo, hi = c["md"][0], c["md"][-1]
    def bottoms(k):
        out = []
        for _ in range(k - 1):
            x = d.choice(c["md"][1:-1]) if d.bool(.3) else lo + (hi - lo) * d.real(.05, .95)
            if all(abs(x - y) > 1e-3 for y in out):
                out.append(x)
        return sorted(out)
    wb = bottoms(d.int(1, 3)) + [hi]
    end = hi if d.bool(.4) else (d.choice(c["md"][1:]) if d.bool(.3) else min(hi, lo + (hi - lo) * d.real(.5, 1)))
    st = [x for x in bottoms(d.int(1, 3)) if x < end - 1e-3] + [end]
    c["wb"] = [[x, d.choice([d.real(0, .5), .2])] for x in wb]
    c["st"] = [[x, d.real(10, 2000), d.real(1, 9, (7.85,)), d.real(.05, .4), d.real(.05, .5) if d.bool(.4) else None] for x in st]
    c["rho"] = d.real(.5, 2.5, (1.0,))
    c["bit"] = [d.real(1, 1e5), d.real(1, 1e4)] if d.bool(.4) else None
    c["pull"] = d.real(1, 1e5) if d.bool(.3) else None
    c["up"] = [d.bool(), d.bool()]
    return c


def arch(c):
    from welleng.architecture import BHA, WellBore
    lo = c["md"][0]
    w = WellBore("w", lo, c["wb"][-1][0], method="bottom_up" if c["up"][0] else "top_down")
    tops = [lo] + [x[0] for x in c["wb"]][:-1]
    rows = list(zip(tops, c["wb"]))
    for t, (b, f) in (rows[::-1] if c["up"][0] else rows):
        w.add_section(id=.3, coeff_friction_sliding=f, **({"top": t} if c["up"][0] and t else {} if c["up"][0] else {"bottom": b}))
    s = BHA("s", lo, c["st"][-1][0], method="bottom_up" if c["up"][1] else "top_down")
    tops = [lo] + [x[0] for x in c["st"]][:-1]
    rows = list(zip(tops, c["st"]))
    for t, (b, u, de, od, tj) in (rows[::-1] if c["up"][1] else rows):
        k = dict(unit_weight=u, density=de, od=od)
        if tj:
            k["tooljoint_od"] = tj
        s.add_section(**k, **({"top": t} if c["up"][1] and t else {} if c["up"][1] else {"bottom": b}))
    return w, s


def loads(c, md, inc, azi, wob, tob, pull):
    """tension (up, down, rotating) and torque at every station down to the bit"""
    n = max(i for i, m in enumerate(md) if m <= c["st"][-1][0] + 1e-9) + 1
    T3 = np.zeros((n, 3))
    T3[-1] = [pull or 0, -(wob or 0), -(wob or 0)]
    q = np.zeros(n)
    q[-1] = tob or 0
    for k in range(n - 1, 0, -1):
        sec = next(x for x in c["st"] if md[k] <= x[0] + 1e-9)
        mu = next(x for x in c["wb"] if md[k] <= x[0] + 1e-9)[1]
        W = sec[1] * (md[k] - md[k - 1]) * (sec[2] - c["rho"]) / sec[2]
        ia, di = (inc[k] + inc[k - 1]) / 2, inc[k] - inc[k - 1]
        da = (azi[k] - azi[k - 1] + math.pi) % (2 * math.pi) - math.pi
        N = np.hypot(T3[k] * da * math.sin(ia), T3[k] * di + W * math.sin(ia))
        T3[k - 1] = T3[k] + W * math.cos(ia) + mu * N * [1, -1, 0]
        q[k - 1] = q[k] + mu * N[2] * (sec[4] or sec[3]) / 2
    return T3, q


def ck(c):
    from welleng.torque_drag import TorqueDrag, HookLoad
    from .p07 import full_survey, full_ref, ref_at, snapshot, same_snapshot
    s = full_survey(c)
    snap = snapshot(s)
    w, st = arch(c)
    wob, tob = c["bit"] or (None, None)
    td = TorqueDrag(s, w, st, c["rho"], wob=wob, tob=tob, overpull=c["pull"])
    q = td.survey
    want = sorted(set(c["md"]) | {x[0] for x in c["wb"] + c["st"]})
    if len(q.md) != len(want) or not close(q.md, want, 1e-12, 1e-9):
        return "stations %s, expected %s" % (list(q.md), want)
    ref = full_ref(c)
    for k, m in enumerate(want):
        u = ref_at(c, m, ref)[1]
        if not close(ref_tan(q.inc_rad[k], q.azi_grid_rad[k]), u, 1e-6, 1e-6):
            return "direction at %r" % m
    # a vertical station's azimuth is arbitrary: the balance is that of the listed angles
    for bit in ([False, True] if c["bit"] or c["pull"] else [False]):
        a = (wob, tob, c["pull"]) if bit else (None,) * 3
        T3, qq = loads(c, want, q.inc_rad, q.azi_grid_rad, *a)
        names = ["overpull" if a[2] else "pickup", "sliding" if a[0] else "slackoff", "drilling" if a[0] else "rotating"]
        sc = 1 + np.abs(T3).max()
        for i, nm in enumerate(names):
            if nm not in td.tension:
                return "no tension %r" % nm
            if not close(td.tension[nm], T3[:, i], 1e-7, 1e-7 * sc):
                return "tension %s: %s" % (nm, worst(td.tension[nm], T3[:, i]))
        if not close(td.torque[names[2]], qq, 1e-7, 1e-7 * sc):
            return "torque %s: %s" % (names[2], worst(td.torque[names[2]], qq))
    return same_snapshot(s, snap)


def gh(d):
    c = g(d)
    c["bit"] = c["pull"] = None
    c["up"][1] = True
    c["step"] = (c["st"][-1][0] - c["md"][0]) * d.choice([.3, .5, .9, 2])
    c["ff"] = d.choice([(.1, .4, .1), (.2, .3, .1), (0.05, .35, .15)])
    return c


def ckh(c):
    from welleng.torque_drag import HookLoad
    from .p07 import full_survey, full_ref, ref_at
    s = full_survey(c)
    w, st = arch(c)
    before = [dict(x) for x in w.sections.values()]
    h = HookLoad(s, w, st, c["rho"], step=c["step"], ff_range=c["ff"])
    if [dict(x) for x in w.sections.values()] != before:
        return "the wellbore's friction was changed"
    depths = h.md_range
    lo, end = c["md"][0], c["st"][-1][0]
    if abs(depths[-1] - end) > 1e-9 or any(not lo < x <= end for x in depths) or sorted(depths) != depths:
        return "depths %s" % depths
    if not close(h.ff_range[-1], c["ff"][1], 1e-12, 0) or not close(h.ff_range[0], c["ff"][0], 1e-12, 0):
        return "friction factors %s" % h.ff_range
    ref = full_ref(c)
    for f in h.ff_range:
        rows = []
        for m in depths:
            # the string run to depth m: same sections from the bit up
            d = end - m
            st2 = [[x[0] - d] + x[1:] for x in c["st"] if x[0] - d > lo + 1e-12]
            c2 = dict(c, st=st2, wb=[[x[0], f] for x in c["wb"]])
            want = sorted(set(c["md"]) | {x[0] for x in c2["wb"] + st2})
            inc, azi = [], []
            for x in want:
                i = [k for k, y in enumerate(c["md"]) if y == x]
                if i:
                    inc.append(float(s.inc_rad[i[0]]))
                    azi.append(float(s.azi_grid_rad[i[0]]))
                else:
                    u = ref_at(c, x, ref)[1]
                    inc.append(math.atan2(math.hypot(u[0], u[1]), u[2]))
                    azi.append(math.atan2(u[1], u[0]))
                    if math.sin(inc[-1]) < 1e-4:
                        raise Skip()
            T3, _ = loads(c2, want, inc, azi, None, None, None)
            rows.append(T3[0])
        rows = np.array(rows)
        for i, nm in enumerate(("pickup", "slackoff", "rotating")):
            if not close(h.data[f][nm], rows[:, i], 1e-5, 1e-4 * (1 + np.abs(rows).max())):
                return "hookload %s at friction %r: %s" % (nm, f, worst(h.data[f][nm], rows[:, i]))
    return None


DYN = [Dyn("torque and drag", g, ck, n=(250, 5000)), Dyn("hookload", gh, ckh, n=(25, 400))]
