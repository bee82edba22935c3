"""P17 partial derivatives of position with respect to depth, inclination and azimuth"""
from .common import *

FILES = ["welleng/error.py"]
E = "welleng.error."
META = dict(
    title="The error model's partial derivatives are those of the survey path",
    statement="For every survey, whatever its number of stations, the error model's partial derivatives at each station are those of the half-and-half (balanced tangential) step into the station and out of it: half the depth step times the derivative of the station's direction with inclination (towards the high side) and azimuth (to the right), and the mean of the two directions for depth with opposite signs for the two intervals; "
              "zero into the first and out of the last station; the vectorised table and the single functions agree in every column (in models other than Rev4 the north partial with inclination of the first interval counts double, the tie-on convention of the revision). They are taken at the true azimuth. The diagnostic table repeats the six covariance terms of every source, and its totals are their sums.",
    over=["inputs"], quantifier="all surveys and both revisions' conventions",
    why="Every covariance is built from these 18 columns; a wrong sign or index in one shows only for particular directions and intervals, and a test well exercises a few.",
    mechanism=[("table", "welleng/error.py:ErrorModel._drdp"), ("single functions", "welleng/error.py:ErrorModel.drk_dDepth"), ("next station", "welleng/error.py:ErrorModel.drkplus1_dDepth"), ("azimuth frame", "welleng/error.py:ErrorModel.__init__"), ("diagnostics", "welleng/error.py:make_diagnostic_data")],
    observe_at="ErrorModel(...).drdp, drdp_sing, drk_*, drkplus1_*, make_diagnostic_data")

NAMES = ("drk_dDepth", "drk_dInc", "drk_dAz", "drkplus1_dDepth", "drkplus1_dInc", "drkplus1_dAz")
MODELS = ("ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4", "MWD+SRGM")


def wants(v, sv, k, model, first):
    """what the six vectors at station k (first interval: k == 1) are"""
    f = lambda t: tuple(v.at(sv, t, c) for c in range(3))
    out = {}
    def tan(t):
        _, i, a = f(t)
        return [mul(T.sin(i), T.cos(a)), mul(T.sin(i), T.sin(a)), T.cos(i)]
    def dinc(t):
        _, i, a = f(t)
        return [mul(T.cos(i), T.cos(a)), mul(T.cos(i), T.sin(a)), T.neg(T.sin(i))]
    def dazi(t):
        _, i, a = f(t)
        return [T.neg(mul(T.sin(i), T.sin(a))), mul(T.sin(i), T.cos(a)), T.const(0)]
    half = T.const(0.5)
    p = T.isub(k, 1)
    L = mul(half, sub(f(k)[0], f(p)[0]))
    mean = [mul(half, add(x, y)) for x, y in zip(tan(p), tan(k))]
    into = dict(drk_dDepth=mean, drk_dInc=[mul(L, x) for x in dinc(k)], drk_dAz=[mul(L, x) for x in dazi(k)])
    if first and not model.lower().endswith("rev4"):
        into["drk_dInc"][0] = mul(T.const(2), into["drk_dInc"][0])
    # out of the station before
    out = dict(drkplus1_dDepth=[T.neg(x) for x in mean], drkplus1_dInc=[mul(L, x) for x in dinc(p)], drkplus1_dAz=[mul(L, x) for x in dazi(p)])
    return into, out


def s_table(v, model, single):
    n = v.int("n", lo=2)
    sv = v.arr("s", n, 3)
    m = v.obj(E + "ErrorModel", error_model=model)
    if single:
        tabs = {x: v.method(m, x, sv) for x in NAMES}
        at = lambda x, k, c: v.at(tabs[x], k, c)
        for x in NAMES:
            v.ensure("one row per station " + x, T.land(T.eq(tabs[x].shape[0], n), T.eq(tabs[x].shape[1], 3)))
    else:
        J = v.method(m, "_drdp", sv)
        v.ensure("one row per station", T.land(T.eq(J.shape[0], n), T.eq(J.shape[1], 18)))
        at = lambda x, k, c: v.at(J, k, 3 * NAMES.index(x) + c)
    for x in NAMES:
        for c in range(3):
            v.ensure("nothing %s %s" % ("into the first station" if x[3] == "_" else "out of the last", x + "NEV"[c]),
                     T.eq(at(x, 0 if x[3] == "_" else T.isub(n, 1), c), 0))
    into, out = wants(v, sv, T.toint(1), model, True)
    for x, w in into.items():
        for c in range(3):
            v.ensure("first interval, %s %s" % (x, "NEV"[c]), T.eq(at(x, 1, c), w[c]))
    k = v.idx(n)
    v.assume(T.le(1, T.toreal(k)))
    _, out = wants(v, sv, k, model, False)
    for x, w in out.items():
        for c in range(3):
            v.ensure("%s %s" % (x, "NEV"[c]), T.eq(at(x, T.isub(k, 1), c), w[c]))
    v.assume(T.le(2, T.toreal(k)))
    into, _ = wants(v, sv, k, model, False)
    for x, w in into.items():
        for c in range(3):
            v.ensure("%s %s" % (x, "NEV"[c]), T.eq(at(x, k, c), w[c]))


def s_init(v):
    """the stations are taken at the true azimuth"""
    n = v.int("n", lo=2)
    md, inc, at_ = v.arr("md", n), v.arr("inc", n), v.arr("azt", n)
    s = v.obj("welleng.survey.Survey", md=md, inc_rad=inc, azi_true_rad=at_, azi_grid_rad=v.arr("azg", n), azi_mag_rad=v.arr("azm", n))
    asked = []
    J, sing = v.arr("J", n, 18), object()
    v.contract(E + "ErrorModel._drdp", lambda I, o, x: asked.append(x) or J)
    v.contract(E + "ErrorModel._drdp_sing", lambda I, o, x: asked.append(x) or "sing")
    made = []
    v.contract("welleng.errors.tool_errors.ToolError", lambda I, error=None, model=None: made.append((error, model)) or "errors")
    m = v.call(E + "ErrorModel", s, error_model="GYRO-NS")
    k = v.idx(n)
    for x in (v.get(m, "survey_rad"), v.get(m, "survey_drdp"), asked[0], asked[1]):
        for c, w in enumerate((md, inc, at_)):
            v.ensure("depth, inclination, true azimuth %d" % c, T.eq(v.at(x, k, c), v.at(w, k)))
    v.ensure("table kept", T.TRUE if v.get(m, "drdp") is J and v.get(m, "drdp_sing") == "sing" and v.get(m, "survey") is s else T.FALSE)
    v.ensure("the model's own entry", T.TRUE if len(made) == 1 and made[0][0] is m and v.get(m, "error_model") == "GYRO-NS" and v.get(m, "errors") == "errors" else T.FALSE)


def s_sing(v):
    n = v.int("n", lo=3)
    sv = v.arr("s", n, 3)
    m = v.obj(E + "ErrorModel", error_model="X")
    d = v.method(m, "_drdp_sing", sv)
    k = v.idx(T.isub(n, 2))
    k1, k2 = T.iadd(k, 1), T.iadd(k, 2)
    for x in ("double_delta_md", "delta_md", "azi2"):
        v.ensure("one per inner station " + x, T.eq(d[x].shape[0], T.isub(n, 2)))
    v.ensure("both intervals", T.eq(v.at(d["double_delta_md"], k), sub(v.at(sv, k2, 0), v.at(sv, k, 0))))
    v.ensure("interval into the station", T.eq(v.at(d["delta_md"], k), sub(v.at(sv, k1, 0), v.at(sv, k, 0))))
    v.ensure("its azimuth", T.eq(v.at(d["azi2"], k), v.at(sv, k1, 2)))


def s_diag(v):
    C = v.arr("C", 3, 3)
    r = v.call(E + "get_errors", C)
    for x, (i, j) in zip(r, ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
        v.ensure("term %d%d" % (i, j), T.eq(x, v.at(C, i, j)))
    v.ensure("six terms", T.TRUE if len(r) == 6 else T.FALSE)


SPECS = [Spec("%s/%s" % ("single functions" if s else "table", m), lambda v, m=m, s=s: s_table(v, m, s)) for m in MODELS for s in (False, True)]
SPECS += [Spec("stations", s_init), Spec("vertical stations", s_sing), Spec("six terms", s_diag)]


# ------------------------------------------------------------- executable
def gen(d):
    from .p07 import gen_full
    c = gen_full(d, maxinc=d.choice([15.0, 80.0]), maxdl=1.0)
    c["C"], c["gsf"] = None, 1.0
    c["model"] = d.choice(["ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4", "MWD+SRGM", "GYRO-NS"])
    return c


def check_table(c):
    from .p16 import make
    s = make(c)
    em = s.err
    n = len(c["md"])
    J = np.asarray(em.drdp)
    I, A = np.asarray(s.inc_rad), np.asarray(s.azi_true_rad)
    if np.abs(np.asarray(em.survey_rad) - np.column_stack([s.md, I, A])).max() > 1e-12:
        return "the model's stations are not (depth, inclination, true azimuth)"
    # numerical derivative of the balanced tangential step
    def step(x, y):
        return (y[0] - x[0]) / 2 * (ref_tan(x[1], x[2]) + ref_tan(y[1], y[2]))
    R = np.zeros((n, 6, 3))
    S_ = [np.array([s.md[k], I[k], A[k]], float) for k in range(n)]
    for k in range(n):
        for p in range(3):
            h = np.zeros(3)
            h[p] = 1e-4
            if k:
                R[k, p] = (step(S_[k - 1], S_[k] + h) - step(S_[k - 1], S_[k] - h)) / 2e-4
            if k < n - 1:
                R[k, 3 + p] = (step(S_[k] + h, S_[k + 1]) - step(S_[k] - h, S_[k + 1])) / 2e-4
    if not c["model"].lower().endswith("rev4"):
        R[1, 1, 0] *= 2
    R = R.reshape(n, 18)
    sc = max(1.0, np.abs(R).max())
    if J.shape != R.shape or np.abs(J - R).max() > 1e-6 * sc:
        k, q = np.unravel_index(np.argmax(np.abs(J - R)), R.shape)
        return "drdp[%d, %s %s]: %g, the derivative of the path is %g" % (k, NAMES[q // 3], "NEV"[q % 3], J[k, q], R[k, q])
    for q, nm in enumerate(NAMES):
        x = np.asarray(getattr(em, nm)(em.survey_rad))
        if x.shape != (n, 3) or np.abs(x - J[:, 3 * q:3 * q + 3]).max() > 1e-9 * sc:
            return "%s differs from its columns in the table" % nm


def check_diag(c):
    import welleng.error as E_
    from .p16 import make
    s = make(c)
    d = E_.make_diagnostic_data(s)
    if len(d) != len(set(c["md"])):
        return "diagnostics at %d depths for %d stations" % (len(d), len(c["md"]))
    for k, m in enumerate(s.md):
        tot = np.zeros(6)
        for code, e in s.err.errors.errors.items():
            C = e.cov_NEV[k]
            w = np.array([C[0, 0], C[1, 1], C[2, 2], C[0, 1], C[0, 2], C[1, 2]])
            if np.abs(np.array(d[m][code]) - w).max() > 1e-12 * max(1e-9, np.abs(w).max()):
                return "diagnostic terms of %s at %g differ from the source's covariance" % (code, m)
            tot += w
        if np.abs(d[m]["TOTAL"] - tot).max() > 1e-9 * max(1e-9, np.abs(tot).max()):
            return "diagnostic total at %g differs from the sum of the sources" % m


DYN = [Dyn("table", gen, check_table, n=(150, 4000)), Dyn("diagnostics", gen, check_diag, n=(80, 1500))]
