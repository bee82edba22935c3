"""P16 position uncertainty: error vectors accumulated into covariances"""
from .common import *

FILES = ["welleng/error.py", "welleng/errors/tool_errors.py", "welleng/utils.py", "welleng/survey.py"]
E = "welleng.error."
TE = "welleng.errors.tool_errors."
U = "welleng.utils."
S_ = "welleng.survey."
META = dict(
    title="Covariances are symmetric, positive semi-definite sums over the error sources",
    statement="For every survey and every error source of every tool model the station covariance is the outer product of the accumulated error vector (systematic, global and within-pad sources: the vectors of the stations before plus the station's own) or, for random sources, the sum of the outer products of the stations before plus the station's own; so it is symmetric and positive semi-definite, zero at the first station, and scales with the square of the source's magnitude. "
              "The survey's covariance is the sum over all sources, split without remainder into the random, systematic, global and within-pad parts; the hole-frame covariance is the same tensor turned into the hole's axes, and a start covariance is added to every station. "
              "Every listed tool model that has a model file gives finite covariances for every survey it accepts, from its own file, two-station and vertical surveys included.",
    over=["inputs", "configurations"], quantifier="all surveys, sources, magnitudes, propagation modes and tool models",
    why="Tests compare a handful of ISCWSA diagnostic wells; symmetry, definiteness, additivity and finiteness are needed at every station of any well, with any tool.",
    mechanism=[("accumulation", "welleng/error.py:ErrorModel._generate_error"), ("station error vectors", "welleng/error.py:ErrorModel._e_NEV"), ("sum over sources", "welleng/errors/tool_errors.py:ToolError.__init__"), ("survey", "welleng/survey.py:Survey._get_errors"), ("outer product", "welleng/utils.py:cov_from_vec")],
    observe_at="ErrorModel(...).errors, Survey.cov_nev, cov_hla and their parts")


def model_obj(v, n, model="ISCWSA MWD Rev5.11"):
    return v.obj(E + "ErrorModel", drdp=v.arr("J", n, 18), error_model=model)


def s_cov_from_vec(v):
    n = v.int("n", lo=1)
    e = v.arr("e", n, 3)
    c = v.call(U + "cov_from_vec", e)
    k = v.idx(n)
    v.ensure("one matrix per station", T.eq(c.shape[0], n))
    for i in range(3):
        for j in range(3):
            v.ensure("outer product %d%d" % (i, j), T.eq(v.at(c, k, i, j), mul(v.at(e, k, i), v.at(e, k, j))))
    u = vec3(v, "u")
    q = S(*[M(u[i], v.at(c, k, i, j), u[j]) for i in range(3) for j in range(3)])
    v.ensure("positive semi-definite", T.eq(q, mul(dot(u, [v.at(e, k, i) for i in range(3)]), dot(u, [v.at(e, k, i) for i in range(3)]))))


def s_vectors(v, star):
    """the station's error vector is the Jacobian times the (depth, inclination, azimuth) error"""
    n = v.int("n", lo=2)
    m = model_obj(v, n)
    J = v.get(m, "drdp")
    e = v.arr("e", n, 3)
    r = v.method(m, "_e_NEV_star" if star else "_e_NEV", e)
    k = v.idx(n)
    v.ensure("one vector per station", T.land(T.eq(r.shape[0], n), T.eq(r.shape[1], 3)))
    for c in range(3):
        v.ensure("zero at the first station " + "NEV"[c], T.eq(v.at(r, 0, c), 0))
    v.assume(T.le(1, T.toreal(k)))
    for c in range(3):
        own = S(*[mul(v.at(J, k, 3 * p + c), v.at(e, k, p)) for p in range(3)])
        nxt = S(*[mul(v.at(J, k, 9 + 3 * p + c), v.at(e, k, p)) for p in range(3)])
        v.ensure("Jacobian times error " + "NEV"[c], T.eq(v.at(r, k, c), own if star else add(own, nxt)))


def s_sigma(v):
    n = v.int("n", lo=2)
    m = model_obj(v, n)
    e, st = v.arr("e", n, 3), v.arr("s", n, 3)
    r = v.method(m, "_sigma_e_NEV_systematic", e, st)
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    for c in range(3):
        v.ensure("first station " + "NEV"[c], T.eq(v.at(r, 0, c), add(v.at(st, 0, c), v.at(e, 0, c))))
        v.ensure("second station " + "NEV"[c], T.eq(v.at(r, 1, c), add(v.at(st, 1, c), v.at(e, 0, c))))
        v.assume(T.le(1, T.toreal(k)))
        v.ensure("each station adds the error of the one before " + "NEV"[c], T.eq(
            sub(v.at(r, k1, c), v.at(st, k1, c)), add(sub(v.at(r, k, c), v.at(st, k, c)), v.at(e, k, c))))


def s_generate(v, prop, given):
    n = v.int("n", lo=2)
    m = model_obj(v, n)
    d = v.arr("d", n, 3)
    e, st = v.arr("e", n, 3), v.arr("s", n, 3)
    for x in (e, st):
        v.assume(*[T.eq(v.at(x, 0, c), 0) for c in range(3)])
    asked = []
    v.contract(E + "ErrorModel._e_NEV", lambda I, o, x: asked.append(x) or e)
    v.contract(E + "ErrorModel._e_NEV_star", lambda I, o, x: asked.append(x) or st)
    r = v.method(m, "_generate_error", "CODE", d, prop, True, e, st) if given else v.method(m, "_generate_error", "CODE", d, prop)
    C = v.get(r, "cov_NEV")
    v.ensure("labels", T.TRUE if (v.get(r, "code"), v.get(r, "propagation")) == ("CODE", prop) else T.FALSE)
    v.ensure("vectors of the given error", T.TRUE if (not given) == (len(asked) == 2) and all(x is d or v.same(v.at(x, v.idx(n), 0), v.at(d, v.idx(n), 0)) for x in asked) else T.FALSE)
    k = v.idx(T.isub(n, 1))
    k1 = T.iadd(k, 1)
    v.ensure("one matrix per station", T.eq(C.shape[0], n))
    q = v.idx(n, "q")
    for i in range(3):
        v.ensure("error kept", T.eq(v.at(v.get(r, "e_DIA"), q, i), v.at(d, q, i)))
        for j in range(3):
            v.ensure("station covariance %d%d" % (i, j), T.eq(v.at(v.get(r, "cov_DIA"), q, i, j), mul(v.at(d, q, i), v.at(d, q, j))))
            v.ensure("zero at the first station %d%d" % (i, j), T.eq(v.at(C, 0, i, j), 0))
            if j > i:
                v.ensure("symmetric %d%d" % (i, j), T.eq(v.at(C, q, i, j), v.at(C, q, j, i)))
    if prop == "random":
        rest = lambda p, i, j: sub(v.at(C, p, i, j), mul(v.at(st, p, i), v.at(st, p, j)))
        for i in range(3):
            for j in range(3):
                v.ensure("nothing accumulated at the first station %d%d" % (i, j), T.eq(rest(0, i, j), 0))
                v.ensure("the second station adds the outer product of the first %d%d" % (i, j), T.eq(rest(1, i, j), mul(v.at(e, 0, i), v.at(e, 0, j))))
        v.assume(T.le(1, T.toreal(k)))
        for i in range(3):
            for j in range(3):
                v.ensure("each station adds the outer product of the one before %d%d" % (i, j), T.eq(
                    rest(k1, i, j), add(rest(k, i, j), mul(v.at(e, k, i), v.at(e, k, j)))))
    else:
        s = v.method(m, "_sigma_e_NEV_systematic", e, st)
        for i in range(3):
            for j in range(3):
                v.ensure("outer product of the accumulated vector %d%d" % (i, j), T.eq(v.at(C, q, i, j), mul(v.at(s, q, i), v.at(s, q, j))))
    u = vec3(v, "u")
    if prop == "random":
        quad = lambda p: S(*[M(u[i], rest(p, i, j), u[j]) for i in range(3) for j in range(3)])
        a = quad(k)
        b = dot(u, [v.at(e, k, c) for c in range(3)])
        v.ensure("semi-definite by induction over the stations", T.eq(quad(k1), add(a, mul(b, b))))


def s_not_nev(v):
    n = v.int("n", lo=2)
    m = model_obj(v, n)
    d = v.arr("d", n, 3)
    r = v.method(m, "_generate_error", "CODE", d, "random", False)
    v.ensure("the error itself", T.TRUE if r is d else T.FALSE)


def s_survey(v, start):
    """the survey takes the model's sums; a start covariance is added to every station"""
    n = v.int("n", lo=2)
    names = ("cov_HLAs", "cov_NEVs", "cov_NEVs_random", "cov_NEVs_systematic", "cov_NEVs_global", "cov_NEVs_within_pad")
    A = {x: v.arr(x, n, 3, 3) for x in names}
    made = []

    def mk(I, s, error_model=None):
        made.append((s, error_model))
        return v.obj(E + "ErrorModel", errors=v.obj(TE + "ToolError", **A))
    v.contract(E + "ErrorModel", mk)
    hla = []
    v.contract(U + "NEV_to_HLA", lambda I, r, c: hla.append((r, c)) or v.arr("H", n, 3, 3))
    C0 = v.arr("C0", 3, 3) if start else None
    rad = v.arr("rad", n, 3)
    s = v.obj(S_ + "Survey", error_model="ISCWSA MWD Rev4", start_cov_nev=C0, survey_rad=rad, cov_nev=None, cov_hla=None)
    v.method(s, "_get_errors")
    v.ensure("the survey's own model", T.TRUE if len(made) == 1 and made[0][0] is s and made[0][1] == "ISCWSA MWD Rev4" else T.FALSE)
    k = v.idx(n)
    for i in range(3):
        for j in range(3):
            v.ensure("covariance %d%d" % (i, j), T.eq(v.at(v.get(s, "cov_nev"), k, i, j), add(v.at(A["cov_NEVs"], k, i, j), v.at(C0, i, j)) if start else v.at(A["cov_NEVs"], k, i, j)))
            for p in ("random", "systematic", "global", "within_pad"):
                v.ensure("%s part %d%d" % (p, i, j), T.eq(v.at(v.get(s, "cov_nev_" + p), k, i, j), v.at(A["cov_NEVs_" + p], k, i, j)))
            if start:
                v.ensure("turned %d%d" % (i, j), T.land(T.TRUE if len(hla) == 1 and hla[0][0] is rad else T.FALSE, T.eq(v.at(hla[0][1], k, i, j), v.at(v.get(s, "cov_nev"), k, i, j)),
                                                        T.eq(v.at(v.get(s, "cov_hla"), k, i, j), v.at(v.arr("H", n, 3, 3), k, i, j))))
            else:
                v.ensure("hole frame %d%d" % (i, j), T.eq(v.at(v.get(s, "cov_hla"), k, i, j), v.at(A["cov_HLAs"], k, i, j)))


PROPS = ("random", "systematic", "global", "within_pad")


def s_sum(v):
    """ToolError adds every source once to the total and once to its part (files by assumed contract)"""
    n = v.int("n", lo=2)
    src = [("A", "random"), ("B", "systematic"), ("C", "global"), ("D", "within_pad"), ("F", "random"), ("G", "systematic")]
    em = {"header": {}, "codes": {c: dict(function="AZ", magnitude=v.real("mag" + c), propagation=p, unit="rad") for c, p in src}}
    v.external("yaml.safe_load", lambda I, f: em)
    v.external("os.path.isfile", lambda I, f: True)
    v.contract(TE + "_resolve_json_model", lambda I, m: None)
    calls = []

    def cf(I, o, code, func, error, mag, propagation, **kw):
        calls.append((code, func, mag, propagation))
        return v.obj(E + "ErrorModel.Error", cov_NEV=v.arr("cov" + code, n, 3, 3), propagation=propagation)
    v.contract(TE + "ToolError.call_func", cf)
    hla = []
    v.contract(U + "NEV_to_HLA", lambda I, r, c: hla.append((r, c)) or v.arr("H", n, 3, 3))
    rad = v.arr("rad", n, 3)
    m = v.obj(E + "ErrorModel", survey_rad=rad, survey=v.obj(S_ + "Survey", inc_rad=v.arr("inc", n)), error_model="X")
    t = v.call(TE + "ToolError", error=m, model="A001Mc")
    v.ensure("every source once, with its magnitude", T.land(T.TRUE if [c[0] for c in calls] == [c for c, _ in src] else T.FALSE, *[T.TRUE if c[1] == "AZ" and c[3] == p else T.FALSE for c, (_, p) in zip(calls, src)],
                                                             *[T.eq(c[2], v.real("mag" + x)) for c, (x, _) in zip(calls, src)]))
    k = v.idx(n)
    C = lambda c, i, j: v.at(v.arr("cov" + c, n, 3, 3), k, i, j)
    for i in range(3):
        for j in range(3):
            v.ensure("total %d%d" % (i, j), T.eq(v.at(v.get(t, "cov_NEVs"), k, i, j), S(*[C(c, i, j) for c, _ in src])))
            for p in PROPS:
                v.ensure("%s part %d%d" % (p, i, j), T.eq(v.at(v.get(t, "cov_NEVs_" + p), k, i, j), S(*[C(c, i, j) for c, q in src if q == p])))
            v.ensure("hole frame %d%d" % (i, j), T.land(T.TRUE if hla[-1][0] is rad else T.FALSE, T.eq(v.at(hla[-1][1], k, i, j), v.at(v.get(t, "cov_NEVs"), k, i, j)), T.eq(v.at(v.get(t, "cov_HLAs"), k, i, j), v.at(v.arr("H", n, 3, 3), k, i, j))))


SPECS = [Spec("outer product", s_cov_from_vec)]
SPECS += [Spec("station error vector/%s" % ("own" if s else "with the next interval"), lambda v, s=s: s_vectors(v, s)) for s in (False, True)]
SPECS += [Spec("accumulated vector", s_sigma)]
SPECS += [Spec("source covariance/%s/%s" % (p, "given" if g_ else "derived"), lambda v, p=p, g_=g_: s_generate(v, p, g_)) for p in PROPS for g_ in (False, True)]
SPECS += [Spec("source error without propagation", s_not_nev), Spec("sum over sources", s_sum, bounded=None)]
SPECS += [Spec("survey/%s" % ("start covariance" if s else "plain"), lambda v, s=s: s_survey(v, s)) for s in (False, True)]


# ------------------------------------------------------------- executable
NOFILE = ("spe-90408-ma_example_table_3",)


def gen(d):
    import welleng.error as E_
    from .p07 import gen_full
    c = gen_full(d, maxinc=d.choice([15.0, 55.0, 85.0]), maxdl=0.6)
    c["model"] = d.choice(E_.ERROR_MODELS)
    c["C"] = None
    c["gsf"] = 1.0
    k = d.r.random()
    if k < .15:
        c["inc"] = [0.0] * len(c["inc"])
    elif k < .3:
        m = d.int(1, len(c["inc"]))
        c["inc"] = [0.0] * m + c["inc"][m:]
    if d.bool(.15):
        for x in ("md", "inc", "azi"):
            c[x] = c[x][:2]
    n = len(c["md"])
    c["sel"] = d.int(0, 10 ** 6)
    A = np.array([[d.plain(-2, 2) for _ in range(3)] for _ in range(3)])
    c["start"] = (A @ A.T).tolist() if d.bool(.3) else None
    return c


def make(c, **kw):
    import warnings
    import welleng as we
    from .p07 import full_survey
    if c["model"] in NOFILE:
        return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return full_survey(dict(c, C=None), error_model=c["model"], **kw)
        except AssertionError as ex:
            if "inclination" in str(ex):
                raise Skip
            raise


def psd(C):
    w = np.linalg.eigvalsh((C + C.transpose(0, 2, 1)) / 2)
    return bool((w[:, 0] >= -1e-9 * np.maximum(np.abs(w).max(axis=1), 1e-12)).all())


def check_model(c):
    if c["model"] in NOFILE:
        import welleng.error as E_
        import os
        key = [k for k, w in E_.TOOL_INDEX.items() if w["Short Name"] == c["model"]][0]
        try:
            from .p07 import full_survey
            full_survey(dict(c, C=None), error_model=c["model"])
        except FileNotFoundError:
            return ("no-model-file:" + c["model"], "the listed model %s (%s) has no model file" % (c["model"], key))
        return None
    s = make(c, start_cov_nev=None if c["start"] is None else np.array(c["start"]))
    em = s.err
    er = em.errors
    n = len(c["md"])
    if getattr(er, "_json_path", None) and er.em["header"]["Short Name"] != c["model"] and any(w["Short Name"] == c["model"] for w in [dict(x) for x in [_meta(p) for p in _jsons()]]):
        return "model %s was taken from the file of %s" % (c["model"], er.em["header"]["Short Name"])
    # every source in the file is a source of the sum, each a sum of outer products
    if set(er.errors) != set(er.em["codes"]):
        return "sources of the file are missing from the sum: %s" % sorted(set(er.em["codes"]) ^ set(er.errors))
    parts = {p: np.zeros((n, 3, 3)) for p in PROPS}
    J = em.drdp
    for code, e in er.errors.items():
        C = np.asarray(e.cov_NEV)
        if C.shape != (n, 3, 3) or not np.isfinite(C).all():
            return "source %s of %s: covariance has shape %s / not finite" % (code, c["model"], C.shape)
        prop = er.em["codes"][code]["propagation"]
        if code in ("XYM2", "XYM3E", "XYM4E"):
            prop = "systematic" if code == "XYM2" else "random"  # the code corrects the model file's entry, on purpose
        if e.propagation != prop or prop not in PROPS:
            return "source %s propagates %s instead of %s" % (code, e.propagation, prop)
        want, ev, st = np.zeros((n, 3, 3)), np.asarray(e.e_NEV), np.asarray(e.e_NEV_star)
        acc, accC = np.zeros(3), np.zeros((3, 3))
        for k in range(n):
            if prop == "random":
                want[k] = accC + np.outer(st[k], st[k])
                accC = accC + np.outer(ev[k], ev[k])
            else:
                v = acc + st[k]
                want[k] = np.outer(v, v)
                acc = acc + ev[k]
        if np.abs(ev[0]).max() > 0 or np.abs(st[0]).max() > 0:
            return "source %s has an error at the first station" % code
        sc = max(np.abs(want).max(), 1e-12)
        if np.abs(want - C).max() > 1e-9 * sc:
            return "source %s (%s): covariance differs from the accumulated outer products by %g of %g" % (code, prop, np.abs(want - C).max(), sc)
        d = np.asarray(e.e_DIA)
        if min(c["inc"]) > 0.2 and not code.startswith("XCL"):  # ; vertical stations have limits of their own
            for k in range(1, n):
                a = J[k].reshape(6, 3)
                own, nxt = d[k] @ a[:3], d[k] @ (a[:3] + a[3:])
                t = 1e-7 * max(np.abs(ev).max(), np.abs(st).max(), 1e-9) + 1e-9
                if np.abs(own - st[k]).max() > t or np.abs(nxt - ev[k]).max() > t:
                    return "source %s: error vector at station %d is not the Jacobian times the error" % (code, k)
        parts[prop] += C
    tot = sum(parts.values())
    sc = max(np.abs(tot).max(), 1e-9)
    for p in PROPS:
        for nm, got in (("errors.cov_NEVs_" + p, getattr(er, "cov_NEVs_" + p)), ("survey.cov_nev_" + p, getattr(s, "cov_nev_" + p))):
            if np.abs(got - parts[p]).max() > 1e-9 * sc:
                return "%s differs from the sum of its sources by %g" % (nm, np.abs(got - parts[p]).max())
    if np.abs(er.cov_NEVs - tot).max() > 1e-9 * sc:
        return "errors.cov_NEVs differs from the sum of all sources by %g" % np.abs(er.cov_NEVs - tot).max()
    full = tot + (np.array(c["start"]) if c["start"] is not None else 0)
    if np.abs(s.cov_nev - full).max() > 1e-9 * max(np.abs(full).max(), sc):
        return "survey.cov_nev differs from the sum of all sources and the start covariance by %g" % np.abs(s.cov_nev - full).max()
    if np.abs(s.cov_nev - s.cov_nev.transpose(0, 2, 1)).max() > 1e-9 * sc or not psd(s.cov_nev):
        return "survey.cov_nev is not symmetric positive semi-definite"
    if c["start"] is None and np.abs(s.cov_nev[0]).max() > 0:
        return "the first station is uncertain"
    # the model works in the true north frame, a start covariance comes in the survey's own
    inc, azi = np.array(s.inc_rad), np.array(s.azi_true_rad if c["start"] is None else s.azi_grid_rad)
    for k in range(n):
        H = np.array([[np.cos(inc[k]) * np.cos(azi[k]), np.cos(inc[k]) * np.sin(azi[k]), -np.sin(inc[k])], [-np.sin(azi[k]), np.cos(azi[k]), 0], ref_tan(inc[k], azi[k])])
        want = H @ full[k] @ H.T
        if np.abs(s.cov_hla[k] - want).max() > 1e-8 * max(np.abs(full).max(), sc):
            return "survey.cov_hla at station %d is not the covariance turned into the hole's axes" % k


def _jsons():
    import os
    import welleng.errors.tool_errors as t
    r = os.path.join(os.path.dirname(t.__file__), "iscwsa_json")
    return [os.path.join(a, f) for a, _, fs in os.walk(r) for f in fs if f.endswith(".json")]


_M = {}


def _meta(p):
    import json
    if p not in _M:
        try:
            _M[p] = {"Short Name": json.load(open(p)).get("metadata", {}).get("short_name")}
        except Exception:
            _M[p] = {"Short Name": None}
    return _M[p]


def check_scale(c):
    """twice the magnitude, four times the covariance (sources whose weight is a plain product)"""
    s = make(c)
    if s is None:
        raise Skip
    em = s.err
    codes = list(em.errors.em["codes"])
    if not codes:
        raise Skip
    code = codes[c["sel"] % len(codes)]
    e = em.errors.errors[code]
    d = np.asarray(e.e_DIA)
    base = np.asarray(em._generate_error(code, d, e.propagation).cov_NEV)
    two = np.asarray(em._generate_error(code, -2 * d, e.propagation).cov_NEV)
    if np.abs(two - 4 * base).max() > 1e-9 * max(np.abs(base).max(), 1e-12):
        return "doubling the error of %s does not multiply the covariance by four" % code
    # the same source once more through the file's entry with twice the magnitude
    ent = em.errors.em["codes"][code]
    if ent["function"] == "_INTERPRETER_":
        f = lambda m: em.errors._call_interpreter(code=code, term=ent["_iscwsa_term"], mag=m, propagation=ent["propagation"])
    else:
        f = lambda m: em.errors.call_func(code=code, func=ent["function"], error=em, mag=m, propagation=ent["propagation"], tortuosity=em.errors.tortuosity, header=em.errors.em["header"], errors=em.errors)
    a, b = np.asarray(f(ent["magnitude"]).cov_NEV), np.asarray(f(2 * ent["magnitude"]).cov_NEV)
    if np.abs(b - 4 * a).max() > 1e-8 * max(np.abs(a).max(), 1e-12):
        return "twice the magnitude of %s gives %g times the covariance" % (code, np.abs(b).max() / max(np.abs(a).max(), 1e-300))


def check_get(c):
    """errors by hand from the error model equal the survey's"""
    import warnings
    import welleng as we
    s = make(c)
    if s is None:
        raise Skip
    from .p07 import full_survey
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = full_survey(dict(c, C=None))
        e = we.error.ErrorModel(p, error_model=c["model"])
    if np.abs(e.errors.cov_NEVs - s.cov_nev).max() > 1e-9 * max(np.abs(s.cov_nev).max(), 1e-12):
        return "ErrorModel on the survey gives another covariance than the survey with the model"


DYN = [Dyn("models", gen, check_model, n=(420, 8000), directed=[dict(md=[0.0, 100.0, 200.0], inc=[0.0, 2.0, 4.0], azi=[0.0, 0.0, 0.0], gsf=1.0, nev=[0.0] * 3, xyz=[0.0] * 3, unit="meters", ref="grid", conv=0.0, decl=0.0, vsa=0.0, C=None, model=m, sel=0, start=None) for m in NOFILE + ("GYRO-MWD", "INC-ONLY")]), Dyn("magnitude", gen, check_scale, n=(200, 4000)), Dyn("by hand", gen, check_get, n=(60, 1500))]
