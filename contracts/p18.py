"""P18 weight functions of the error sources"""
import math

from .common import *

FILES = ["welleng/errors/tool_errors.py", "welleng/errors/interpreter.py", "welleng/error.py", "welleng/survey.py"]
E = "welleng.error."
TE = "welleng.errors.tool_errors."
META = dict(
    title="Every error source has the weight the ISCWSA error model gives it",
    statement="For every station of every survey the (depth, inclination, azimuth) error a source contributes is its magnitude times the published ISCWSA weighting function of inclination, magnetic or true azimuth, depth, dip, field strength and gravity, whichever name selects it and whether it is coded or read as a formula from a tool file, in the units the file declares, and it propagates as the model says; "
              "at a vertical station the sources that are singular there take their limits along fixed directions (or at the toolface azimuth), with the station's own error independent of what is drilled after it. A formula evaluates to its mathematical value, and anything that is not arithmetic on the listed functions is refused.",
    over=["inputs", "configurations"], quantifier="all stations, header values, sources and magnitudes",
    why="The validation wells cross a small set of directions and fields; a wrong factor or sign in one of some fifty weights changes the uncertainty of other wells only.",
    mechanism=[("weights", "welleng/errors/tool_errors.py:ABZ"), ("dispatch", "welleng/errors/tool_errors.py:ToolError.call_func"), ("formulas", "welleng/errors/tool_errors.py:ToolError._call_interpreter"), ("interpreter", "welleng/errors/interpreter.py:evaluate_formula"), ("axial", "welleng/errors/tool_errors.py:ABIZ"), ("misalignment", "welleng/errors/tool_errors.py:XYM3L")],
    observe_at="ErrorModel(...).errors.errors[code].e_DIA / e_NEV, evaluate_formula")

HALF = T.const(0.5)


class Env:
    """a survey with arbitrary stations and header, and an error model that records what it is given"""
    def __init__(self, v, steep=None, model="ISCWSA MWD Rev5.11", two=False):
        self.v = v
        n = self.n = T.toint(2) if two else v.int("n", lo=2)
        self.md, self.inc, self.azt, self.azm, self.tvd = (v.arr(x, n) for x in ("md", "inc", "azt", "azm", "tvd"))
        self.h = v.obj("welleng.survey.SurveyHeader", dip=v.real("dip"), b_total=v.real("B", gt=0), G=v.real("G", gt=0), vertical_inc_limit=v.real("vil", gt=0), latitude=v.real("latd"))
        v.assume(T.lt(v.get(self.h, "vertical_inc_limit"), 1))
        v.assume(T.lt(0, T.cos(v.get(self.h, "dip"))))
        v.forall(n, lambda i: T.land(T.le(0, v.at(self.inc, i)), T.lt(v.at(self.inc, i), T.PI)))
        v.forall(T.isub(n, 1), lambda i: T.lt(v.at(self.md, i), v.at(self.md, T.iadd(i, 1))))
        rad = v.table((n, 3), lambda k, c: T.ite(T.eq(c, 0), v.at(self.md, k), T.ite(T.eq(c, 1), v.at(self.inc, k), v.at(self.azt, k))))
        self.s = v.obj("welleng.survey.Survey", md=self.md, inc_rad=self.inc, azi_true_rad=self.azt, azi_mag_rad=self.azm, azi_grid_rad=v.arr("azg", n), tvd=self.tvd, header=self.h, latitude=v.real("lat"))
        n2 = T.isub(n, 2)
        md = self.md
        self.m = v.obj(E + "ErrorModel", survey=self.s, survey_rad=rad, error_model=model, drdp_sing=dict(
            double_delta_md=v.table((n2,), lambda k: sub(v.at(md, T.iadd(k, 2)), v.at(md, k))), delta_md=v.table((n2,), lambda k: sub(v.at(md, T.iadd(k, 1)), v.at(md, k))),
            azi2=v.table((n2,), lambda k: v.at(self.azt, T.iadd(k, 1)))))
        self.t = v.obj(TE + "ToolError", e=self.m, errors={}, tortuosity=v.real("tort", gt=0), em={"header": {}, "codes": {}})
        v.method(self.t, "_initiate_func_dict")
        self.got = []
        self.vec = []
        def gen(I, o, code, e_DIA, propagation="systematic", NEV=True, e_NEV=None, e_NEV_star=None):
            self.got.append((code, e_DIA, propagation, NEV, e_NEV, e_NEV_star))
            return v.obj(E + "ErrorModel.Error", code=code, e_DIA=e_DIA, propagation=propagation, e_NEV=e_NEV, e_NEV_star=e_NEV_star)
        v.contract(E + "ErrorModel._generate_error", gen)
        self.e, self.st = v.arr("e", n, 3), v.arr("st", n, 3)
        # the vectors made from an error, by contract (P16): fresh arrays
        def vec(I, o, d, r):
            self.vec.append(d)
            return v.table((n, 3), lambda k, c: v.at(r, k, c))
        v.contract(E + "ErrorModel._e_NEV", lambda I, o, d: vec(I, o, d, self.e))
        v.contract(E + "ErrorModel._e_NEV_star", lambda I, o, d: vec(I, o, d, self.st))

    def at(self, k):
        v = self.v
        return dict(I=v.at(self.inc, k), A=v.at(self.azt, k), Z=v.at(self.azm, k), D=v.at(self.md, k), V=v.at(self.tvd, k), th=v.get(self.h, "dip"), B=v.get(self.h, "b_total"), G=v.get(self.h, "G"))

    def call(self, func, mag, propagation="systematic", code="CODE"):
        return self.v.method(self.t, "call_func", code=code, func=func, error=self.m, mag=mag, propagation=propagation, tortuosity=self.v.get(self.t, "tortuosity"), header={}, errors=self.t)


sin, cos, tan = T.sin, T.cos, T.tan
R2 = T.sqrt(T.const(2))
F = lambda q: 1 - sin(q["I"]) * sin(q["I"]) * sin(q["Z"]) * sin(q["Z"])
TC = lambda q: tan(q["th"]) * cos(q["I"]) + sin(q["I"]) * cos(q["Z"])
BH = lambda q: q["B"] * cos(q["th"])
Z0 = T.const(0)
ONE = T.const(1)

# published weighting functions (SPE 67616 and the ISCWSA/OWSG model files): depth, inclination, azimuth
W = {
    "DREF": lambda q: (ONE, Z0, Z0),
    "DSF": lambda q: (q["D"], Z0, Z0),
    "DST": lambda q: (q["D"] * q["V"], Z0, Z0),
    "ABXY_TI1": lambda q: (Z0, -cos(q["I"]) / q["G"], tan(q["th"]) * cos(q["I"]) * sin(q["Z"]) / q["G"]),
    "ABZ": lambda q: (Z0, -sin(q["I"]) / q["G"], tan(q["th"]) * sin(q["I"]) * sin(q["Z"]) / q["G"]),
    "ABIZ": lambda q: (Z0, -sin(q["I"]) / q["G"], sin(q["I"]) * cos(q["I"]) * sin(q["Z"]) * TC(q) / (F(q) * q["G"])),
    "ABIXY_TI1": lambda q: (Z0, -cos(q["I"]) / q["G"], cos(q["I"]) * cos(q["I"]) * sin(q["Z"]) * TC(q) / (q["G"] * F(q))),
    "AMID": lambda q: (Z0, Z0, sin(q["I"]) * sin(q["Z"])),
    "ASXY_TI1": lambda q: (Z0, sin(q["I"]) * cos(q["I"]) / R2, -tan(q["th"]) * sin(q["I"]) * cos(q["I"]) * sin(q["Z"]) / R2),
    "ASXY_TI2": lambda q: (Z0, sin(q["I"]) * cos(q["I"]) * HALF, -tan(q["th"]) * sin(q["I"]) * cos(q["I"]) * sin(q["Z"]) * HALF),
    "ASXY_TI3": lambda q: (Z0, Z0, (tan(q["th"]) * sin(q["I"]) * cos(q["Z"]) - cos(q["I"])) * HALF),
    "ASZ": lambda q: (Z0, -sin(q["I"]) * cos(q["I"]), tan(q["th"]) * sin(q["I"]) * cos(q["I"]) * sin(q["Z"])),
    "ASIXY_TI1": lambda q: (Z0, sin(q["I"]) * cos(q["I"]) / R2, -(sin(q["I"]) * cos(q["I"]) * cos(q["I"]) * sin(q["Z"]) * TC(q)) / (R2 * F(q))),
    "ASIXY_TI2": lambda q: (Z0, sin(q["I"]) * cos(q["I"]) * HALF, -(sin(q["I"]) * cos(q["I"]) * cos(q["I"]) * sin(q["Z"]) * TC(q)) / (2 * F(q))),
    "ASIXY_TI3": lambda q: (Z0, Z0, (tan(q["th"]) * sin(q["I"]) * cos(q["Z"]) - cos(q["I"])) / (2 * F(q))),
    "ASIZ": lambda q: (Z0, -sin(q["I"]) * cos(q["I"]), sin(q["I"]) * cos(q["I"]) * cos(q["I"]) * sin(q["Z"]) * TC(q) / F(q)),
    "CNI": lambda q: (Z0, ONE, Z0),
    "MBXY_TI1": lambda q: (Z0, Z0, -cos(q["I"]) * sin(q["Z"]) / BH(q)),
    "MBXY_TI2": lambda q: (Z0, Z0, cos(q["Z"]) / BH(q)),
    "MBZ": lambda q: (Z0, Z0, -sin(q["I"]) * sin(q["Z"]) / BH(q)),
    "MBIXY_TI1": lambda q: (Z0, Z0, -cos(q["I"]) * sin(q["Z"]) / (BH(q) * F(q))),
    "MBIXY_TI2": lambda q: (Z0, Z0, cos(q["Z"]) / (BH(q) * F(q))),
    "MFI": lambda q: (Z0, Z0, -sin(q["I"]) * sin(q["Z"]) * TC(q) / F(q) / q["B"]),
    "MDI": lambda q: (Z0, Z0, -sin(q["I"]) * sin(q["Z"]) * (cos(q["I"]) - tan(q["th"]) * sin(q["I"]) * cos(q["Z"])) / F(q)),
    "MSXY_TI1": lambda q: (Z0, Z0, sin(q["I"]) * sin(q["Z"]) * TC(q) / R2),
    "MSXY_TI2": lambda q: (Z0, Z0, sin(q["Z"]) * (tan(q["th"]) * sin(q["I"]) * cos(q["I"]) - cos(q["I"]) * cos(q["I"]) * cos(q["Z"]) - cos(q["Z"])) * HALF),
    "MSXY_TI3": lambda q: (Z0, Z0, (cos(q["I"]) * cos(q["Z"]) * cos(q["Z"]) - cos(q["I"]) * sin(q["Z"]) * sin(q["Z"]) - tan(q["th"]) * sin(q["I"]) * cos(q["Z"])) * HALF),
    "MSZ": lambda q: (Z0, Z0, -(sin(q["I"]) * cos(q["Z"]) + tan(q["th"]) * cos(q["I"])) * sin(q["I"]) * sin(q["Z"])),
    "MSIXY_TI1": lambda q: (Z0, Z0, sin(q["I"]) * sin(q["Z"]) * TC(q) / (R2 * F(q))),
    "MSIXY_TI2": lambda q: (Z0, Z0, sin(q["Z"]) * (tan(q["th"]) * sin(q["I"]) * cos(q["I"]) - cos(q["I"]) * cos(q["I"]) * cos(q["Z"]) - cos(q["Z"])) / (2 * F(q))),
    "MSIXY_TI3": lambda q: (Z0, Z0, (cos(q["I"]) * cos(q["Z"]) * cos(q["Z"]) - cos(q["I"]) * sin(q["Z"]) * sin(q["Z"]) - tan(q["th"]) * sin(q["I"]) * cos(q["Z"])) / (2 * F(q))),
    "AZ": lambda q: (Z0, Z0, ONE),
    "DBH": lambda q: (Z0, Z0, ONE / BH(q)),
    "DBHR": lambda q: (Z0, Z0, ONE / BH(q)),
    "AMIL": lambda q: (Z0, Z0, -sin(q["I"]) * sin(q["Z"]) / BH(q)),
    "SAG": lambda q: (Z0, sin(q["I"]), Z0),
    "SAGE": lambda q: (Z0, T.power(sin(q["I"]), T.const(0.25)), Z0),
    "XYM1": lambda q: (Z0, T.absv(sin(q["I"])), Z0),
    "XYM2": lambda q: (Z0, Z0, -ONE),
}
AXIAL = {x for x in W if "I" in x and x[:3] in ("ABI", "ASI", "MBI", "MSI")} | {"MFI", "MDI"}


def s_weight(v, name):
    q = Env(v)
    mag = v.real("mag")
    k = v.idx(q.n)
    g = q.at(k)
    if name in AXIAL:
        v.assume(T.lt(T.const(1e-4), F(g)))
        v.forall(q.n, lambda i: T.lt(T.const(1e-4), F(q.at(i))))
        v.assume(T.lt(T.const(1e-4), mul(F(g), g["G"])))
    prop = "systematic" if name == "XYM2" else "random"
    q.call(name, mag, "random")
    code, d, p, nev, e, st = q.got[0]
    v.ensure("handed on once, under its code and propagation", T.TRUE if len(q.got) == 1 and (code, p, nev) == ("CODE", prop, True) and e is None and st is None else T.FALSE)
    v.ensure("one error per station", T.land(T.eq(d.shape[0], q.n), T.eq(d.shape[1], 3)))
    for c, w in enumerate(W[name](g)):
        v.ensure("weight times magnitude: " + ("depth", "inclination", "azimuth")[c], T.eq(v.at(d, k, c), mul(w, mag)))


# ---- sources that are singular at a vertical station
def coefL(g, L):
    """short intervals count as ten metres"""
    x = T.sqrt(T.const(10) / L)
    return T.ite(T.le(1, x), x, ONE)


X = {
    "CNA": lambda q, L: (Z0, Z0, ONE / sin(q["I"])),
    "XYM3": lambda q, L: (Z0, T.absv(cos(q["I"])) * cos(q["A"]), -T.absv(cos(q["I"])) * sin(q["A"]) / sin(q["I"])),
    "XYM4": lambda q, L: (Z0, T.absv(cos(q["I"])) * sin(q["A"]), T.absv(cos(q["I"])) * cos(q["A"]) / sin(q["I"])),
    "ABXY_TI2": lambda q, L: (Z0, Z0, (cos(q["I"]) / sin(q["I"]) - tan(q["th"]) * cos(q["Z"])) / q["G"]),
    "ABIXY_TI2": lambda q, L: (Z0, Z0, -(tan(q["th"]) * cos(q["Z"]) - cos(q["I"]) / sin(q["I"])) / (q["G"] * F(q))),
    "XYM3E": lambda q, L: (Z0, T.absv(cos(q["I"])) * cos(q["A"]) * coefL(q, L), -T.absv(cos(q["I"])) * sin(q["A"]) / sin(q["I"]) * coefL(q, L)),
    "XYM4E": lambda q, L: (Z0, cos(q["I"]) * sin(q["A"]) * coefL(q, L), cos(q["I"]) * cos(q["A"]) / sin(q["I"]) * coefL(q, L)),
    "XYM3L": lambda q, L: (Z0, T.absv(cos(q["I"])) * cos(q["A"]) * coefL(q, L), -T.absv(cos(q["I"])) * sin(q["A"]) / sin(q["I"]) * coefL(q, L)),
    "XYM4L": lambda q, L: (Z0, T.absv(cos(q["I"])) * sin(q["A"]) * coefL(q, L), T.absv(cos(q["I"])) * cos(q["A"]) / sin(q["I"]) * coefL(q, L)),
}
RIGHT = lambda q: (-sin(q["A"]), cos(q["A"]), Z0)
LIMIT = {
    "CNA": lambda q, L: RIGHT(q),
    "XYM3": lambda q, L: (ONE, Z0, Z0),
    "XYM4": lambda q, L: (Z0, ONE, Z0),
    "ABXY_TI2": lambda q, L: tuple(x / q["G"] for x in RIGHT(q)),
    "ABIXY_TI2": lambda q, L: tuple(x / q["G"] for x in RIGHT(q)),
    "XYM3E": lambda q, L: (coefL(q, L), Z0, Z0),
    "XYM4E": lambda q, L: (Z0, coefL(q, L), Z0),
    "XYM3L": lambda q, L: (coefL(q, L), Z0, Z0),
    "XYM4L": lambda q, L: (Z0, coefL(q, L), Z0),
}
FREE = {"XYM4L": "random"}


def s_singular(v, name, where, model="ISCWSA MWD Rev5.11"):
    """where: inclined (no vertical station), beside (an inclined station of a survey that has vertical ones), inner / last (a vertical station)"""
    q = Env(v, model=model)
    n = q.n
    mag = v.real("mag")
    vil = v.get(q.h, "vertical_inc_limit")
    k = v.idx(T.isub(n, 1))
    v.assume(T.le(1, T.toreal(k)))
    s = T.iadd(k, 1)          # the station: third or later (the first interval has a convention of its own)
    if where == "last":
        v.assume(T.le(3, T.toreal(n)))
        s = T.isub(n, 1)
    if where == "inner":
        s = k
        v.assume(T.le(2, T.toreal(k)))
    g = q.at(s)
    L = sub(g["D"], v.at(q.md, T.isub(s, 1)))
    if name == "ABIXY_TI2":
        v.forall(n, lambda i: T.lt(T.const(1e-4), F(q.at(i))))
    if where == "inclined":
        v.forall(n, lambda i: T.le(vil, v.at(q.inc, i)))
    elif where == "beside":
        v.assume(T.lt(v.at(q.inc, 0), vil), T.le(vil, v.at(q.inc, s)))
    else:
        v.assume(T.lt(v.at(q.inc, s), vil))
    q.call(name, mag, "random")
    code, d, p, nev, e, st = q.got[-1]
    v.ensure("under its code and propagation", T.TRUE if (code, p, nev) == ("CODE", "random", True) else T.FALSE)
    if where != "inclined" and e is None:
        v.ensure("a vertical station is found", T.FALSE)
        return
    v.cut("interval", T.lt(0, L))
    if name[-1] in "EL":
        v.cut("ratio", T.lt(0, T.const(10) / L))
    if where in ("inclined", "beside"):
        v.assume(T.lt(0, sin(g["I"])))
        for c, w in enumerate(X[name](g, L)):
            v.ensure("weight times magnitude: " + ("depth", "inclination", "azimuth")[c], T.eq(v.at(d, s, c), mul(w, mag)))
        if where == "inclined":
            v.ensure("no vectors of its own", T.TRUE if e is None and st is None else T.FALSE)
        else:
            for c in range(3):
                v.ensure("vector of the error " + "NEV"[c], T.land(T.eq(v.at(e, s, c), v.at(q.e, s, c)), T.eq(v.at(st, s, c), v.at(q.st, s, c))))
            v.ensure("made from the error", T.land(*[T.eq(v.at(x, s, c), v.at(d, s, c)) for x in q.vec[-2:] for c in range(3)]))
    else:
        out = sub(v.at(q.md, T.iadd(s, 1)), v.at(q.md, s)) if where == "inner" else None
        for c, w in enumerate(LIMIT[name](g, L)):
            v.ensure("own interval, limit " + "NEV"[c], T.eq(v.at(st, s, c), M(w, HALF, L, mag)))
            if out is not None:
                v.ensure("both intervals, limit " + "NEV"[c], T.eq(v.at(e, s, c), M(w, HALF, add(L, out), mag)))


def s_xcl(v, name, vertical):
    """course length: the larger of the turn and the tortuosity over the interval, across the hole"""
    q = Env(v)
    mag, tort = v.real("mag"), v.get(q.t, "tortuosity")
    k = v.idx(T.isub(q.n, 1))
    s = T.iadd(k, 1)
    g, b = q.at(s), q.at(k)
    L = sub(g["D"], b["D"])
    vil = v.get(q.h, "vertical_inc_limit")
    v.assume(T.lt(b["I"], vil) if vertical else T.le(vil, b["I"]))
    q.call("XCL" if vertical else name, mag, "random", code=name)
    code, d, p, nev, e, st = q.got[-1]
    v.ensure("under its code and propagation", T.TRUE if (code, p, nev) == (name, "random", True) and e is d and st is d else T.FALSE)
    if name == "XCLH":
        turn = T.absv(sub(g["I"], b["I"]))
        dirn = (cos(g["I"]) * cos(g["A"]), cos(g["I"]) * sin(g["A"]), -sin(g["I"]))
    else:
        turn = Z0 if vertical else T.absv(sin(g["I"]) * sin(T.absv(sub(T.fmod(add(sub(g["A"], b["A"]), T.PI), mul(2, T.PI)), T.PI))))
        dirn = (-sin(g["A"]), cos(g["A"]), Z0)
    big = T.ite(T.le(turn, mul(tort, L)), mul(tort, L), turn)
    for c in range(3):
        v.ensure("error " + "NEV"[c], T.eq(v.at(d, s, c), M(L, big, dirn[c], mag)))
        v.ensure("nothing at the first station " + "NEV"[c], T.eq(v.at(d, 0, c), 0))


def s_formula(v, unit, scale):
    """a formula term: the three formulas at the survey's stations, times the magnitude in the declared unit"""
    q = Env(v)
    n = q.n
    mag = v.real("mag")
    asked = []
    res = {"fd": v.real("fd"), "fi": v.arr("fi", n), "fa": v.arr("fa", n)}
    v.contract("welleng.errors.interpreter.evaluate_formula", lambda I, f, b: asked.append((f, b)) or res[f])
    term = dict(depth_formula="fd", inclination_formula="fi", azimuth_formula="fa", units=unit)
    v.method(q.t, "_call_interpreter", "NEW-TERM", term, mag, "global")
    code, d, p, nev, e, st = q.got[-1]
    v.ensure("under its code and propagation", T.TRUE if (code, p, nev) == ("NEW-TERM", "global", True) and e is None else T.FALSE)
    k = v.idx(n)
    for c, w in enumerate((res["fd"], v.at(res["fi"], k), v.at(res["fa"], k))):
        v.ensure("formula times magnitude in the base unit %d" % c, T.eq(v.at(d, k, c), M(w, mag, scale)))
    b = asked[0][1]
    for x, w in (("MD", q.md), ("Inc", q.inc), ("AzT", q.azt), ("AzM", q.azm), ("TVD", q.tvd)):
        v.ensure("variable " + x, T.eq(v.at(b[x], k), v.at(w, k)))
    for x, w in (("Gfield", "G"), ("Dip", "dip"), ("BField", "b_total")):
        v.ensure("variable " + x, T.eq(b[x], v.get(q.h, w)))


def s_dispatch(v):
    """every function name leads to its own function"""
    q = Env(v)
    fd = v.get(q.t, "func_dict")
    names = [k for k in fd]
    v.ensure("all sources are listed", T.TRUE if set(W) | set(X) | {"XCLA", "XCLH", "XCL"} <= set(names) else T.FALSE)


SPECS = [Spec("weight/" + x, lambda v, x=x: s_weight(v, x)) for x in W]
SPECS += [Spec("singular/%s/%s" % (x, w), lambda v, x=x, w=w: s_singular(v, x, w)) for x in X for w in ("inclined", "beside", "inner", "last")]
SPECS += [Spec("course length/%s/%s" % (x, "after a vertical station" if w else "inclined"), lambda v, x=x, w=w: s_xcl(v, x, w)) for x in ("XCLA", "XCLH") for w in (False, True)]
SPECS += [Spec("formula term/" + u, lambda v, u=u, s=s: s_formula(v, u, s)) for u, s in (("m", ONE), ("1/m", ONE), ("nT", ONE), ("m/s2", ONE), ("rad", ONE), ("-", ONE), ("deg", T.const(math.pi / 180)), ("deg/hr", T.const(math.pi / 180)))]
SPECS += [Spec("names", s_dispatch)]
# ---- executed against the real code
_NUM = {}


def ref_weight(fn, q, L=None):
    """closed terms of the specification above, evaluated"""
    g = {k: T.const(float(x)) for k, x in q.items()}
    w = W[fn](g) if fn in W else X[fn](g, T.const(float(L)))
    return [T.numval(T.toreal(x)) for x in w]


def gen_models(d):
    import welleng.error as E_
    from .p16 import gen
    c = gen(d)
    c["start"] = None
    if d.bool(.6):
        c["unit"] = "meters"
    if d.bool(.5):
        c["model"] = d.choice([m for m in E_.ERROR_MODELS])
    if d.bool(.3):  # vertical stations with azimuths of their own, further down too
        for k in range(len(c["inc"])):
            if d.bool(.4):
                c["inc"][k] = d.choice([0.0, 0.0, 1e-5, 0.005])
    if d.bool(.3):
        m = c["md"]
        for k in range(1, len(m)):
            m[k] = m[k - 1] + d.choice([1.0, 5.0, 9.99, 10.0, 10.01, 30.0])
    return c


def stations(s):
    h = s.header
    return [dict(I=s.inc_rad[k], A=s.azi_true_rad[k], Z=s.azi_mag_rad[k], D=s.md[k], V=s.tvd[k], th=h.dip, B=h.b_total, G=h.G) for k in range(len(s.md))]


def turn(q, b, name):
    if name == "XCLH":
        return abs(q["I"] - b["I"])
    return abs(math.sin(q["I"]) * math.sin(q["A"] - b["A"]))


UNITS = {"m": 1.0, "1/m": 1.0, "nT": 1.0, "m/s2": 1.0, "rad": 1.0, "-": 1.0, "": 1.0, "deg": math.pi / 180, "deg/hr": math.pi / 180, "deg.nT": math.pi / 180, "deg/sqr(hr)": math.pi / 180}


def tokens(s):
    import re
    return re.findall(r"\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|[A-Za-z_]\w*|\*\*|[-+*/^(),]", s)


def parse(s, env):
    """own evaluator of the published formulas"""
    t = tokens(s) + ["end"]
    p = [0]
    F1 = dict(sin=math.sin, cos=math.cos, tan=math.tan, asin=math.asin, acos=math.acos, atan=math.atan, abs=abs, sqr=math.sqrt, sqrt=math.sqrt, exp=math.exp, log=math.log, max=max, min=min)
    def nxt():
        p[0] += 1
        return t[p[0] - 1]
    def expr():
        x = term()
        while t[p[0]] in "+-" and t[p[0]] != "end":
            x = x + term() if nxt() == "+" else x - term()
        return x
    def term():
        x = unary()
        while t[p[0]] in ("*", "/"):
            x = x * unary() if nxt() == "*" else x / unary()
        return x
    def unary():
        if t[p[0]] == "-":
            nxt()
            return -unary()
        if t[p[0]] == "+":
            nxt()
            return unary()
        x = atom()
        if t[p[0]] in ("^", "**"):
            nxt()
            return x ** unary()
        return x
    def atom():
        a = nxt()
        if a == "(":
            x = expr()
            assert nxt() == ")"
            return x
        if a[0].isdigit() or a[0] == ".":
            return float(a)
        if t[p[0]] == "(":
            nxt()
            args = [expr()]
            while t[p[0]] == ",":
                nxt()
                args.append(expr())
            assert nxt() == ")"
            return F1[a.lower()](*args)
        return env[a]
    x = expr()
    assert t[p[0]] == "end"
    return x


_FILES = {}


def model_file(m):
    """the entries of a model's own file: name, function or formulas, magnitude"""
    import json
    import os
    import yaml
    import welleng.error as E_
    import welleng.errors.tool_errors as t
    if m in _FILES:
        return _FILES[m]
    key = [k for k, w in E_.TOOL_INDEX.items() if w["Short Name"] == m]
    out = None
    for k in key:
        f = os.path.join(os.path.dirname(t.__file__), "tool_codes", k + ".yaml")
        if os.path.isfile(f):
            out = ("coded", yaml.safe_load(open(f)))
    if out is None:
        for root, _, fs in os.walk(os.path.join(os.path.dirname(t.__file__), "iscwsa_json")):
            for f in fs:
                if f.endswith(".json") and out is None:
                    j = json.load(open(os.path.join(root, f)))
                    if j.get("metadata", {}).get("short_name") == m:
                        out = ("formulas", j)
    _FILES[m] = out
    return out


def check_weights(c):
    from .p16 import make, NOFILE
    s = make(c)
    if s is None or c["model"] in NOFILE:
        raise Skip
    feet = c["unit"] != "meters"
    er = s.err.errors
    src = model_file(c["model"])
    if src is None:
        return "no file for model %s" % c["model"]
    qs = stations(s)
    n = len(qs)
    vil = s.header.vertical_inc_limit
    h = s.header
    ks = sorted({1, n - 1, (c["sel"] % n)} - {0})
    tort = 0.000572615 if src[0] == "formulas" else src[1]["header"].get("Default Tortusity (rad/m)", math.radians(1) / 100 * 3.281)
    terms = [(k, e["function"], float(e["magnitude"]), None) for k, e in src[1]["codes"].items()] if src[0] == "coded" else [(t["name"], None, float(t["value"]) * UNITS.get(t.get("units") or "-", math.nan), t) for t in src[1]["terms"]]
    for code, fn, mag, term in terms:
        if code not in er.errors:
            return "source %s is missing" % code
        e = er.errors[code]
        d, ev, st = np.asarray(e.e_DIA), np.asarray(e.e_NEV), np.asarray(e.e_NEV_star)
        for k in ks:
            q, b = qs[k], qs[k - 1]
            L = q["D"] - b["D"]
            vert = q["I"] < vil
            if not vert and q["I"] < 3 * vil:
                continue
            if "I" in (fn or "") and (fn in AXIAL or fn == "ABIXY_TI2"):
                f = float(1 - (math.sin(q["I"]) * math.sin(q["Z"])) ** 2)
                if f < 1e-3:
                    continue  # blows up east-west and horizontal: the code holds the denominator off zero
            want = None
            if term is not None:
                env = dict(MD=q["D"], Inc=q["I"], AzT=q["A"], AzM=q["Z"], Az=s.azi_grid_rad[k], TVD=q["V"], Gfield=h.G, Dip=h.dip, BField=h.b_total, EarthRate=0.262516, Latitude=math.radians(h.latitude or 0.0), RAD=math.pi / 180, pi=math.pi)
                try:
                    want = [parse(term[x], env) if isinstance(term[x], str) else float(term[x]) for x in ("depth_formula", "inclination_formula", "azimuth_formula")]
                except KeyError:
                    want = [0.0] * 3  # the schema does not say what these stand for: documented to count as nothing
                except ZeroDivisionError:
                    continue
                if vert and code in X:
                    continue
                if any(abs(z["I"]) < 1e-12 for z in qs) and code in X:
                    continue
            elif fn in W:
                want = ref_weight(fn, q)
            elif fn in X and not vert:
                want = ref_weight(fn, q, L)
            elif fn in X and k >= 2:
                lim = [T.numval(T.toreal(x)) for x in LIMIT[fn]({y: T.const(float(z)) for y, z in q.items()}, T.const(float(L)))]
                out = qs[k + 1]["D"] - q["D"] if k < n - 1 else None
                for w, got, l in (("own", st, L), ("both", ev, None if out is None else L + out)):
                    if l is None:
                        continue
                    if fn[-1] in "EL" and w == "both" and False:
                        continue
                    x = np.array(lim) * mag * l / 2
                    if np.abs(got[k] - x).max() > 1e-7 * max(np.abs(x).max(), 1e-9):
                        return "%s %s (%s) at the vertical station %d (%s intervals): %s, limit is %s" % (c["model"], code, fn, k, w, got[k].tolist(), x.tolist())
                continue
            elif fn in ("XCL", "XCLA", "XCLH"):
                nm = code if fn == "XCL" else fn
                t = turn(q, b, nm)
                if nm == "XCLA" and b["I"] < vil:
                    t = 0.0
                dirn = (math.cos(q["I"]) * math.cos(q["A"]), math.cos(q["I"]) * math.sin(q["A"]), -math.sin(q["I"])) if nm != "XCLA" else (-math.sin(q["A"]), math.cos(q["A"]), 0.0)
                x = np.array(dirn) * L * max(t, tort * L) * mag
                if b["I"] < vil or q["I"] > 2 * vil:
                    for got in (ev, st):
                        if np.abs(got[k] - x).max() > 1e-7 * max(np.abs(x).max(), 1e-9):
                            return "%s %s at station %d: %s instead of %s" % (c["model"], code, k, got[k].tolist(), x.tolist())
                continue
            if want is None:
                continue
            want = np.array(want) * mag
            if not np.isfinite(want).all():
                return "unit of %s is unknown" % code
            if np.abs(d[k] - want).max() > 1e-7 * max(np.abs(want).max(), 1e-8 * abs(mag)):
                return "%s %s (%s) at station %d: error is %s, weight times magnitude is %s" % (c["model"], code, fn or "formula", k, d[k].tolist(), want.tolist())


def check_prefix(c):
    """what is drilled later does not change a station's own uncertainty"""
    from .p16 import make
    s = make(c)
    if s is None:
        raise Skip
    n = len(c["md"])
    if n < 3:
        raise Skip
    m = 2 + c["sel"] % (n - 2)
    if max(c["inc"][:m]) >= 180:
        raise Skip
    t = make(dict(c, md=c["md"][:m], inc=c["inc"][:m], azi=c["azi"][:m]))
    a, b = np.asarray(s.cov_nev)[:m], np.asarray(t.cov_nev)
    if np.abs(a - b).max() > 1e-7 * max(np.abs(a).max(), 1e-9):
        k = int(np.abs(a - b).max(axis=(1, 2)).argmax())
        bad = [x for x in s.err.errors.errors if np.abs(s.err.errors.errors[x].cov_NEV[:m] - t.err.errors.errors[x].cov_NEV).max() > 1e-7 * max(np.abs(a).max(), 1e-9)]
        return "%s: covariance of station %d depends on the stations after it (%s)" % (c["model"], k, bad)


def check_feet(c):
    import welleng as we
    from .p16 import make
    s = make(dict(c, unit="meters"))
    if s is None:
        raise Skip
    t = make(dict(c, unit="feet", md=[x / .3048 for x in c["md"]], nev=[x / .3048 for x in c["nev"]], xyz=[x / .3048 for x in c["xyz"]]))
    a, b = np.asarray(s.cov_nev), np.asarray(t.cov_nev) * .3048 ** 2
    if np.abs(a - b).max() > 1e-7 * max(np.abs(a).max(), 1e-9):
        return ("feet", "the covariance of a survey in feet is not the metric one in square feet: magnitudes in metres (DREF, short intervals, tortuosity) are used as feet")


# ---- formulas
FUN = {"Sin": math.sin, "Cos": math.cos, "Tan": math.tan, "Abs": abs, "Sqr": lambda x: math.sqrt(x), "Sqrt": math.sqrt, "Exp": math.exp, "Log": math.log, "Asin": math.asin, "Acos": math.acos, "Atan": math.atan}
VARS = ("Inc", "AzT", "AzM", "MD", "Dip", "Gfield")


def gen_formula(d, depth=4):
    def go(k):
        r = d.r.random()
        if k == 0 or r < .15:
            return d.choice(VARS) if d.bool(.65) else round(abs(d.plain(0.1, 9)), 3)
        if r < .6:
            return [d.choice("+-*/"), go(k - 1), go(k - 1)]
        if r < .68:
            return ["^", go(k - 1), d.int(2, 3)]
        if r < .76:
            return ["neg", go(k - 1)]
        if r < .84:
            return [d.choice(["Max", "Min"]), go(k - 1), go(k - 1)]
        return [d.choice(sorted(FUN)), go(k - 1)]
    n = d.int(1, 5)
    return dict(tree=go(depth), b={x: [d.plain(.05, 1.4) for _ in range(n)] for x in VARS}, tight=d.bool(.5))


def show(t, prec=0, tight=False):
    sp = "" if tight else " "
    if isinstance(t, str):
        return t
    if isinstance(t, (int, float)):
        return repr(t)
    o = t[0]
    if o in ("+", "-"):
        s, p = show(t[1], 1, tight) + sp + o + sp + show(t[2], 2, tight), 1
    elif o in ("*", "/"):
        s, p = show(t[1], 2, tight) + sp + o + sp + show(t[2], 3, tight), 2
    elif o == "neg":
        s, p = "-" + show(t[1], 3, tight), 3
    elif o == "^":
        s, p = show(t[1], 5, tight) + sp + "^" + sp + repr(t[2]), 4
    else:
        return o + "(" + ("," + sp).join(show(x, 0, tight) for x in t[1:]) + ")"
    return "(" + s + ")" if p < prec else s


def value(t, env):
    if isinstance(t, str):
        return env[t]
    if isinstance(t, (int, float)):
        return float(t)
    x = [value(y, env) for y in t[1:]]
    o = t[0]
    return {"+": lambda: x[0] + x[1], "-": lambda: x[0] - x[1], "*": lambda: x[0] * x[1], "/": lambda: x[0] / x[1], "^": lambda: x[0] ** x[1], "neg": lambda: -x[0],
            "Max": lambda: max(x), "Min": lambda: min(x)}.get(o, lambda: FUN[o](x[0]))()


def check_formula(c):
    import warnings
    from welleng.errors.interpreter import evaluate_formula
    f = show(c["tree"], 0, c["tight"])
    n = len(c["b"]["MD"])
    try:
        want = [value(c["tree"], {k: x[i] for k, x in c["b"].items()}) for i in range(n)]
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Skip
    if not np.isfinite(want).all() or max(abs(x) for x in want) > 1e12:
        raise Skip
    keep = {k: np.array(x) for k, x in c["b"].items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = evaluate_formula(f, {k: np.array(x) for k, x in c["b"].items()})
    got = np.broadcast_to(np.asarray(got, dtype=float), (n,))
    w = np.array(want)
    if np.abs(got - w).max() > 1e-6 * max(np.abs(w).max(), 1e-6):
        return "formula %s evaluates to %s instead of %s" % (f, got.tolist(), want)
    one = evaluate_formula(f, {k: float(x[0]) for k, x in keep.items()})
    if abs(float(one) - want[0]) > 1e-6 * max(abs(want[0]), 1e-6):
        return "formula %s of scalars evaluates to %r instead of %r" % (f, one, want[0])


BAD = ("__import__('os')", "Inc.real", "(lambda: 1)()", "[1, 2]", "Inc[0]", "Inc if 1 else 2", "Inc < 2", "f'{Inc}'", "{1: 2}", "(1).bit_length()", "open('x')", "Round(Inc)", "Inc and MD", "not Inc", "Inc // 2", "Inc % 2", "Inc @ MD",
       "[x for x in (1, 2)]", "sin(*[1])", "sin(Inc, out=Inc)", "(x := 3)", "eval('1')", "Inc(2)", "1 << 2", "~1", "__builtins__", "getattr(Inc, 'real')", "np.sin(Inc)")


def gen_bad(d):
    return dict(bad=d.choice(BAD), wrap=d.choice(["%s", "Sin(%s)", "2 * (%s)", "MD + (%s)", "Max(MD, (%s))", "Abs(%s) ^ 2", "-(%s)"]))


def check_bad(c):
    from welleng.errors.interpreter import evaluate_formula
    f = c["wrap"] % c["bad"]
    try:
        compile(f.replace("^", "**"), "f", "eval")
    except SyntaxError:
        raise Skip
    try:
        r = evaluate_formula(f, dict(Inc=np.array([.1, .2]), MD=np.array([1., 2.])))
    except ValueError:
        return None
    except Exception as ex:
        return "formula %s is refused with %s instead of ValueError" % (f, type(ex).__name__)
    return "formula %s is evaluated: %r" % (f, r)


FT = dict(md=[0.0, 100.0, 200.0, 205.0], inc=[5.0, 10.0, 20.0, 21.0], azi=[30.0, 40.0, 50.0, 51.0], gsf=1.0, nev=[0.0] * 3, xyz=[0.0] * 3, unit="meters", ref="grid", conv=0.0, decl=0.0, vsa=0.0, C=None, model="ISCWSA MWD Rev5.11", sel=0, start=None)
DYN = [Dyn("weights", gen_models, check_weights, n=(260, 6000)), Dyn("later stations", gen_models, check_prefix, n=(150, 3000)), Dyn("feet", lambda d: FT, check_feet, n=(1, 1)),
       Dyn("formulas", gen_formula, check_formula, n=(2500, 50000)), Dyn("refused", gen_bad, check_bad, n=(200, 1000))]
