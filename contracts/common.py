"""Specification functions shared by the contracts.

Symbolic ones build terms (mathematical reals); ``ref_*`` are independent
numeric references used by the executable contracts.
"""
import math
import sys
import numpy as np
from pyvc import terms as T
from pyvc.terms import Term
from pyvc.verify import Spec, V
from vc.draw import Dyn, Skip, close

add, sub, mul, div, neg = T.add, T.sub, T.mul, T.div, T.neg


def S(*xs):
    r = T.const(0)
    for x in xs:
        r = T.add(r, x)
    return r


def M(*xs):
    r = T.const(1)
    for x in xs:
        r = T.mul(r, x)
    return r


def tangent(inc, azi):
    """unit tangent (north, east, down)"""
    return [mul(T.sin(inc), T.cos(azi)), mul(T.sin(inc), T.sin(azi)), T.cos(inc)]


def dot(a, b):
    return S(*[mul(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def norm2(a):
    return dot(a, a)


def dogleg_lemmas(v, t1, t2):
    """|t1.t2| <= 1 for unit tangents, proved as sums of squares"""
    d = dot(t1, t2)
    v.sos("1 - t1.t2", sub(1, d), [(0.5, sub(x, y)) for x, y in zip(t1, t2)])
    v.sos("1 + t1.t2", add(1, d), [(0.5, add(x, y)) for x, y in zip(t1, t2)])
    return d


def vec3(v, name):
    return [v.real(name + c) for c in "nev"]


def arr3(v, xs):
    from pyvc.arrays import as_arr
    return as_arr(list(xs))


def header(v, ref="grid", unit="meters", **kw):
    """an arbitrary survey header"""
    a = dict(azi_reference=ref, convergence=v.real("conv"), declination=v.real("decl"), depth_unit=unit,
             grid_scale_factor=v.real("gsf", gt=0), vertical_section_azimuth=v.real("vsa"), G=v.real("G"), dip=v.real("dip"),
             b_total=v.real("btot"), earth_rate=v.real("er"), vertical_inc_limit=v.real("vil"), surface_unit="meters", name=None,
             latitude=v.real("lat"), longitude=v.real("lon"), altitude=v.real("alt"))
    a.update(kw)
    return v.obj("welleng.survey.SurveyHeader", **a)


def degrees(a):
    """the same angles in degrees (no loss of generality: x -> 180 x / pi is onto)"""
    from pyvc.arrays import SArr
    return SArr(a.shape, lambda ix: div(mul(180, a.at(ix)), T.PI), "f")


def survey(v, n=None, ref="grid", deg=False, unit="meters", h=None, **kw):
    """an arbitrary survey of n stations built by the real constructor"""
    n = v.int("n", lo=2) if n is None else n
    md, inc, azi = [v.arr(x, n) for x in ("md", "inc", "azi")]
    h = header(v, ref, unit) if h is None else h
    a = (md, degrees(inc), degrees(azi)) if deg else (md, inc, azi)
    s = v.call("welleng.survey.Survey", *a, header=h, deg=deg, unit=unit, **kw)
    return n, md, inc, azi, h, s


def survey_obj(v, n=None, unit="meters", ref="grid", cov=False, h=None):
    """an arbitrary Survey that satisfies the invariants proved of the constructor (P02, P03, P06)"""
    n = v.int("n", lo=2) if n is None else n
    h = header(v, ref, unit) if h is None else h
    one = [(x, v.arr(x, n)) for x in ("md", "n", "e", "tvd", "x", "y", "z", "dogleg", "dls", "rf", "toolface", "curve_radius", "radius")]
    a = dict(one)
    inc, azi = v.arr("inc", n), v.arr("azi", n)
    from pyvc.arrays import SArr
    md = a["md"]

    def dmd(ix):
        z = T.eq(ix[0], 0) if isinstance(ix[0], Term) else (T.TRUE if ix[0] == 0 else T.FALSE)
        z = v.ctx.decide(z) if z not in (T.TRUE, T.FALSE) else z is T.TRUE
        if z is None:
            return sub(md.at(ix), T.ite(T.eq(ix[0], 0), 0, md.at((T.isub(ix[0], 1),))))
        return md.at(ix) if z else sub(md.at(ix), md.at((T.isub(ix[0], 1),)))
    a["delta_md"] = SArr((n,), dmd, "f")
    tn = lambda ix, c: tangent(inc.at((ix,)), azi.at((ix,)))[c] if not isinstance(c, Term) else None
    a["vec_nev"] = SArr((n, 3), lambda ix: tn(ix[0], ix[1]), "f")
    a["vec_xyz"] = SArr((n, 3), lambda ix: tn(ix[0], (1, 0, 2)[ix[1]]), "f")
    a["pos_nev"] = SArr((n, 3), lambda ix: [a["n"], a["e"], a["tvd"]][ix[1]].at((ix[0],)), "f")
    a["pos_xyz"] = SArr((n, 3), lambda ix: [a["x"], a["y"], a["z"]][ix[1]].at((ix[0],)), "f")
    a["inc_rad"], a["azi_grid_rad"] = inc, azi
    cols = [a["md"], inc, azi]
    a["survey_rad"] = SArr((n, 3), lambda ix: cols[ix[1]].at((ix[0],)), "f")
    a.update(header=h, unit=unit, deg=False, cov_nev=v.arr("C", n, 3, 3) if cov else None, cov_hla=None, error_model=None, start_cov_nev=None,
             start_nev=arr3(v, [a[c].at((0,)) for c in ("n", "e", "tvd")]), start_xyz=arr3(v, [a[c].at((0,)) for c in "xyz"]))
    return n, h, v.obj("welleng.survey.Survey", **a)


def use_get_angles(v, raw=None):
    """call get_angles by its contract (proved in P04); returns the recorded calls"""
    rec = []
    raw = [] if raw is None else raw

    def m(I, vec, nev=False):
        from pyvc.npmodels import A as asA
        a = asA(vec)
        if a.ndim == 1:
            rows = 1
            at = lambda r, c: a.at((c,))
        else:
            rows = a.shape[0]
            at = lambda r, c: a.at((r, c))
        if isinstance(rows, Term):
            from pyvc.arrays import Unsupported
            raise Unsupported("contract of get_angles on a symbolic number of rows")
        out = []
        for r in range(rows):
            x = [at(r, c) for c in range(3)]
            N, E, D = x if nev else (x[1], x[0], x[2])
            i, az = I.ctx.fresh("inc"), I.ctx.fresh("azi")
            u = [div(q, T.sqrt(norm2([N, E, D]))) for q in (N, E, D)]
            raw.append([N, E, D])
            I.ctx.assume(T.land(T.le(0, i), T.le(i, T.PI)))
            I.ctx.assume(T.land(T.le(0, az), T.lt(az, mul(2, T.PI))))
            for g, e in zip(tangent(i, az), u):
                I.ctx.assume(T.eq(g, e))
            rec.append((i, az, u))
            out.append([i, az])
        from pyvc.arrays import as_arr
        return as_arr(out)
    v.contract("welleng.utils.get_angles", m)
    return rec


# ------------------------------------------------------------------ numeric
def ref_tan(inc, azi):
    return np.array([math.sin(inc) * math.cos(azi), math.sin(inc) * math.sin(azi), math.cos(inc)])


def ref_angle(t1, t2):
    t1, t2 = np.asarray(t1, float), np.asarray(t2, float)
    return 2 * math.atan2(np.linalg.norm(t1 - t2), np.linalg.norm(t1 + t2))


def ref_rf(d):
    return 1 + d * d / 12 + d ** 4 / 120 if d < 1e-3 else math.tan(d / 2) / (d / 2)


def ref_step(dmd, inc1, azi1, inc2, azi2):
    """displacement (n,e,v) of the circular arc of length dmd tangent to both directions"""
    t1, t2 = ref_tan(inc1, azi1), ref_tan(inc2, azi2)
    d = ref_angle(t1, t2)
    return dmd / 2 * ref_rf(d) * (t1 + t2), d


def ref_path(md, inc, azi, start=(0, 0, 0)):
    """minimum-curvature positions (n,e,v)"""
    p = [np.array(start, float)]
    for k in range(1, len(md)):
        s, _ = ref_step(md[k] - md[k - 1], inc[k - 1], azi[k - 1], inc[k], azi[k])
        p.append(p[-1] + s)
    return np.array(p)


def ref_point(p, t1, t2, L, s):
    """point and tangent at arc length s on the arc of length L from p, tangents t1 -> t2"""
    d = ref_angle(t1, t2)
    if d < 1e-7:
        u = (t1 * (L - s) + t2 * s) / L if L else t1
        return p + t1 * s + (t2 - t1) * (s * s / (2 * L) if L else 0), u / np.linalg.norm(u)
    n = t2 - t1 * np.dot(t1, t2)
    n = n / np.linalg.norm(n)
    R = L / d
    a = s / R
    return p + R * (math.sin(a) * t1 + (1 - math.cos(a)) * n), math.cos(a) * t1 + math.sin(a) * n


def gen_stations(d, lo=2, hi=6, maxdl=3.0, md0=True, deg=True, maxinc=180.0):
    """a survey listing (degrees), every dogleg below maxdl radians"""
    n = d.int(lo, hi)
    md = [d.real(0, 3000) if md0 and d.bool(0.3) else 0.0]
    inc, azi = [d.real(0, maxinc, (0.0, 90.0, 45.0))], [d.real(0, 359.999, (0.0, 90.0, 180.0, 270.0))]
    for k in range(1, n):
        md.append(md[-1] + max(d.real(0.01, 400, (30.0, 10.0, 100.0)), 1e-3))
        for _ in range(20):
            m = d.r.random()
            if m < 0.06:
                i = min(maxinc, max(0.0, inc[-1] + d.r.choice([-1, 1]) * 10 ** d.r.uniform(-5, 0)))
                a = (azi[-1] + d.r.choice([-1, 0, 1]) * 10 ** d.r.uniform(-5, 0)) % 360
            elif m < 0.2:
                i, a = inc[-1], azi[-1]
            elif m < 0.4:
                i, a = inc[-1], d.real(0, 359.999, (0.0, 180.0))
            elif m < 0.55:
                i, a = d.real(0, maxinc, (0.0, 90.0)), azi[-1]
            elif m < 0.75:
                i = min(maxinc, max(0.0, inc[-1] + d.real(-10, 10)))
                a = (azi[-1] + d.real(-20, 20)) % 360
            else:
                i, a = d.real(0, maxinc, (0.0, 90.0)), d.real(0, 359.999, (0.0, 180.0))
            t1 = ref_tan(math.radians(inc[-1]), math.radians(azi[-1]))
            t2 = ref_tan(math.radians(i), math.radians(a))
            if ref_angle(t1, t2) < maxdl:
                break
        else:
            i, a = inc[-1], azi[-1]
        inc.append(i)
        azi.append(a)
    return {"md": md, "inc": inc, "azi": azi}


def make_survey(c, header=None, **kw):
    import welleng as we
    h = dict(c.get("header") or {})
    h.update(header or {})
    h.setdefault("azi_reference", "grid")
    return we.survey.Survey(md=np.array(c["md"], float), inc=np.array(c["inc"], float), azi=np.array(c["azi"], float),
                            header=we.survey.SurveyHeader(**h), deg=True, **kw)


def worst(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return "shape %s vs %s" % (a.shape, b.shape)
    if not np.all(np.isfinite(a)):
        return "non-finite value"
    i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape) if a.size else ()
    return "got %r expected %r at %s" % (float(a[i]), float(b[i]), tuple(int(x) for x in i))


def settle(v, t):
    """the term with its conditional parts that the hypotheses settle replaced by the part that applies"""
    for _ in range(20):
        m = {}
        for x in T.subterms([t]):
            if x.op == "ite":
                d = v.ctx.decide(x.args[0])
                if d is not None:
                    m[x] = T.toreal(x.args[1] if d else x.args[2]) if x.sort == "R" else (x.args[1] if d else x.args[2])
        if not m:
            return t
        # innermost first
        for x, y in sorted(m.items(), key=lambda p: p[0].id)[:1]:
            t = T.subst(t, {x: y})
    return t


class Quantity:
    """a number with a unit, as pint's (its conversions are given by the contracts that use it)"""

    def __init__(self, m, u):
        self.m, self.u = m, u

    def __rmul__(self, x):
        return Quantity(x * self.m, self.u)

    def __mul__(self, x):
        return Quantity(self.m * x, self.u)

    def to(self, u):
        raise NotImplementedError
