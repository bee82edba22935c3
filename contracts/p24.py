"""P24 angles as degrees, minutes and seconds, radius and dogleg severity, volumes"""
from .common import *
from pyvc.arrays import as_arr

FILES = ["welleng/utils.py"]
U = "welleng.utils."
META = dict(
    title="Angle, curvature, volume and list unit conversions are exact and invert",
    statement="decimal2dms splits an angle into whole degrees carrying the sign (also below one degree), whole minutes and seconds, minutes and unrounded seconds from 0 up to but not including 60, that add up to it, and keeps its direction letter; dms2decimal gives the angle back, for single values and for arrays element by element; dms_from_string reads what pprint_dms writes, with sign and direction. "
              "radius_from_dls(d) is 360 * 30 / (2 pi d) and dls_from_radius its inverse, zero and infinity corresponding, for numbers and arrays. "
              "annular_volume is pi / 4 (od squared less id squared) times length, with id 0 and length 1 unless given. linear_convert multiplies by the factor, leaves None alone and keeps lists lists.",
    over=["inputs"], quantifier="all finite angles, severities, radii, diameters, lengths and factors",
    why="Tests convert a handful of positive values; signs, values next to whole degrees and array shapes are where such conversions go wrong.",
    mechanism=[("to dms", "welleng/utils.py:_decimal2dms"), ("from dms", "welleng/utils.py:_dms2decimal"), ("text", "welleng/utils.py:dms_from_string"), ("radius", "welleng/utils.py:radius_from_dls"), ("severity", "welleng/utils.py:dls_from_radius"), ("volume", "welleng/utils.py:annular_volume"), ("lists", "welleng/utils.py:linear_convert")],
    observe_at="the values returned")


def s_dms(v, dirn):
    x = v.real("x")
    ax = x if v.branch(T.le(0, x)) else neg(x)
    v.cut("absolute value", T.eq(T.absv(x), ax))
    w = T.floor(ax)
    mt = T.floor(mul(ax, 60))
    ma = T.floor(mul(T.absv(x), 60))
    v.cut("whole minutes", T.eq(ma, mt))
    v.cut("minutes within the degree", T.land(T.le(T.imul(60, w), ma), T.lt(ma, T.imul(60, T.iadd(w, 1)))))
    v.cut("whole degrees from whole minutes", T.eq(T.floor(mul(T.toreal(ma), div(1, 60))), w))
    r = v.call(U + "_decimal2dms", (x, "N") if dirn else (x, None))
    d, m, s = [v.at(r, k) for k in range(3)]
    v.cut("degrees are the whole part", T.eq(d, T.toreal(w) if ax is x else neg(T.toreal(w))))
    v.cut("minutes are what is left", T.eq(m, T.toreal(T.isub(mt, T.imul(60, w)))))
    v.cut("seconds are what is left", T.eq(s, sub(mul(ax, 3600), mul(60, T.toreal(mt)))))
    # below one degree a negative angle has degrees -0.0: its sign is checked in floating point
    a = add(d if ax is x else neg(d), add(div(m, 60), div(s, 3600)))
    v.ensure("adds up", T.eq(a, ax))
    v.ensure("whole degrees", T.eq(d, T.toreal(T.floor(d))))
    v.ensure("whole minutes", T.eq(m, T.toreal(T.floor(m))))
    v.ensure("minutes below 60", T.land(T.le(0, m), T.lt(m, 60)))
    v.ensure("seconds below 60", T.land(T.le(0, s), T.lt(s, 60)))
    v.ensure("sign", T.implies(T.ne(d, 0), T.eq(T.lt(d, 0), T.lt(x, 0))))
    if dirn:
        v.ensure("direction", T.TRUE if v.at(r, 3) == "N" else T.FALSE)


def s_back(v, dirn):
    d, m, s = v.real("d"), v.real("m", lo=0), v.real("s", lo=0)
    v.assume(T.ne(d, 0))
    r = v.call(U + "_dms2decimal", as_arr([d, m, s, "N"]) if dirn else as_arr([d, m, s]))
    t = add(T.ite(T.lt(d, 0), neg(d), d), add(div(m, 60), div(s, 3600)))
    v.ensure("value", T.eq(v.at(r, 0), T.ite(T.lt(d, 0), neg(t), t)))
    if dirn:
        v.ensure("direction", T.TRUE if v.at(r, 1) == "N" else T.FALSE)


def s_arrays(v, kind):
    """the array forms give, row by row, what the single form gives"""
    n = v.int("n", lo=1)
    k = v.idx(n)
    if kind == "angles":
        X = v.arr("x", n)
        r = v.call(U + "decimal2dms", X)
        one = v.call(U + "_decimal2dms", (v.at(X, k), None))
        v.ensure("one row each", T.land(T.eq(r.shape[0], n), T.TRUE if r.shape[1] == 3 else T.FALSE))
        for c in range(3):
            v.ensure("row %d" % c, T.eq(v.at(r, k, c), v.at(one, c)))
    elif kind == "pairs":
        a, b = v.real("a"), v.real("b")
        r = v.call(U + "decimal2dms", ((a, "N"), (b, "E")))
        for i, (x, w) in enumerate(((a, "N"), (b, "E"))):
            one = v.call(U + "_decimal2dms", (x, w))
            for c in range(3):
                v.ensure("row %d" % c, T.eq(v.at(r, i, c), v.at(one, c)))
            v.ensure("direction", T.TRUE if v.at(r, i, 3) == w else T.FALSE)
    elif kind == "single":
        a = v.real("a")
        for arg, w in (((a, "N"), "N"), (a, None)):
            r = v.call(U + "decimal2dms", arg)
            one = v.call(U + "_decimal2dms", (a, w))
            r = r if isinstance(r, tuple) else [v.at(r, 0, c) for c in range(3)]
            v.ensure("parts", T.TRUE if len(r) == (3 if w is None else 4) and (w is None or r[3] == w) else T.FALSE)
            for c in range(3):
                v.ensure("part %d" % c, T.eq(r[c], v.at(one, c)))
    elif kind == "back":
        D = v.arr("D", n, 3)
        v.forall(n, lambda i: T.ne(D.at((i, 0)), 0))
        r = v.call(U + "dms2decimal", D)
        one = v.call(U + "_dms2decimal", as_arr([v.at(D, k, c) for c in range(3)]))
        v.ensure("one each", T.eq(r.shape[0], n))
        v.ensure("value", T.eq(v.at(r, k), v.at(one, 0)))
    elif kind == "back pairs":
        d = [[v.real("d%d%d" % (i, c)) for c in range(3)] + ["NE"[i]] for i in range(2)]
        for x in d:
            v.assume(T.ne(x[0], 0))
        r = v.call(U + "dms2decimal", tuple(tuple(x) for x in d))
        for i in range(2):
            one = v.call(U + "_dms2decimal", as_arr(d[i]))
            v.ensure("value", T.eq(v.at(r, i, 0), v.at(one, 0)))
            v.ensure("direction", T.TRUE if v.at(r, i, 1) == "NE"[i] else T.FALSE)
        r = v.call(U + "dms2decimal", tuple(d[0]))
        v.ensure("single value", T.eq(v.at(r, 0), v.at(v.call(U + "_dms2decimal", as_arr(d[0])), 0)))
        r = v.call(U + "dms2decimal", tuple(d[0][:3]))
        v.ensure("single number", T.eq(r, v.at(v.call(U + "_dms2decimal", as_arr(d[0][:3])), 0)))


def s_radius(v):
    x = v.real("x")
    v.assume(T.ne(x, 0))
    want = div(10800, mul(mul(2, T.PI), x))
    for f in ("radius_from_dls", "dls_from_radius"):
        v.ensure(f, T.eq(v.call(U + f, x), want))
        n = v.int("n", lo=1)
        A = v.arr("A", n)
        k = v.idx(n)
        v.assume(T.ne(v.at(A, k), 0))
        v.ensure(f + " arrays", T.eq(v.at(v.call(U + f, A), k), div(10800, mul(mul(2, T.PI), v.at(A, k)))))


def s_volume(v):
    od, id_, L = v.real("od"), v.real("id"), v.real("L")
    a = lambda i, l: div(mul(mul(T.PI, sub(mul(od, od), mul(i, i))), l), 4)
    v.ensure("annulus", T.eq(v.call(U + "annular_volume", od, id_, L), a(id_, L)))
    v.ensure("cylinder", T.eq(v.call(U + "annular_volume", od, length=L), a(T.const(0), L)))
    v.ensure("unit length", T.eq(v.call(U + "annular_volume", od, id=id_), a(id_, T.const(1))))
    v.ensure("area", T.eq(v.call(U + "annular_volume", od), a(T.const(0), T.const(1))))


def s_lin(v):
    a, b, f = v.real("a"), v.real("b"), v.real("f")
    r = v.call(U + "linear_convert", [a, None, b], f)
    v.ensure("list", T.land(T.TRUE if isinstance(r, list) and len(r) == 3 and r[1] is None else T.FALSE, T.eq(r[0], mul(a, f)), T.eq(r[2], mul(b, f))))
    v.ensure("number", T.eq(v.call(U + "linear_convert", a, f), mul(a, f)))
    v.ensure("None", T.TRUE if v.call(U + "linear_convert", None, f) is None else T.FALSE)


SPECS = [Spec("to dms/%s" % d, lambda v, d=d: s_dms(v, d)) for d in (True, False)]
SPECS += [Spec("from dms/%s" % d, lambda v, d=d: s_back(v, d)) for d in (True, False)]
SPECS += [Spec("arrays/%s" % k, lambda v, k=k: s_arrays(v, k), bounded="two pairs" if "pairs" in k else None) for k in ("angles", "pairs", "single", "back", "back pairs")]
SPECS += [Spec("radius and severity", s_radius), Spec("volume", s_volume), Spec("linear_convert", s_lin, bounded="lists of three, None in the middle")]


# ------------------------------------------------------------------ dynamic
def g(d):
    def ang():
        x = d.choice([d.real(-180, 180), d.real(-1, 1), float(d.int(-180, 180)), d.int(-180, 180) + d.int(0, 59) / 60, d.int(-10800, 10800) / 60])
        if d.bool(.3):
            x = float(np.nextafter(x, d.choice([-400.0, 400.0])))
        return x
    return dict(x=[ang() for _ in range(d.int(1, 4))], dir=d.choice("NSEW"), kind=d.choice(["one", "pair", "array", "int", "2d"]), nd=d.choice([None, None, 3, 8]),
                dls=[d.choice([0.0, d.real(1e-3, 30), d.real(-5, 5)]) for _ in range(d.int(1, 4))], od=d.real(.05, 1), id=d.real(0, .9), L=d.real(0, 4000), f=d.real(-5, 5))


def split(x):
    """(sign, degrees, minutes, seconds) in rational arithmetic"""
    from fractions import Fraction as F
    a = abs(F(x))
    dg = a.__floor__()
    mi = ((a - dg) * 60).__floor__()
    return (math.copysign(1, x), dg, mi, float((a - dg) * 3600 - 60 * mi))


def one(row, x, nd):
    dg, mi, se = [float(q) for q in row[:3]]
    if dg != int(dg) or mi != int(mi) or not (0 <= mi < 60) or not (0 <= se <= 60):
        return "%r split into %r" % (x, list(row))
    tol = 1e-9 + (0.5 * 10 ** -nd if nd is not None else 0)
    if abs(abs(dg) * 3600 + mi * 60 + se - abs(x) * 3600) > tol * 1.01:
        return "%r split into %r, which is %r" % (x, list(row), abs(dg) + mi / 60 + se / 3600)
    if x and math.copysign(1, dg) != math.copysign(1, x):
        return "%r lost its sign: %r" % (x, list(row))
    return None


def ck(c):
    from welleng import utils as u
    xs, nd = c["x"], c["nd"]
    tol = (1e-12 if nd is None else 10 ** -nd / 3600) * 2 + 1e-12
    if c["kind"] == "int":
        xs = [int(q) for q in xs]
    kw = {} if nd is None else dict(ndigits=nd)
    if c["kind"] == "one" or c["kind"] == "int" and len(xs) == 1:
        r = u.decimal2dms(xs[0], **kw)
        if np.shape(r) != (1, 3):
            return "shape %r for a single angle" % (np.shape(r),)
        rows, vals, back = [r[0]], [xs[0]], np.asarray(u.dms2decimal(r)).reshape(-1)
        b2 = u.dms2decimal(tuple(r[0]))
        if abs(b2 - xs[0]) > tol * 200:
            return "dms2decimal%r is %r" % (tuple(r[0]), b2)
    elif c["kind"] == "pair":
        r = u.decimal2dms((xs[0], c["dir"]), **kw)
        if len(r) != 4 or r[3] != c["dir"]:
            return "direction lost: %r" % (r,)
        b = u.dms2decimal(r)
        rows, vals = [r[:3]], [xs[0]]
        if len(b) != 2 or b[1] != c["dir"]:
            return "direction lost on the way back: %r" % (b,)
        back = [float(b[0])]
        for sy in (True, False):
            t = u.pprint_dms(r, symbols=sy, return_data=True)
            q = u.dms_from_string(t)
            if q is None or len(q) != 4 or q[3] != c["dir"] or any(float(p) != float(w) or math.copysign(1, float(p)) != math.copysign(1, float(w)) for p, w in zip(q[:3], r[:3])):
                return "%r reads back as %r, not %r" % (t, q, r)
            t = u.pprint_dms(r[:3], symbols=sy, return_data=True)
            q = u.dms_from_string(t)
            if q is None or len(q) != 3 or any(float(p) != float(w) for p, w in zip(q, r[:3])):
                return "%r reads back as %r, not %r" % (t, q, r[:3])
    else:
        a = np.array(xs) if c["kind"] == "array" else list(xs)
        if c["kind"] == "2d":
            if len(xs) < 2:
                raise Skip()
            r = u.decimal2dms(tuple((q, w) for q, w in zip(xs, "NESW")), **kw)
            if r.shape != (len(xs), 4) or list(r[:, 3]) != list("NESW"[:len(xs)]):
                return "directions lost: %r" % (r,)
            b = u.dms2decimal(r)
            if b.shape != (len(xs), 2) or list(b[:, 1]) != list("NESW"[:len(xs)]):
                return "directions lost on the way back: %r" % (b,)
            back = [float(q) for q in b[:, 0]]
        else:
            r = u.decimal2dms(a, **kw)
            if r.shape != (len(xs), 3):
                return "shape %r for %d angles" % (r.shape, len(xs))
            back = np.asarray(u.dms2decimal(r)).reshape(-1)
        rows, vals = list(r), xs
    for row, x, b in zip(rows, vals, back):
        m = one(row, x, nd)
        if m:
            return m
        if not abs(b - x) <= tol * 200:
            return "%r came back as %r" % (x, float(b))
    if len(back) != len(vals):
        return "%d of %d angles came back" % (len(back), len(vals))
    A = np.array(c["dls"])
    for f, h in ((u.radius_from_dls, u.dls_from_radius), (u.dls_from_radius, u.radius_from_dls)):
        r = f(A)
        for k, x in enumerate(c["dls"]):
            want = math.inf if x == 0 else 10800 / (2 * math.pi * x)
            s1 = f(x)
            if (x == 0 and not (math.isinf(s1) and math.isinf(r[k]))) or (x and (abs(s1 - want) > 1e-12 * abs(want) or abs(r[k] - want) > 1e-12 * abs(want))):
                return "%s(%r): %r and %r in an array, expected %r" % (f.__name__, x, s1, float(r[k]), want)
            if abs(h(s1) - x) > 1e-9 * abs(x):
                return "%s and back: %r for %r" % (f.__name__, h(s1), x)
        rb = h(r)
        if not np.allclose(rb, A, rtol=1e-9, atol=0):
            return "%s and back: %r for %r" % (f.__name__, rb, A)
        if list(A) != c["dls"]:
            return "input array changed"
    o, i, L, f = c["od"], c["id"], c["L"], c["f"]
    p = math.pi / 4
    for got, want in ((u.annular_volume(o, i, L), p * (o * o - i * i) * L), (u.annular_volume(o, length=L), p * o * o * L), (u.annular_volume(o, id=i), p * (o * o - i * i)), (u.annular_volume(o), p * o * o),
                      (u.annular_volume(o, 0, 0), 0.0)):
        if abs(got - want) > 1e-9 * (abs(want) + 1):
            return "annular volume %r expected %r" % (got, want)
    data = [o, None, i, L]
    r = u.linear_convert(data, f)
    if r != [o * f, None, i * f, L * f] or data != [o, None, i, L] or u.linear_convert(o, f) != o * f or u.linear_convert(None, f) is not None:
        return "linear_convert gave %r" % (r,)
    return None


DYN = [Dyn("conversions", g, ck, n=(1500, 40000), directed=[
    dict(x=[52.078663, 4.288788], dir="N", kind=k, nd=None, dls=[0.0, 3.0], od=.3, id=.2, L=10.0, f=.3048) for k in ("one", "pair", "array", "int", "2d")] + [
    dict(x=[-1e-9, -0.25], dir="W", kind=k, nd=None, dls=[0.0], od=.3, id=.2, L=10.0, f=.3048) for k in ("one", "pair", "array", "2d")])]
