"""P04 angles <-> direction vectors"""
from .common import *

FILES = ["welleng/utils.py"]
U = "welleng.utils."
META = dict(
    title="Inclination/azimuth and unit vectors are inverse conversions",
    statement="Converting inclination and azimuth (degrees or radians) to a vector gives the unit vector (sin inc cos azi, sin inc sin azi, cos inc) in north-east-down order, or the same components in east-north-down order when x, y, z is asked for, whatever positive scale is passed. "
              "Converting any nonzero vector of either order to angles gives an inclination in 0..pi and an azimuth in 0..2 pi whose unit vector is the given vector normalised, for every vector of the array independently. "
              "Hence converting angles to a vector and back restores inclinations in 0..pi and, away from the vertical, azimuths modulo a full turn.",
    over=["inputs"], quantifier="all angles, all nonzero vectors, any number of rows, both orders",
    why="Tests convert a few vectors; quadrant handling, the wrap of azimuth and the permutation between orders have to hold on the whole sphere.",
    mechanism=[("angles to vector", "welleng/utils.py:get_vec"), ("vector to angles", "welleng/utils.py:get_angles"), ("kernel", "welleng/utils.py:_get_angles"), ("unit vector", "welleng/utils.py:get_unit_vec")],
    observe_at="return values of get_vec, get_angles and get_unit_vec")
PERM = {True: (0, 1, 2), False: (1, 0, 2)}


def s_vec(v, nev, deg):
    n = v.int("n", lo=1)
    inc, azi = v.arr("inc", n), v.arr("azi", n)
    r = v.real("r", gt=0)
    a = (degrees(inc), degrees(azi)) if deg else (inc, azi)
    out = v.call(U + "get_vec", *a, nev=nev, r=r, deg=deg)
    k = v.idx(n)
    t = tangent(v.at(inc, k), v.at(azi, k))
    # |r t| = r  (used by the normaliser)
    for c, p in enumerate(PERM[nev]):
        v.ensure("component " + "NEV"[p], T.eq(v.at(out, k, c), t[p]))


def s_angles(v, nev):
    n = v.int("n", lo=1)
    w = v.arr("w", n, 3)
    k = v.idx(n)
    x = [v.at(w, k, c) for c in range(3)]
    q = norm2(x)
    v.assume(T.lt(0, q))
    out = v.call(U + "get_angles", w, nev=nev)
    i, a = v.at(out, k, 0), v.at(out, k, 1)
    p = PERM[nev]
    N, E, D = x[p.index(0)], x[p.index(1)], x[p.index(2)]
    m = T.sqrt(q)
    v.ensure("inclination range", T.land(T.le(0, i), T.le(i, T.PI)))
    v.ensure("azimuth range", T.land(T.le(0, a), T.lt(a, mul(2, T.PI))))
    v.ensure("cos(inc)", T.eq(mul(T.cos(i), m), D))
    h = add(mul(N, N), mul(E, E))
    v.ensure("sin(inc)", T.eq(mul(T.sin(i), m), T.sqrt(h)))
    v.ensure("north", T.implies(T.lt(0, h), T.eq(mul(T.cos(a), T.sqrt(h)), N)))
    v.ensure("east", T.implies(T.lt(0, h), T.eq(mul(T.sin(a), T.sqrt(h)), E)))


def s_round(v, nev):
    """angles -> vector -> angles"""
    n = v.int("n", lo=1)
    inc, azi = v.arr("inc", n), v.arr("azi", n)
    vec = v.call(U + "get_vec", inc, azi, nev=nev, deg=False)
    out = v.call(U + "get_angles", vec, nev=nev)
    k = v.idx(n)
    i0, a0 = v.at(inc, k), v.at(azi, k)
    v.assume(T.lt(0, i0), T.lt(i0, T.PI), T.lt(0, T.sin(i0)))
    i, a = v.at(out, k, 0), v.at(out, k, 1)
    v.ensure("cos inc restored", T.eq(T.cos(i), T.cos(i0)))
    v.ensure("sin inc restored", T.eq(T.sin(i), T.sin(i0)))
    v.ensure("cos azi restored", T.eq(T.cos(a), T.cos(a0)))
    v.ensure("sin azi restored", T.eq(T.sin(a), T.sin(a0)))


def s_unit(v):
    x = vec3(v, "x")
    q = norm2(x)
    v.assume(T.lt(0, q))
    u = v.call(U + "get_unit_vec", arr3(v, x))
    for c in range(3):
        v.ensure("unit vector", T.eq(mul(v.at(u, c), T.sqrt(q)), x[c]))


SPECS = [Spec("get_vec/%s/%s" % ("nev" if a else "xyz", "deg" if d else "rad"), lambda v, a=a, d=d: s_vec(v, a, d)) for a in (True, False) for d in (True, False)]
SPECS += [Spec("get_angles/" + ("nev" if a else "xyz"), lambda v, a=a: s_angles(v, a)) for a in (True, False)]
SPECS += [Spec("round trip/" + ("nev" if a else "xyz"), lambda v, a=a: s_round(v, a)) for a in (True, False)]
SPECS += [Spec("get_unit_vec", s_unit)]


def g(d):
    n = d.int(1, 6)
    return {"inc": [d.real(0, 180, (0.0, 90.0, 180.0)) for _ in range(n)], "azi": [d.real(-360, 720, (0.0, 90.0, 180.0, 270.0, 359.999)) for _ in range(n)],
            "r": d.choice([1.0, d.real(1e-3, 1e4)]), "nev": d.bool(), "deg": d.bool(),
            "w": [[d.real(-1, 1, (0.0, 1.0, -1.0)) * (10 ** d.r.uniform(-6, 6) if d.bool(.3) else 1) for _ in range(3)] for _ in range(n)], "one": d.bool(.3)}


def ck(c):
    from welleng import utils as u
    inc, azi = np.array(c["inc"]), np.array(c["azi"])
    I, A = np.radians(inc), np.radians(azi)
    ref = np.array([ref_tan(i, a) for i, a in zip(I, A)])
    p = [0, 1, 2] if c["nev"] else [1, 0, 2]
    a = (inc, azi) if c["deg"] else (I, A)
    keep = [x.copy() for x in a]
    got = u.get_vec(a[0], a[1], nev=c["nev"], r=c["r"], deg=c["deg"])
    if not all(np.array_equal(x, y) for x, y in zip(a, keep)):
        return "inputs modified"
    if not close(got, ref[:, p], 1e-9, 1e-12):
        return "get_vec: %s" % worst(got, ref[:, p])
    one = u.get_vec(float(a[0][0]), float(a[1][0]), nev=c["nev"], r=c["r"], deg=c["deg"])
    if not close(np.ravel(one), ref[0, p], 1e-9, 1e-12):
        return "get_vec of scalars: %s" % worst(np.ravel(one), ref[0, p])
    back = u.get_angles(got, nev=c["nev"])
    for k in range(len(inc)):
        if not close(back[k, 0], I[k], 1e-7, 1e-7):
            return "inclination %r came back as %r" % (I[k], back[k, 0])
        if math.sin(I[k]) > 1e-6 and abs((back[k, 1] - A[k] + math.pi) % (2 * math.pi) - math.pi) > 1e-7:
            return "azimuth %r came back as %r" % (A[k], back[k, 1])
    w = np.array(c["w"])
    m = np.linalg.norm(w, axis=1)
    if (m < 1e-9).any():
        raise Skip
    k0 = w.copy()
    arg = w[0] if c["one"] else w
    ang = np.reshape(u.get_angles(arg, nev=c["nev"]), (-1, 2))
    if not np.array_equal(k0, w):
        return "vector modified"
    if len(ang) != (1 if c["one"] else len(w)):
        return "%d rows for %d vectors" % (len(ang), len(w))
    for k in range(len(ang)):
        i, a = ang[k]
        if not (0 <= i <= math.pi + 1e-12 and 0 <= a <= 2 * math.pi + 1e-12):
            return "angles out of range: %r %r" % (i, a)
        e = (w[k] / m[k])[p]
        if not close(ref_tan(i, a), e, 1e-9, 1e-9):
            return "angles %r, %r of %s point along %s" % (i, a, e, ref_tan(i, a))
    x = u.get_unit_vec(w[0])
    if not close(x, w[0] / m[0], 1e-12, 1e-12):
        return "unit vector %s" % worst(x, w[0] / m[0])


DYN = [Dyn("angles", g, ck, n=(4000, 60000))]
