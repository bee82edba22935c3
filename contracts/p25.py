"""P25 drilling fluid density"""
from .common import *

FILES = ["welleng/fluid.py"]
F_ = "welleng.fluid."
META = dict(
    title="Fluid volumes mix to the fluid density, the density profile solves SPE 11118",
    statement="The relative volumes of water, oil and weighting material of a Fluid add to one and mix, at the reference temperature and pressure, to the fluid density given, the base fluid having the water fraction asked for and the densities the SPE 11118 correlations give. "
              "At every depth, given one at a time or as a list or array, with a temperature for each or one for all, get_density_profile returns the average density, between the bounds, for which the water and oil above that depth expand and compress as those correlations say under the temperature gradient from the surface and the pressure applied; at depth zero it is the reference density. "
              "An unknown weighting material is refused.",
    over=["inputs"], quantifier="all fluids, depths, temperatures and applied pressures",
    why="The fluid test computes one published value with the volumes overridden, so the volumes and every other input are untested.",
    mechanism=[("volumes", "welleng/fluid.py:Fluid._get_volumes_reference"), ("correlations", "welleng/fluid.py:Fluid._get_coefficients"), ("balance", "welleng/fluid.py:Fluid._func"), ("residual", "welleng/fluid.py:Fluid._get_density"), ("profile", "welleng/fluid.py:Fluid.get_density_profile")],
    observe_at="Fluid attributes, Fluid.get_density_profile()")

OIL = (7.24032, -2.84383e-3, 2.75660e-5)
WATER = (8.63186, -3.31977e-3, 2.37170e-5)
GRAD = 0.052
SOLIDS = {"barite": 35.0, "spe_11118": 24.0}


def M(*xs):
    r = T.const(1)
    for x in xs:
        r = mul(r, x)
    return r


def rho(c, t, p):
    return add(c[0], add(mul(c[1], t), mul(c[2], p)))


def s_volumes(v, solid):
    fd, t, p, w = v.real("fd", gt=0), v.real("t"), v.real("p", lo=0), v.real("w", lo=0, hi=1)
    base = add(mul(w, rho(WATER, t, p)), mul(sub(1, w), rho(OIL, t, p)))
    rs = SOLIDS[solid.lower()]
    v.assume(T.lt(fd, rs), T.lt(base, rs), T.lt(0, base))
    f = v.call(F_ + "Fluid", fd, reference_temp=t, reference_pressure=p, base_fluid_water_ratio=w, weighting_material=solid)
    a, b, c = [v.get(f, "volume_%s_relative" % k) for k in ("water_reference", "oil_reference", "weighting_material")]
    v.ensure("oil density", T.eq(v.get(f, "density_oil_reference"), rho(OIL, t, p)))
    v.ensure("water density", T.eq(v.get(f, "density_water_reference"), rho(WATER, t, p)))
    v.ensure("solids density", T.eq(v.get(f, "density_weighting_material"), T.const(rs)))
    v.ensure("volumes add to one", T.eq(add(a, add(b, c)), 1))
    v.ensure("mix to the fluid density", T.eq(add(mul(a, rho(WATER, t, p)), add(mul(b, rho(OIL, t, p)), mul(c, rs))), fd))
    v.ensure("water to oil", T.eq(mul(a, sub(1, w)), mul(b, w)))


def s_refused(v):
    v.ensure("unknown material refused", T.TRUE if v.raises(v.fn(F_ + "Fluid"), 10, weighting_material="sand") else T.FALSE)


def fluid(v):
    k = dict(density_fluid_reference=v.real("fd", gt=0), temp_reference=v.real("tr"), volume_water_reference_relative=v.real("vw"), volume_oil_reference_relative=v.real("vo"),
             volume_weighting_material_relative=v.real("vs"))
    return v.obj(F_ + "Fluid", **k), k


def s_residual(v, zero):
    o, k = fluid(v)
    avg, top, ttop, vw, vo, P, g = [v.real(q) for q in ("avg", "top", "ttop", "vw1", "vo1", "P", "g")]
    h = T.const(0) if zero else v.real("h")
    if zero:
        r = v.method(o, "_get_density", as_list(avg), top, ttop, vw, vo, P, 0, g)
        v.ensure("the reference density at the surface", T.eq(r, T.absv(sub(avg, top))))
        return
    v.assume(T.ne(h, 0), T.ne(sub(sub(1, vw), vo), 0))
    want = mul(top, h)
    for c, vol in ((OIL, vo), (WATER, vw)):
        a1 = rho(c, ttop, P)
        a2 = add(mul(c[1], g), M(GRAD, c[2], avg))
        v.assume(T.lt(0, a1), T.ne(a2, 0), T.lt(0, add(a1, mul(a2, h))))
        want = sub(want, mul(M(vol, a1, div(avg, a2)), T.log(div(add(a1, mul(a2, h)), a1))))
    want = div(want, mul(h, sub(sub(1, vw), vo)))
    r = v.method(o, "_get_density", as_list(avg), top, ttop, vw, vo, P, h, g)
    v.ensure("residual of the mass balance", T.eq(r, T.absv(sub(avg, want))))


def as_list(x):
    return [x]


def s_profile(v, one):
    o, k = fluid(v)
    n = 1 if one == "one" else 3
    D = [v.real("d%d" % i, gt=0) for i in range(n)]
    t = [v.real("t%d" % i) for i in range(n)]
    P, lo, hi = v.real("P"), v.real("lo"), v.real("hi")
    v.assume(T.lt(lo, hi))
    calls, got = [], []

    def mini(I, fun=None, x0=None, args=(), method=None, bounds=None, **kw):
        x = v.ctx.fresh("x")
        # assumed of scipy: the value stays between the bounds
        v.assume(T.le(bounds[0][0], x), T.le(x, bounds[0][1]))
        calls.append((fun, x0, args, bounds))
        got.append(x)
        import types as ty
        return v.obj("types.SimpleNamespace", x=arr1(v, x))
    v.external("scipy.optimize._minimize.minimize", mini)
    if one == "one":
        r = v.method(o, "get_density_profile", D[0], t[0], pressure_applied=P, density_bounds=(lo, hi))
    elif one == "same":
        t = [t[0]] * 3
        r = v.method(o, "get_density_profile", list(D), t[0], pressure_applied=P, density_bounds=(lo, hi))
    else:
        r = v.method(o, "get_density_profile", arrn(D) if one == "array" else list(D), arrn(t) if one == "array" else list(t), pressure_applied=P, density_bounds=(lo, hi))
    v.ensure("one density for each depth", T.TRUE if isinstance(r, list) and len(r) == n == len(calls) else T.FALSE)
    for i in range(n):
        fun, x0, a, b = calls[i]
        v.ensure("density %d is the solution" % i, T.eq(r[i], got[i]))
        v.ensure("between the bounds %d" % i, T.land(T.le(lo, r[i]), T.le(r[i], hi)))
        want = (k["density_fluid_reference"], k["temp_reference"], k["volume_water_reference_relative"], k["volume_oil_reference_relative"], P, D[i], div(sub(t[i], k["temp_reference"]), D[i]))
        # what is minimised at a density, whatever the arguments are called
        x = v.real("probe%d" % i)
        seen = v.call(fun, [x], *a)
        v.ensure("the balance at its own depth and temperature %d" % i, T.eq(seen, v.method(o, "_get_density", [x], *want)))


def arr1(v, x):
    from pyvc.arrays import as_arr
    return as_arr([x])


def arrn(xs):
    from pyvc.arrays import as_arr
    return as_arr(list(xs))


SPECS = [Spec("volumes/%s" % s, lambda v, s=s: s_volumes(v, s)) for s in ("Barite", "SPE_11118")]
SPECS += [Spec("materials", s_refused), Spec("balance", lambda v: s_residual(v, False)), Spec("balance/surface", lambda v: s_residual(v, True))]
SPECS += [Spec("profile/%s" % k, lambda v, k=k: s_profile(v, k), bounded=None if k == "one" else "three depths") for k in ("one", "list", "array", "same")]


# ------------------------------------------------------------------ dynamic
def g(d):
    c = dict(fd=d.real(8.8, 18), t=d.real(32, 150, (32.0, 120.0)), p=d.choice([0.0, 0.0, d.real(0, 3000)]), w=d.choice([0.0, 1.0, d.real(0, 1)]), solid=d.choice(["Barite", "barite", "SPE_11118"]))
    n = d.int(1, 3)
    c["depth"] = [d.choice([0.0, d.real(1, 100), d.real(1, 20000)]) for _ in range(n)]
    c["temp"] = [c["t"] + d.real(-20, 250) for _ in range(n)]
    c["how"] = d.choice(["one", "list", "array", "same"])
    c["P"] = d.choice([0.0, 0.0, d.real(0, 5000)])
    c["own"] = d.choice([None, None, (0.09, 0.78, 0.11)])
    return c


def ck(c):
    from welleng.fluid import Fluid
    from scipy.optimize import brentq
    rs = SOLIDS[c["solid"].lower()]
    kw = {}
    f = Fluid(c["fd"], reference_temp=c["t"], reference_pressure=c["p"], base_fluid_water_ratio=c["w"], weighting_material=c["solid"])
    ro = OIL[0] + OIL[1] * c["t"] + OIL[2] * c["p"]
    rw = WATER[0] + WATER[1] * c["t"] + WATER[2] * c["p"]
    vols = (f.volume_water_reference_relative, f.volume_oil_reference_relative, f.volume_weighting_material_relative)
    if abs(sum(vols) - 1) > 1e-9:
        return "volumes %r add to %r" % (vols, sum(vols))
    if abs(vols[0] * rw + vols[1] * ro + vols[2] * rs - c["fd"]) > 1e-8:
        return "volumes %r mix to %r instead of %r" % (vols, vols[0] * rw + vols[1] * ro + vols[2] * rs, c["fd"])
    if abs(vols[0] * (1 - c["w"]) - vols[1] * c["w"]) > 1e-9:
        return "water to oil %r for a water fraction of %r" % (vols, c["w"])
    if c["own"]:
        vols = f.volume_water_reference_relative, f.volume_oil_reference_relative, f.volume_weighting_material_relative = c["own"]
    D, t = list(c["depth"]), list(c["temp"])
    if c["how"] == "one":
        D, t = D[:1], t[:1]
        r = f.get_density_profile(D[0], t[0], pressure_applied=c["P"])
    elif c["how"] == "same":
        t = [t[0]] * len(D)
        r = f.get_density_profile(D, t[0], pressure_applied=c["P"])
    elif c["how"] == "list":
        r = f.get_density_profile(list(D), list(t), pressure_applied=c["P"])
    else:
        r = f.get_density_profile(np.array(D), np.array(t), c["P"])
    if len(r) != len(D):
        return "%d densities for %d depths" % (len(r), len(D))
    for x, h, tt in zip(r, D, t):
        if h == 0:
            if abs(x - c["fd"]) > 1e-4:
                return "density %r at the surface instead of %r" % (x, c["fd"])
            continue
        gr = (tt - c["t"]) / h

        def res(q):
            s = c["fd"] * h
            for cc, vol in ((OIL, vols[1]), (WATER, vols[0])):
                a1 = cc[0] + cc[1] * c["t"] + cc[2] * c["P"]
                a2 = cc[1] * gr + GRAD * cc[2] * q
                # the expansion of the volume above, integrated over depth
                s -= vol * q * (a1 * math.log1p(a2 * h / a1) / a2 if abs(a2 * h) > 1e-9 else h * (1 - a2 * h / a1 / 2))
            return q - s / (h * (1 - vols[0] - vols[1]))
        try:
            if res(6) * res(25) > 0:
                continue
            want = brentq(res, 6, 25, xtol=1e-12)
        except ValueError:
            continue
        if not abs(x - want) <= 1e-4:
            return "density %r at %r ft and %r F, the balance is met by %r" % (x, h, tt, want)
    return None


DYN = [Dyn("fluids", g, ck, n=(400, 8000), directed=[dict(fd=10.0, t=120.0, p=0.0, w=.103, solid="SPE_11118", depth=[10000.0], temp=[250.0], how="one", P=0.0, own=(0.09, 0.78, 0.11)),
                                                     dict(fd=12.0, t=80.0, p=0.0, w=.2, solid="Barite", depth=[0.0, 5000.0, 9000.0], temp=[80.0, 150.0, 200.0], how="list", P=0.0, own=None)])]
