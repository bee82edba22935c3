"""Contracts (exact functional models over the reals) of the numpy / builtin /
scipy operations used by the code under verification. Trusted; cross-checked
against CPython+numpy by pyvc/selftest.py on every run of setup."""
import builtins
import copy
import functools
import itertools
import math
import numpy as np
from . import terms as T
from .terms import Term
from .arrays import (SArr, Masked, IdxSet, SymRange, SymList, Unsupported, PyRaise, as_arr, scalar_arr,
                     elementwise, getitem, setitem, kind_of, norm_scalar, from_numpy, join_kind, full,
                     conv_elem, bshape, bget, concrete_mask, dim_eq, norm_index, table_getter)

MODELS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


def A(x):
    if isinstance(x, Masked):
        return x
    return as_arr(x)


def unarr(r):
    """0-d arrays behave as scalars"""
    if isinstance(r, SArr) and r.ndim == 0:
        return r.at(())
    return r


def ew1(f, kind="f"):
    def g(I, x, *a, out=None, where=None, **k):
        if out is not None or where is not None or a:
            raise Unsupported("ufunc out/where")
        if isinstance(x, SymList):
            x = x.to_arr()
        if x is None:
            raise PyRaise(TypeError, ("ufunc on None",))
        if isinstance(x, (list, tuple, np.ndarray, SymRange)):
            x = as_arr(x)
        return elementwise(lambda v: f(v), kind, x)
    return g


def real1(f):
    return ew1(lambda v: f(T.toreal(v)))


DEG = T.div(T.PI, 180)


def to_rad(x): return T.mul(T.mul(T.toreal(x), T.PI), T.div(T.const(1), T.const(180)))
def to_deg(x): return T.div(T.mul(T.toreal(x), T.const(180)), T.PI)


for _n, _f in dict(sin=T.sin, cos=T.cos, tan=T.tan, arcsin=T.asin, arccos=T.acos, arctan=T.atan, exp=T.exp,
                   log=T.log, sqrt=T.sqrt).items():
    MODELS[getattr(np, _n)] = real1(_f)
for _n, _f in dict(sin=T.sin, cos=T.cos, tan=T.tan, asin=T.asin, acos=T.acos, atan=T.atan, exp=T.exp, log=T.log,
                   sqrt=T.sqrt).items():
    MODELS[getattr(math, _n)] = (lambda f: lambda I, x: f(T.toreal(sc(x))))(_f)
MODELS[np.radians] = MODELS[np.deg2rad] = real1(to_rad)
MODELS[np.degrees] = MODELS[np.rad2deg] = real1(to_deg)
MODELS[math.radians] = lambda I, x: to_rad(sc(x))
MODELS[math.degrees] = lambda I, x: to_deg(sc(x))
MODELS[np.abs] = MODELS[np.absolute] = MODELS[np.fabs] = lambda I, x: elementwise(T.absv, kind_of(A(x)), A(x) if not I.is_scalar(x) else x)
MODELS[math.fabs] = lambda I, x: T.absv(T.toreal(sc(x)))
MODELS[np.negative] = lambda I, x: elementwise(T.neg, kind_of(A(x)), x)
MODELS[np.square] = lambda I, x: elementwise(lambda v: T.power(v, 2), kind_of(A(x)), x)
MODELS[np.sign] = ew1(lambda v: T.ite(T.lt(0, T.toreal(v)), T.const(1), T.ite(T.lt(T.toreal(v), 0), T.const(-1), T.const(0))))


def sc(x):
    x = norm_scalar(x)
    if isinstance(x, SArr):
        if all(d == 1 for d in x.shape):
            return x.at((0,) * x.ndim)
        raise PyRaise(TypeError, ("only length-1 arrays can be converted",))
    if not isinstance(x, (Term, int, float, bool)):
        if isinstance(x, str) or x is None or isinstance(x, (list, tuple, dict)):
            raise PyRaise(TypeError, ("must be real number",))
        raise Unsupported("scalar expected")
    return x


def isnan_term(t):
    """nan-ness of a real term, where it can be told structurally"""
    r = _ext(T.toreal(t))[0]
    return T.mk("isnan", (T.toreal(t),), "B") if r is None else r


_extm = {}


def _ext(t):
    """(is nan, is infinite) for the extended value of a real term in terms of its finite parts; None where it cannot be told"""
    r = _extm.get(t)
    if r is None:
        r = _extm[t] = _ext1(t)
    return r


def _ext1(t):
    if t.op == "special":
        return (T.TRUE, T.FALSE) if t.args[0] == "nan" else (T.FALSE, T.TRUE)
    if total(t):
        return T.FALSE, T.FALSE
    un = (None, None)
    if t.op == "ite":
        (an, ai), (bn, bi) = _ext(t.args[1]), _ext(t.args[2])
        return (T.ite(t.args[0], an, bn) if an is not None and bn is not None else None,
                T.ite(t.args[0], ai, bi) if ai is not None and bi is not None else None)
    xs = [_ext(x) for x in t.args if isinstance(x, Term) and x.sort == "R"]
    if not xs or any(n is None or i is None for n, i in xs):
        return un
    nan = T.lor(*[n for n, _ in xs])
    inf = [i for _, i in xs]
    fin = [T.land(T.lnot(n), T.lnot(i)) for n, i in xs]
    if t.op in ("neg", "abs"):
        return nan, inf[0]
    if t.op in ("add", "sub"):
        if sum(i is not T.FALSE for i in inf) > 1:
            return un
        return nan, T.land(T.lor(*inf), T.lnot(nan))
    if t.op == "mul" and len(t.args) == 2:
        a, b = t.args
        z = lambda x, f: T.FALSE if T.cval(x) not in (None, 0) or x is T.PI else T.land(f, T.eq(x, 0))
        nan = T.lor(nan, T.land(inf[0], z(b, fin[1])), T.land(inf[1], z(a, fin[0])))
        return nan, T.land(T.lor(*inf), T.lnot(nan))
    if t.op == "div":
        a, b = t.args
        if inf[1] is not T.FALSE:
            return un
        z = T.FALSE if (not T.free(b) and T.numval(b)) else T.land(fin[1], T.eq(b, 0))
        nan = T.lor(nan, T.land(fin[0], T.eq(a, 0), z))
        return nan, T.land(T.lor(inf[0], z), T.lnot(nan))
    if t.op == "sqrt":
        x = t.args[0]
        nan = T.lor(nan, T.land(fin[0], T.lt(x, 0)))
        return nan, T.land(inf[0], T.lnot(nan))
    if t.op in ("acos", "asin"):
        x = t.args[0]
        return T.lor(nan, inf[0], T.lt(x, -1), T.lt(1, x)), T.FALSE
    if t.op in ("sin", "cos", "tan"):
        return T.lor(nan, inf[0]), T.FALSE
    if t.op in ("ipow", "atan", "atan2") and all(i is T.FALSE for i in inf):
        return nan, T.FALSE
    return un


_inf = {}


def may_inf(t):
    r = _inf.get(t)
    if r is None:
        r = False
        for x in T.subterms([t]):
            if x.op == "div" and not (not T.free(x.args[1]) and T.numval(x.args[1])):
                r = True
            elif x.op in ("log", "rpow", "special", "tan"):
                r = True
        _inf[t] = r
    return r


_tot = {}


def total(t):
    r = _tot.get(t)
    if r is None:
        r = True
        for x in T.subterms([t]):
            if x.op == "div" and not (not T.free(x.args[1]) and T.numval(x.args[1])):
                r = False
            elif x.op in ("sqrt", "acos", "asin", "log", "rpow", "special", "tan"):
                r = False
        _tot[t] = r
    return r


MODELS[np.isnan] = ew1(lambda v: isnan_term(v) if not (isinstance(v, Term) and v.sort != "R") and not isinstance(v, int) else T.FALSE, "b")
MODELS[math.isnan] = lambda I, v: unw(isnan_term(sc(v)))


def isfinite_term(t):
    t = T.toreal(t)
    if t.op == "special":
        return T.FALSE
    if total(t):
        return T.TRUE
    if t.op == "div" and total(t.args[0]) and total(t.args[1]):
        return T.ne(t.args[1], 0)
    return T.mk("isfinite", (t,), "B")


def isinf_term(t):
    r = _ext(T.toreal(t))[1]
    return T.mk("isinf", (T.toreal(t),), "B") if r is None else r


MODELS[np.isfinite] = ew1(isfinite_term, "b")
MODELS[math.isfinite] = lambda I, v: unw(isfinite_term(sc(v)))
MODELS[np.isinf] = ew1(isinf_term, "b")


def unw(b):
    v = T.bval(b)
    return b if v is None else v


@model(np.nan_to_num)
def m_nan_to_num(I, x, nan=0, posinf=None, neginf=None):
    def f(v):
        v = T.toreal(v)
        big = T.const(1.7976931348623157e308)
        pi = big if posinf is None else T.toreal(posinf)
        ni = T.neg(big) if neginf is None else T.toreal(neginf)
        n = isnan_term(v)
        i = isinf_term(v)
        r = T.ite(n, T.toreal(nan), v)
        if i is T.FALSE:
            return r
        pos = T.lt(0, v.args[0]) if v.op == "div" else T.lt(0, v)
        return T.ite(n, T.toreal(nan), T.ite(i, T.ite(pos, pi, ni), v))
    return elementwise(f, "f", x if I.is_scalar(x) else A(x))


@model(np.arctan2)
def m_atan2(I, y, x):
    return elementwise(lambda a, b: T.atan2(a, b), "f", *map(lz, (y, x)))


MODELS[math.atan2] = lambda I, y, x: T.atan2(sc(y), sc(x))


def lz(x):
    if isinstance(x, SymList):
        return x.to_arr()
    if isinstance(x, (list, tuple, np.ndarray)):
        return as_arr(x)
    return x


def ew2(f, kind=None):
    def g(I, a, b, **k):
        a, b = lz(a), lz(b)
        return elementwise(f, kind or join_kind(kind_of(a), kind_of(b)), a, b)
    return g


MODELS[np.maximum] = MODELS[np.fmax] = ew2(T.smax)
MODELS[np.minimum] = MODELS[np.fmin] = ew2(T.smin)
MODELS[np.copysign] = MODELS[math.copysign] = ew2(lambda a, b: T.ite(T.lt(T.toreal(b), 0), T.neg(T.absv(T.toreal(a))), T.absv(T.toreal(a))), "f")  # the sign of a negative zero is not modelled
MODELS[np.hypot] = ew2(lambda a, b: T.sqrt(T.add(T.power(a, 2), T.power(b, 2))), "f")
MODELS[math.hypot] = lambda I, *a: T.sqrt(functools.reduce(T.add, [T.power(sc(x), 2) for x in a]))
MODELS[np.power] = ew2(T.power)
MODELS[math.pow] = lambda I, a, b: T.power(T.toreal(sc(a)), sc(b))
MODELS[np.add] = ew2(T.add)
MODELS[np.subtract] = ew2(T.sub)
MODELS[np.multiply] = ew2(T.mul)
MODELS[np.divide] = MODELS[np.true_divide] = ew2(T.div, "f")
MODELS[np.mod] = MODELS[np.remainder] = ew2(T.fmod)
MODELS[np.logical_and] = ew2(lambda a, b: T.land(T.tobool(a), T.tobool(b)), "b")
MODELS[np.logical_or] = ew2(lambda a, b: T.lor(T.tobool(a), T.tobool(b)), "b")
MODELS[np.logical_not] = ew1(lambda a: T.lnot(T.tobool(a)), "b")
MODELS[np.equal] = ew2(T.eq, "b")
MODELS[np.greater] = ew2(T.gt, "b")
MODELS[np.less] = ew2(T.lt, "b")


@model(np.floor)
def m_floor(I, x):
    return elementwise(lambda v: T.toreal(T.floor(v)), "f", lz(x))


@model(np.ceil)
def m_ceil(I, x):
    return elementwise(lambda v: T.neg(T.toreal(T.floor(T.neg(T.toreal(v))))), "f", lz(x))


MODELS[math.floor] = lambda I, x: T.floor(sc(x))
MODELS[math.ceil] = lambda I, x: T.neg(T.floor(T.neg(T.toreal(sc(x)))))


def round_half_even(v, nd):
    c = T.cval(v)
    if c is not None:
        from fractions import Fraction
        s = Fraction(10) ** nd
        return T.const(Fraction(round(c * s)) / s)
    return T.mk("round", (T.toreal(v), T.toint(nd)), "R")


@model(np.round, np.around)
def m_round(I, x, decimals=0):
    if isinstance(decimals, Term):
        raise Unsupported("symbolic rounding")
    return elementwise(lambda v: v if T.isint(v) else round_half_even(v, decimals), kind_of(A(x)), lz(x))


@model(builtins.round)
def m_pyround(I, x, ndigits=None):
    x = sc(x)
    if T.isint(x):
        return x
    if ndigits is None:
        c = T.cval(x)
        if c is None:       # the nearest whole number, halves to even
            from fractions import Fraction
            f = T.floor(T.add(x, T.const(Fraction(1, 2))))
            return T.ite(T.land(T.eq(T.toreal(f), T.add(x, T.const(Fraction(1, 2)))), T.eq(T.fmod(f, 2), 1)), T.isub(f, 1), f)
        return round(c)
    return round_half_even(x, ndigits)


@model(np.clip)
def m_clip(I, x, a_min=None, a_max=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)

    def f(v, *b):
        b = list(b)
        if a_min is not None:
            v = T.smax(v, b.pop(0))
        if a_max is not None:
            v = T.smin(v, b.pop(0))
        return v
    bs = [lz(b) for b in (a_min, a_max) if b is not None]
    return elementwise(f, join_kind(kind_of(lz(x)), *[kind_of(b) for b in bs]), lz(x), *bs)


# ------------------------------------------------------------------ creation
def _dtype_kind(dtype, default):
    if dtype is None:
        return default
    if dtype in (float, np.float64, np.float32, "float", "float64", "f8"):
        return "f"
    if dtype in (int, np.int64, np.int32, np.intp, "int"):
        return "i"
    if dtype in (bool, np.bool_, "bool"):
        return "b"
    if dtype is object:
        return "o"
    try:
        k = np.dtype(dtype).kind
        return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(k, "o")
    except TypeError:
        raise Unsupported("dtype")


def cast(a, kind):
    if a.kind == kind or kind is None:
        return a
    g = a.snapshot()

    def f(idx):
        v = g(idx)
        if kind == "b":
            return T.tobool(v)
        if isinstance(v, str):
            try:
                v = T.const(float(v)) if kind == "f" else int(v)
            except ValueError as e:
                raise PyRaise(ValueError, e.args)
        if v is None and kind == "i":
            raise PyRaise(TypeError, ("int(None)",))
        return conv_elem(v, kind)
    return SArr(a.shape, f, kind)


@model(np.array)
def m_array(I, x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, Masked):
        return Masked(cast(x.full.copy(), _dtype_kind(dtype, None)), x.mask)
    if isinstance(x, IdxSet):
        return x
    if isinstance(x, (type({}.keys()), type({}.values()), map, zip)):
        x = list(x)
    if not isinstance(x, (SArr, list, tuple, np.ndarray, SymList, SymRange, range)) and not I.is_scalar(x):
        if isinstance(x, (dict, str)) or x is None or isinstance(x, type(None)):
            x = np.array(x, dtype=object)
        elif hasattr(x, "cls") or callable(x):
            x0 = np.empty((), dtype=object)
            x0[()] = x
            x = x0
        else:
            x = np.array(x)
    if isinstance(x, (list, tuple)) and any(isinstance(e, Masked) for e in x):
        return stack_masked(x)
    a = as_arr(x)
    a = a.copy()
    a = cast(a, _dtype_kind(dtype, None))
    while a.ndim < ndmin:
        a = getitem(a, None)
    return a


def stack_masked(x):
    m = next(e for e in x if isinstance(e, Masked)).mask
    for e in x:
        if not isinstance(e, Masked):
            raise Unsupported("selection stacked with arrays")
    from .arrays import same_mask
    if not all(same_mask(e.mask, m) for e in x):
        raise Unsupported("selections under different masks")
    gs = [e.full.snapshot() for e in x]
    raise Unsupported("stack of selections")


@model(np.asarray, np.asanyarray, np.ascontiguousarray)
def m_asarray(I, x, dtype=None, **k):
    if isinstance(x, Masked):
        return x
    if isinstance(x, SArr):
        kd = _dtype_kind(dtype, x.kind)
        return x if kd == x.kind else cast(x.copy(), kd)
    return m_array(I, x, dtype=dtype)


def _shape(I, s):
    if isinstance(s, SArr):
        s = [s.at((i,)) for i in range(s.shape[0])]
    if isinstance(s, (tuple, list)):
        return tuple(_dim(x) for x in s)
    return (_dim(s),)


def _dim(x):
    x = norm_scalar(x)
    if isinstance(x, Term):
        if x.sort != "I":
            raise PyRaise(TypeError, ("float cannot be interpreted as an integer",))
        c = T.cval(x)
        return int(c) if c is not None else x
    if isinstance(x, (int, np.integer)):
        return int(x)
    raise PyRaise(TypeError, ("bad dimension",))


MODELS[np.zeros] = lambda I, shape, dtype=None, **k: full(_shape(I, shape), zero(_dtype_kind(dtype, "f")), _dtype_kind(dtype, "f"))
MODELS[np.ones] = lambda I, shape, dtype=None, **k: full(_shape(I, shape), one(_dtype_kind(dtype, "f")), _dtype_kind(dtype, "f"))


def zero(k): return {"f": T.const(0), "i": 0, "b": False, "o": 0}[k]
def one(k): return {"f": T.const(1), "i": 1, "b": True, "o": 1}[k]


@model(np.empty)
def m_empty(I, shape, dtype=None, **k):
    kd = _dtype_kind(dtype, "f")
    sh = _shape(I, shape)
    if kd == "f":
        nm = I.ctx.fresh("uninit").args[0]
        return SArr(sh, lambda idx: T.app(nm, idx) if idx else T.var(nm), "f")
    return full(sh, zero(kd) if kd != "o" else None, kd)


@model(np.full)
def m_full(I, shape, fill_value, dtype=None, **k):
    v = lz(fill_value)
    sh = _shape(I, shape)
    kd = _dtype_kind(dtype, kind_of(v))
    if isinstance(v, SArr):
        g = bget(v, sh)
        return SArr(sh, lambda idx: conv_elem(g(idx), kd), kd)
    return full(sh, norm_scalar(v), kd)


@model(np.zeros_like)
def m_zeros_like(I, x, dtype=None, **k):
    if I.is_scalar(x):
        kd = _dtype_kind(dtype, kind_of(x))
        return scalar_arr(zero(kd)).at(())
    if isinstance(x, Masked):
        return Masked(full(x.full.shape, zero(x.full.kind), x.full.kind), x.mask)
    x = A(x)
    kd = _dtype_kind(dtype, x.kind)
    return full(x.shape, zero(kd), kd)


@model(np.ones_like)
def m_ones_like(I, x, dtype=None, **k):
    x = A(x)
    kd = _dtype_kind(dtype, x.kind)
    r = full(x.shape, one(kd), kd)
    return unarr(r)


@model(np.full_like)
def m_full_like(I, x, v, dtype=None, **k):
    x = A(x)
    kd = _dtype_kind(dtype, x.kind)
    return unarr(m_full(I, x.shape, v, {"f": float, "i": int, "b": bool, "o": object}[kd]))


@model(np.empty_like)
def m_empty_like(I, x, dtype=None, **k):
    x = A(x)
    return m_empty(I, x.shape, {"f": float, "i": int, "b": bool, "o": object}[_dtype_kind(dtype, x.kind)])


@model(np.eye, np.identity)
def m_eye(I, n, *a, **k):
    n = _dim(n)
    return SArr((n, n), lambda i: T.ite(T.eq(i[0], i[1]), T.const(1), T.const(0)), "f")


@model(np.arange)
def m_arange(I, *a, dtype=None, **k):
    a = [norm_scalar(x) for x in a]
    if all(T.isint(x) for x in a):
        st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if sp == 1 or sp == -1:
            n = T.isub(en, st) if sp == 1 else T.isub(st, en)
            if not isinstance(n, Term):
                n = max(n, 0)
            return SArr((n,), lambda i: T.iadd(st, T.imul(i[0], sp)), "i")
    try:
        v = [I.lower(x) for x in a]
    except Unsupported:
        st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        st, en, sp = [T.toreal(x) for x in (st, en, sp)]
        if I.ctx.decide(T.lt(0, sp)) is not True:
            raise Unsupported("arange with a step of unknown sign")
        # documented length: ceil((stop - start)/step), at least 0
        n = I.ctx.fresh("arange_n", "I")
        I.ctx.assume(T.le(0, n))
        I.ctx.assume(T.le(en, T.add(st, T.mul(T.toreal(n), sp))))
        I.ctx.assume(T.lor(T.eq(n, 0), T.lt(T.add(st, T.mul(T.toreal(T.isub(n, 1)), sp)), en)))
        return SArr((n,), lambda i: T.add(st, T.mul(T.toreal(i[0]), sp)), "f")
    return from_numpy(np.arange(*v))


@model(np.linspace)
def m_linspace(I, start, stop, num=50, endpoint=True, retstep=False, **k):
    n = _dim(num)
    if retstep:
        raise Unsupported("linspace retstep")
    a, b = lz(start), lz(stop)
    den = T.toreal(T.isub(n, 1) if endpoint else n)
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        a, b = T.toreal(norm_scalar(a)), T.toreal(norm_scalar(b))
        return SArr((n,), lambda i: T.add(a, T.mul(T.sub(b, a), T.div(T.toreal(i[0]), den))) if den is not T.const(0) else a, "f")
    raise Unsupported("array linspace")


@model(np.diff)
def m_diff(I, x, n=1, axis=-1, prepend=None, append=None):
    a = A(x)
    if axis < 0:
        axis += a.ndim
    if n != 1:
        raise Unsupported("diff order")
    parts = []
    if prepend is not None:
        p = A(lz(prepend))
        if p.ndim == 0:
            p = bcast(p, a.shape[:axis] + (1,) + a.shape[axis + 1:])
        parts.append(p)
    parts.append(a)
    if append is not None:
        p = A(lz(append))
        if p.ndim == 0:
            p = bcast(p, a.shape[:axis] + (1,) + a.shape[axis + 1:])
        parts.append(p)
    if len(parts) > 1:
        a = m_concatenate(I, parts, axis=axis)
    g = a.snapshot()
    sh = list(a.shape)
    sh[axis] = T.isub(sh[axis], 1)
    f = (lambda x, y: T.sub(x, y)) if a.kind != "b" else (lambda x, y: T.lnot(T.eq(T.tobool(x), T.tobool(y))))

    def get(i):
        j = list(i)
        j[axis] = T.iadd(j[axis], 1)
        return f(g(tuple(j)), g(i))
    return SArr(sh, get, a.kind)


def bcast(a, shape):
    return SArr(shape, bget(a, shape), a.kind)


@model(np.broadcast_to)
def m_broadcast_to(I, x, shape, **k):
    return bcast(A(x), _shape(I, shape))


@model(np.apply_along_axis)
def m_apply_along_axis(I, f, axis, x, *args, **kw):
    """f of every row (last axis only)"""
    x = as_arr(x)
    if x.ndim == 0 or not -x.ndim <= axis < x.ndim:
        raise PyRaise(np.exceptions.AxisError, ("axis out of bounds",))
    if axis not in (-1, x.ndim - 1):
        raise Unsupported("apply_along_axis over another axis")
    x = x.copy()

    def rows(pre):
        if len(pre) == x.ndim - 1:
            r = I.call(f, [SArr((x.shape[-1],), lambda ix: x.at(tuple(pre) + tuple(ix)), x.kind)] + list(args), kw)
            return as_arr(r)
        n = x.shape[len(pre)]
        if isinstance(n, Term):
            return I.symmap(SymList(n, lambda i: i), lambda i: rows(pre + [i])).to_arr()
        if n == 0:
            raise PyRaise(ValueError, ("Cannot apply_along_axis when any iteration dimensions are 0",))
        return as_arr([rows(pre + [i]) for i in range(n)])
    r = rows([])
    return r


@model(np.issubdtype)
def m_issubdtype(I, a, b):
    if not isinstance(a, (type, np.dtype)) or not isinstance(b, (type, np.dtype)):
        raise Unsupported("issubdtype")
    return np.issubdtype(a, b)


@model(np.concatenate)
def m_concatenate(I, xs, axis=0, **k):
    if isinstance(xs, (SArr, SymList)):
        xs = I.iterate(xs)
    xs = [A(lz(x)) for x in xs]
    if any(isinstance(x, Masked) for x in xs):
        raise Unsupported("concatenation of selections")
    if axis is None:
        xs = [flatten(x) for x in xs]
        axis = 0
    nd = xs[0].ndim
    if nd == 0 or any(x.ndim != nd for x in xs):
        raise PyRaise(ValueError, ("concatenate dims",))
    if axis < 0:
        axis += nd
    for x in xs[1:]:
        for d in range(nd):
            if d != axis:
                q = dim_eq(x.shape[d], xs[0].shape[d])
                if q is False:
                    raise PyRaise(ValueError, ("concatenate shape",))
                if q is None:
                    raise Unsupported("concatenate of unrelated lengths")
    kind = join_kind(*[x.kind for x in xs])
    gs = [x.snapshot() for x in xs]
    offs = [0]
    for x in xs:
        offs.append(T.iadd(offs[-1], x.shape[axis]))
    sh = list(xs[0].shape)
    sh[axis] = offs[-1]
    dec = I.ctx.decide

    def get(i):
        p = i[axis]
        r = None
        for k in range(len(xs) - 1, -1, -1):
            j = list(i)
            j[axis] = T.isub(p, offs[k])
            if r is None:
                # last block; only if p could be in it
                if k > 0 and not isinstance(p, Term) and not isinstance(offs[k], Term) and p < offs[k]:
                    continue
                if k > 0 and dec(T.lt(p, offs[k])) is True:
                    continue
                v = gs[k](tuple(j))
                r = conv_elem(v, kind) if kind != "o" else v
                if k == 0:
                    break
                if dec(T.le(offs[k], p)) is True:
                    break
                first = k
                continue
            c = T.lt(p, offs[k + 1])
            b = dec(c)
            if b is False:
                break
            if b is None or b is True:
                if k > 0 and dec(T.lt(p, offs[k])) is True:
                    # strictly before this block: replaced further down
                    continue
                v = gs[k](tuple(j))
                v = conv_elem(v, kind) if kind != "o" else v
                r = v if b is True else (T.ite(c, v, r) if kind != "o" else (_omerge(c, v, r)))
        return r
    return SArr(sh, get, kind)


def _omerge(c, a, b):
    from .interp import merge
    return merge(c, a, b)


def flatten(a):
    if a.ndim == 1:
        return a.copy()
    return reshape(None, a, (-1,)).copy()


def reshape(I, a, shape):
    """reshape (row major). Symbolic lengths: leading axis only"""
    shape = list(shape)
    known = T.TRUE
    tot = a.size()
    if any(not isinstance(d, Term) and d == -1 for d in shape):
        rest = 1
        for d in shape:
            if isinstance(d, Term) or d != -1:
                rest = T.imul(rest, d)
        q = exact_div(tot, rest)
        if q is None:
            # cancel the dimensions both shapes have
            have, want = list(a.shape), [d for d in shape if isinstance(d, Term) or d != -1]
            for d in list(want):
                for h in have:
                    if dim_eq(h, d) is True:
                        have.remove(h)
                        want.remove(d)
                        break
            x, y = 1, 1
            for h in have:
                x = T.imul(x, h)
            for d in want:
                y = T.imul(y, d)
            q = exact_div(x, y)
        if q is None:
            if not isinstance(tot, Term) and not isinstance(rest, Term):
                raise PyRaise(ValueError, ("cannot reshape",))
            raise Unsupported("reshape of symbolic size")
        shape = [q if (not isinstance(d, Term) and d == -1) else d for d in shape]
    n2 = 1
    for d in shape:
        n2 = T.imul(n2, d)
    q = dim_eq(n2, tot)
    if q is False:
        raise PyRaise(ValueError, ("cannot reshape",))
    if q is None:
        raise Unsupported("reshape of unrelated symbolic sizes")
    osh = a.shape

    def conv(idx, sh_from, sh_to):
        # common leading dims
        k = 0
        out = []
        while k < len(sh_from) and k < len(sh_to) and dim_eq(sh_from[k], sh_to[k]) is True:
            out.append(idx[k])
            k += 1
        f_rest, t_rest, ix = list(sh_from[k:]), list(sh_to[k:]), list(idx[k:])
        # and common trailing dims
        end = []
        while f_rest and t_rest and dim_eq(f_rest[-1], t_rest[-1]) is True:
            f_rest.pop()
            t_rest.pop()
            end.append(ix.pop())
        # drop ones
        lin = 0
        for d, i in zip(f_rest, ix):
            lin = T.iadd(T.imul(lin, d), i)
        # unravel
        tail = []
        t = list(t_rest)
        while t:
            d = t.pop()
            if not t or all(not isinstance(x, Term) and x == 1 for x in t):
                tail.append(lin)
                lin = 0
                tail.extend([0] * len(t))
                break
            if not isinstance(d, Term) and d == 1:
                tail.append(0)
                continue
            if not isinstance(lin, Term) and not isinstance(d, Term):
                tail.append(lin % d)
                lin = lin // d
                continue
            # linear form c + sum k*atom with all k divisible by d
            c, m = T._lin(lin)
            if not isinstance(d, Term) and all(v % d == 0 for v in m.values()):
                tail.append(c % d)
                lin = T._unlin(c // d, {x: v // d for x, v in m.items()})
                continue
            raise Unsupported("index arithmetic in reshape")
        return tuple(out + tail[::-1] + end[::-1])
    sh2 = tuple(shape)
    return a.view(sh2, lambda idx: conv(idx, sh2, osh), lambda b: (T.TRUE, conv(b, osh, sh2)))


def exact_div(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a // b if b and a % b == 0 else None
    if not isinstance(b, Term):
        c, m = T._lin(a)
        if b and c % b == 0 and all(v % b == 0 for v in m.values()):
            return T._unlin(c // b, {k: v // b for k, v in m.items()})
        return None
    if a is b:
        return 1
    c, m = T._lin(a)
    cb, mb = T._lin(b)
    if cb == 0 and len(mb) == 1 and c == 0 and set(m) == set(mb):
        (k, v), = m.items()
        w = mb[k]
        if v % w == 0:
            return v // w
    return None


@model(np.reshape)
def m_reshape(I, a, shape, **k):
    return reshape(I, A(a), _shape2(shape))


def _shape2(s):
    if isinstance(s, (tuple, list)):
        return [_dim(x) for x in s]
    return [_dim(s)]


@model(np.ravel)
def m_ravel(I, a):
    return reshape(I, A(a), (-1,))


@model(np.transpose)
def m_transpose(I, a, axes=None):
    return transpose(A(a), axes)


def transpose(a, axes=None):
    n = a.ndim
    axes = tuple(range(n))[::-1] if axes is None else tuple(x % n for x in axes)
    inv = [axes.index(k) for k in range(n)]
    return a.view(tuple(a.shape[k] for k in axes), lambda i: tuple(i[inv[k]] for k in range(n)),
                  lambda b: (T.TRUE, tuple(b[k] for k in axes)))


@model(np.swapaxes)
def m_swapaxes(I, a, x, y):
    a = A(a)
    ax = list(range(a.ndim))
    ax[x], ax[y] = ax[y], ax[x]
    return transpose(a, ax)


@model(np.expand_dims)
def m_expand(I, a, axis):
    a = A(a)
    k = [slice(None)] * a.ndim
    k.insert(axis if axis >= 0 else a.ndim + 1 + axis, None)
    return getitem(a, tuple(k))


@model(np.squeeze)
def m_squeeze(I, a, axis=None):
    a = A(a)
    key = tuple(0 if not isinstance(d, Term) and d == 1 and (axis is None or i == axis % a.ndim) else slice(None)
                for i, d in enumerate(a.shape))
    return getitem(a, key)


@model(np.atleast_1d)
def m_atleast_1d(I, *xs):
    r = []
    for x in xs:
        a = A(lz(x))
        r.append(getitem(a, None) if a.ndim == 0 else a)
    return r[0] if len(r) == 1 else r


@model(np.atleast_2d)
def m_atleast_2d(I, x):
    a = A(lz(x))
    while a.ndim < 2:
        a = getitem(a, None)
    return a


@model(np.stack)
def m_stack(I, xs, axis=0, **k):
    if isinstance(xs, (SArr, SymList)):
        s = I.iterate(xs)
        if isinstance(s, SymList):
            if axis == 0:
                return s.to_arr()
            raise Unsupported("stack of symbolic length")
        xs = s
    if any(isinstance(x, Masked) for x in xs):
        ms = [x for x in xs if isinstance(x, Masked)]
        from .arrays import same_mask
        if len(ms) != len(xs) or not all(same_mask(x.mask, ms[0].mask) for x in ms) or ms[0].mask.ndim != 1:
            raise Unsupported("stack of selections")
        nd = ms[0].full.ndim + 1
        if axis % nd == 0:
            raise Unsupported("stack of selections on axis 0")
        return Masked(m_stack(I, [x.full for x in ms], axis=axis), ms[0].mask)
    xs = [A(lz(x)) for x in xs]
    nd = xs[0].ndim + 1
    if axis < 0:
        axis += nd
    key = [slice(None)] * (nd - 1)
    key.insert(axis, None)
    for x in xs[1:]:
        if x.ndim != nd - 1 or any(dim_eq(a, b) is False for a, b in zip(x.shape, xs[0].shape)):
            raise PyRaise(ValueError, ("all input arrays must have the same shape",))
    return m_concatenate(I, [getitem(x, tuple(key)) if x.ndim else getitem(x, None) for x in xs], axis=axis)


@model(np.vstack)
def m_vstack(I, xs, **k):
    if isinstance(xs, SArr) and isinstance(xs.shape[0], Term):
        # rows stacked again: the array itself (at least 2-d)
        if xs.ndim >= 2:
            if xs.ndim == 2:
                return xs.copy()
            n = xs.shape[1]
            if not isinstance(n, Term):
                return reshape(I, xs, (T.imul(xs.shape[0], n),) + tuple(xs.shape[2:])).copy()
        else:
            return reshape(I, xs, (xs.shape[0], 1)).copy()
        raise Unsupported("vstack")
    if isinstance(xs, SymList):
        return m_vstack(I, xs.to_arr())
    xs = [A(lz(x)) for x in I.iterate(xs)]
    xs = [getitem(x, None) if x.ndim == 1 else (reshape(I, x, (1, 1)) if x.ndim == 0 else x) for x in xs]
    return m_concatenate(I, xs, axis=0)


@model(np.hstack)
def m_hstack(I, xs, **k):
    xs = [A(lz(x)) for x in I.iterate(xs)]
    xs = [getitem(x, None) if x.ndim == 0 else x for x in xs]
    return m_concatenate(I, xs, axis=0 if xs[0].ndim == 1 else 1)


@model(np.column_stack)
def m_column_stack(I, xs, **k):
    out = []
    for x in I.iterate(xs):
        x = A(lz(x))
        if isinstance(x, Masked):
            raise Unsupported("column_stack of selections")
        if x.ndim < 2:
            if x.ndim == 0:
                x = getitem(x, None)
            x = getitem(x, (slice(None), None))
        out.append(x)
    return m_concatenate(I, out, axis=1)


@model(np.append)
def m_append(I, a, v, axis=None):
    a, v = A(lz(a)), A(lz(v))
    if axis is None:
        a = reshape(I, a, (-1,)) if a.ndim != 1 else a
        v = reshape(I, v, (-1,)) if v.ndim != 1 else v
        axis = 0
    return m_concatenate(I, [a, v], axis=axis)


@model(np.insert)
def m_insert(I, a, obj, values, axis=None):
    a, v = A(lz(a)), A(lz(values))
    if axis is None:
        a = reshape(I, a, (-1,)) if a.ndim != 1 else a
        axis = 0
    obj = norm_scalar(obj)
    if isinstance(obj, (SArr, list)):
        raise Unsupported("insert at several positions")
    n = a.shape[axis]
    p = obj
    if not isinstance(p, Term) and p < 0:
        p = T.iadd(n, p)
    blk = a.shape[:axis] + (1,) + a.shape[axis + 1:]
    if v.ndim < a.ndim:
        if axis == 0 and v.ndim == 1 and a.ndim == 1:
            blk = v.shape
        elif v.ndim == 1 and axis == 0:
            v = getitem(v, None)
    if v.ndim == a.ndim:
        blk = blk[:axis] + (v.shape[axis],) + blk[axis + 1:]
    v = cast(bcast(v, blk), a.kind) if a.kind != "o" else bcast(v, blk)
    lo = getitem(a, tuple([slice(None)] * axis + [slice(0, p)]), I.ctx.decide)
    hi = getitem(a, tuple([slice(None)] * axis + [slice(p, None)]), I.ctx.decide)
    return m_concatenate(I, [lo, v, hi], axis=axis)


@model(np.roll)
def m_roll(I, a, shift, axis=None):
    a = A(a)
    if axis is None:
        if a.ndim != 1:
            return reshape(I, m_roll(I, flatten(a), shift), a.shape)
        axis = 0
    axis %= a.ndim
    if isinstance(shift, Term):
        raise Unsupported("symbolic roll")
    n = a.shape[axis]
    g = a.snapshot()

    def get(i):
        j = T.isub(i[axis], shift)
        if not isinstance(j, Term) and not isinstance(n, Term):
            j %= n
        else:
            j = T.ite(T.lt(j, 0), T.iadd(j, n), T.ite(T.le(n, j), T.isub(j, n), j))
        return g(i[:axis] + (j,) + i[axis + 1:])
    return SArr(a.shape, get, a.kind)


@model(np.flip)
def m_flip(I, a, axis=None):
    a = A(a)
    ax = range(a.ndim) if axis is None else [axis % a.ndim]
    return getitem(a, tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim)))


MODELS[np.flipud] = lambda I, a: m_flip(I, a, 0)


@model(np.tile)
def m_tile(I, a, reps):
    a = A(lz(a))
    reps = _shape2(reps)
    while a.ndim < len(reps):
        a = getitem(a, None)
    reps = [1] * (a.ndim - len(reps)) + reps
    sh = [T.imul(d, r) for d, r in zip(a.shape, reps)]
    g = a.snapshot()
    osh = a.shape

    def get(i):
        out = []
        for k, (d, r) in enumerate(zip(osh, reps)):
            if not isinstance(r, Term) and r == 1:
                out.append(i[k])
            elif not isinstance(d, Term) and d == 1:
                out.append(0)
            elif not isinstance(d, Term) and not isinstance(i[k], Term):
                out.append(i[k] % d)
            elif not isinstance(r, Term) and r <= 8:
                k, j = i[k], i[k]
                for m in range(1, r):
                    j = T.ite(T.le(T.imul(m, d), k), T.isub(k, T.imul(m, d)), j)
                out.append(j)
            else:
                raise Unsupported("tile index")
        return g(tuple(out))
    return SArr(sh, get, a.kind)


@model(np.repeat)
def m_repeat(I, a, repeats, axis=None):
    a = A(lz(a))
    if a.ndim == 0:
        a = getitem(a, None)
    if axis is None and a.ndim > 1:
        a = reshape(I, a, (-1,))
    axis = axis or 0
    r = _dim(repeats)
    g = a.snapshot()
    sh = list(a.shape)
    d = sh[axis]
    sh[axis] = T.imul(d, r)

    def get(i):
        p = i[axis]
        if not isinstance(d, Term) and d == 1:
            q = 0
        elif not isinstance(p, Term) and not isinstance(r, Term):
            q = p // r
        else:
            raise Unsupported("repeat index")
        return g(i[:axis] + (q,) + i[axis + 1:])
    return SArr(sh, get, a.kind)


@model(np.copy)
def m_copy(I, a, **k):
    return A(a).copy()


@model(copy.copy)
def m_pycopy(I, x):
    from .interp import SObj
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, SObj):
        o = SObj(x.cls)
        object.__setattr__(o, "partial", x.partial)
        o.attrs.update(x.attrs)
        o.attrs.pop("!log", None)
        return o
    return copy.copy(x)


@model(copy.deepcopy)
def m_deepcopy(I, x, memo=None):
    memo = {} if memo is None else memo
    return _deep(x, memo)


def _deep(x, memo):
    from .interp import SObj
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, SArr):
        r = x.copy()
    elif isinstance(x, SObj):
        r = SObj(x.cls)
        object.__setattr__(r, "partial", x.partial)
        memo[id(x)] = r
        for k, v in x.attrs.items():
            if k != "!log":
                r.attrs[k] = _deep(v, memo)
        return r
    elif isinstance(x, dict):
        r = type(x)() if type(x) is dict else copy.copy(x)
        memo[id(x)] = r
        for k, v in x.items():
            r[k] = _deep(v, memo)
        return r
    elif isinstance(x, list):
        r = [_deep(v, memo) for v in x]
    elif isinstance(x, tuple):
        r = tuple(_deep(v, memo) for v in x)
    else:
        return x
    memo[id(x)] = r
    return r


# ------------------------------------------------------------------ where / masks
@model(np.where)
def m_where(I, c, *ab):
    c = lz(c)
    if not ab:
        if not isinstance(c, SArr):
            raise Unsupported("where of a scalar")
        m = c if c.kind == "b" else cast(c, "b")
        m = m.copy()
        sel = concrete_mask(m)
        if sel is not None:
            return tuple(SArr((len(sel),), table_getter({(j,): s[ax] for j, s in enumerate(sel)}, (len(sel),)), "i")
                         for ax in range(m.ndim))
        return tuple(IdxSet(m, ax) for ax in range(m.ndim))
    a, b = lz(ab[0]), lz(ab[1])
    k = join_kind(kind_of(a), kind_of(b))

    def f(cc, x, y):
        cc = T.tobool(cc)
        if k == "o":
            return _omerge(cc, x, y)
        return T.ite(cc, conv_elem(x, k), conv_elem(y, k))
    return elementwise(f, k, c, a, b)


MODELS[np.nonzero] = MODELS[np.argwhere] = lambda I, c: m_where(I, c)
del MODELS[np.argwhere]
MODELS[np.flatnonzero] = lambda I, c: m_where(I, c)[0]


@model(np.select)
def m_select(I, conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = m_where(I, c, v, r)
    return r


def forall_cond(I, a, name):
    """Bool term for 'every element of a is true'"""
    a = cast(A(a), "b")
    if a.concrete_shape():
        return T.land(*[T.tobool(a.at(i)) for i in a.indices()])
    # symbolic extent: a fresh Boolean with  b -> a[i] for every index,
    # and a witness index when it is false
    b = I.ctx.fresh(name, "B")
    g = a.snapshot()
    sh = a.shape
    sym = [k for k, d in enumerate(sh) if isinstance(d, Term)]
    conc = [range(d) if not isinstance(d, Term) else [None] for d in sh]
    w = {k: I.ctx.fresh(name + "_w", "I") for k in sym}

    def body(idxs):
        out = []
        for c in itertools.product(*conc):
            idx = tuple(idxs[k] if k in idxs else c[k] for k in range(len(sh)))
            out.append(T.tobool(g(idx)))
        return T.land(*out)
    rng = T.land(*[T.land(T.le(0, w[k]), T.lt(w[k], sh[k])) for k in sym])
    wit = body(w)
    if wit is T.TRUE:
        I.ctx.assume(b)
        return T.TRUE
    I.ctx.assume(T.implies(T.lnot(b), T.land(rng, T.lnot(wit))))
    if len(sym) == 1:
        k = sym[0]
        I.ctx.quant.append((sh[k], lambda i: T.implies(b, body({k: i}))))
    return b


@model(np.all, builtins.all)
def m_all(I, x, axis=None, **k):
    if axis is not None:
        return reduce_axis(I, cast(A(lz(x)), "b"), axis, lambda a, b: T.land(a, b), T.TRUE, "b", k.get("keepdims"))
    if not isinstance(x, (SArr,)):
        s = I.iterate(x)
        if isinstance(s, SymList):
            x = s.to_arr()
        else:
            r = T.TRUE
            for v in s:
                r = T.land(r, I.truthval(v) if not isinstance(v, SArr) or v.ndim == 0 else forall_cond(I, v, "all"))
            return unw(r)
    return unw(forall_cond(I, x, "all"))


@model(np.any, builtins.any)
def m_any(I, x, axis=None, **k):
    if axis is not None:
        return reduce_axis(I, cast(A(lz(x)), "b"), axis, lambda a, b: T.lor(a, b), T.FALSE, "b", k.get("keepdims"))
    if not isinstance(x, SArr):
        if I.is_scalar(x):
            return unw(T.tobool(x))
        s = I.iterate(x)
        if isinstance(s, SymList):
            x = s.to_arr()
        else:
            r = T.FALSE
            for v in s:
                r = T.lor(r, I.truthval(v) if not isinstance(v, SArr) or v.ndim == 0 else
                          T.lnot(forall_cond(I, neg_arr(v), "any")))
            return unw(r)
    return unw(T.lnot(forall_cond(I, neg_arr(x), "any")))


def neg_arr(a):
    return elementwise(lambda v: T.lnot(T.tobool(v)), "b", a) if a.ndim else scalar_arr(T.lnot(T.tobool(a.at(()))))


def reduce_axis(I, a, axis, f, init, kind, keepdims=False):
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = A(reduce_axis(I, a, ax, f, init, kind))
        return unarr(a)
    axis %= a.ndim
    n = a.shape[axis]
    if isinstance(n, Term):
        raise Unsupported("reduction over a symbolic length")
    g = a.snapshot()
    sh = a.shape[:axis] + a.shape[axis + 1:]

    def get(i):
        r = init
        for k in range(n):
            v = g(i[:axis] + (k,) + i[axis:])
            r = v if r is None else f(r, v)
        return r
    r = SArr(sh, get, kind)
    if keepdims:
        key = [slice(None)] * len(sh)
        key.insert(axis, None)
        return getitem(r, tuple(key))
    return unarr(r)


@model(np.sum)
def m_sum(I, x, axis=None, keepdims=False, **k):
    if isinstance(x, Masked):
        # sum over the selected elements == sum of the zeroed array
        g, m = x.full.snapshot(), x.mask.snapshot()
        kk = x.full.kind if x.full.kind != "b" else "i"
        x = SArr(x.full.shape, lambda i: T.ite(T.tobool(m(i[:x.mask.ndim] if False else i[:1])), conv_elem(g(i), kk), zero(kk)), kk)
    a = A(lz(x))
    if a.kind == "b":
        a = cast(a, "i")
    kind = a.kind
    if kind == "o":
        kind = "f"
    if axis is None:
        if a.concrete_shape():
            r = zero(kind)
            for i in a.indices():
                r = T.add(r, a.at(i))
            return r
        if a.ndim == 1:
            return total_sum(I, a, a.shape[0])
        r = zero(kind)
        sym = [k for k, d in enumerate(a.shape) if isinstance(d, Term)]
        if len(sym) == 1:
            b = a
            for ax in range(a.ndim - 1, -1, -1):
                if ax != sym[0]:
                    b = A(reduce_axis(I, b, ax, T.add, None, kind))
            return total_sum(I, b, a.shape[sym[0]])
        raise Unsupported("sum over several symbolic axes")
    axis = axis if isinstance(axis, tuple) else axis % a.ndim
    if not isinstance(axis, tuple) and isinstance(a.shape[axis], Term):
        n = a.shape[axis]
        g = a.snapshot()
        sh = a.shape[:axis] + a.shape[axis + 1:]
        return unarr(SArr(sh, lambda i: total_sum(I, SArr((n,), lambda j: g(i[:axis] + j + i[axis:]), kind), n), kind))
    return reduce_axis(I, a, axis, T.add, None, kind, keepdims)


def total_sum(I, a, n):
    if not isinstance(n, Term):
        r = T.const(0)
        for i in range(n):
            r = T.add(r, a.at((i,)))
        return r
    bv = T.var("!k", "I")
    return T.psum(bv, T.toreal(a.at((bv,))), T.isub(n, 1))


@model(builtins.sum)
def m_pysum(I, x, start=0):
    s = I.iterate(x)
    if isinstance(s, SymList):
        return T.add(start, total_sum(I, s.to_arr(), s.n))
    r = start
    import ast
    for v in s:
        r = I.binop(ast.Add(), r, v)
    return r


@model(np.prod)
def m_prod(I, x, axis=None, **k):
    a = A(lz(x))
    if axis is None:
        r = one(a.kind)
        for i in a.indices():
            r = T.mul(r, a.at(i))
        return r
    return reduce_axis(I, a, axis, T.mul, None, a.kind)


@model(np.mean, np.average)
def m_mean(I, x, axis=None, **k):
    if k:
        raise Unsupported("weighted average")
    a = A(lz(x))
    s = m_sum(I, a, axis=axis)
    n = a.size() if axis is None else a.shape[axis]
    return elementwise(lambda v: T.div(v, T.toreal(n)), "f", s)


@model(np.cumsum)
def m_cumsum(I, x, axis=None, **k):
    a = A(lz(x))
    if a.kind == "b":
        a = cast(a, "i")
    if axis is None:
        if a.ndim != 1:
            a = reshape(I, a, (-1,))
        axis = 0
    axis %= a.ndim
    g = a.snapshot()
    if not isinstance(a.shape[axis], Term):
        def get(i):
            r = zero(a.kind)
            for j in range(i[axis] + 1) if not isinstance(i[axis], Term) else _unsup("cumsum index"):
                r = T.add(r, g(i[:axis] + (j,) + i[axis + 1:]))
            return r
        return SArr(a.shape, get, a.kind)
    bv = T.var("!k", "I")

    def get(i):
        return T.psum(bv, T.toreal(g(i[:axis] + (bv,) + i[axis + 1:])), i[axis])
    return SArr(a.shape, get, "f")


def _unsup(m):
    raise Unsupported(m)


def _minmax(I, a, axis, lt, name, keepdims=False):
    a = A(lz(a))
    pick = (lambda x, y: T.ite(lt(y, x), y, x))
    if axis is not None and not isinstance(a.shape[axis % a.ndim], Term):
        return reduce_axis(I, a, axis, pick, None, a.kind, keepdims)
    if axis is None and a.concrete_shape():
        idx = list(a.indices())
        if not idx:
            raise PyRaise(ValueError, ("zero-size array",))
        r = a.at(idx[0])
        for i in idx[1:]:
            r = pick(r, a.at(i))
        return r
    if axis is None and a.ndim == 1:
        j = _argext(I, a, lt, name)
        return a.at((j,))
    raise Unsupported("min/max over symbolic axes")


def _argext(I, a, lt, name):
    n = a.shape[0]
    w = I.ctx.fresh(name, "I")
    I.ctx.assume(T.land(T.le(0, w), T.lt(w, n)))
    g = a.snapshot()
    I.ctx.quant.append((n, lambda i: T.lnot(lt(g((i,)), g((w,))))))
    return w


MODELS[np.min] = MODELS[np.amin] = MODELS[np.nanmin] = lambda I, a, axis=None, keepdims=False, **k: _minmax(I, a, axis, T.lt, "argmin", keepdims)
MODELS[np.max] = MODELS[np.amax] = MODELS[np.nanmax] = lambda I, a, axis=None, keepdims=False, **k: _minmax(I, a, axis, T.gt, "argmax", keepdims)


def m_argext(lt, name):
    def f(I, a, axis=None, **k):
        a = A(lz(a))
        if axis is not None and a.ndim > 1:
            axis %= a.ndim
            n = a.shape[axis]
            if isinstance(n, Term):
                raise Unsupported("argmin over symbolic axis")
            g = a.snapshot()

            def get(i):
                r, best = 0, g(i[:axis] + (0,) + i[axis:])
                for k in range(1, n):
                    v = g(i[:axis] + (k,) + i[axis:])
                    c = lt(v, best)
                    r, best = T.ite(c, k, r), T.ite(c, v, best)
                return r
            return SArr(a.shape[:axis] + a.shape[axis + 1:], get, "i")
        if a.ndim != 1:
            raise Unsupported("flat argmin")
        n = a.shape[0]
        if isinstance(n, Term):
            return _argext(I, a, lt, name)
        r, best = 0, a.at((0,))
        for k in range(1, n):
            v = a.at((k,))
            c = lt(v, best)
            r, best = T.ite(c, k, r), T.ite(c, v, best)
        return r
    return f


MODELS[np.argmin] = MODELS[np.nanargmin] = m_argext(T.lt, "argmin")
MODELS[np.argmax] = MODELS[np.nanargmax] = m_argext(T.gt, "argmax")


@model(builtins.min)
def m_pymin(I, *a, key=None, default=None):
    return _pyminmax(I, a, T.lt, key)


@model(builtins.max)
def m_pymax(I, *a, key=None, default=None):
    return _pyminmax(I, a, T.gt, key)


def _pyminmax(I, a, lt, key):
    if key is not None:
        raise Unsupported("min/max with key")
    s = a if len(a) > 1 else I.iterate(a[0])
    if isinstance(s, SymList):
        return _minmax(I, s.to_arr(), None, lt, "argext")
    s = list(s)
    if not s:
        raise PyRaise(ValueError, ("empty",))
    if all(isinstance(x, str) for x in s):
        return min(s) if lt is T.lt else max(s)
    r = sc(s[0])
    for v in s[1:]:
        v = sc(v)
        c = lt(v, r)
        if isinstance(c, Term):
            q = I.ctx.decide(c)
            c = c if q is None else (T.TRUE if q else T.FALSE)
        r = T.ite(c, v, r)
    return r


@model(np.searchsorted)
def m_searchsorted(I, a, v, side="left", sorter=None):
    a = A(lz(a))
    if sorter is not None or a.ndim != 1:
        raise Unsupported("searchsorted form")
    v = lz(v)
    if isinstance(v, SArr) and v.ndim:
        if v.concrete_shape() and v.ndim == 1:
            vals = {(i,): _ss1(I, a, v.at((i,)), side) for i in range(v.shape[0])}
            return SArr(v.shape, table_getter(vals, v.shape), "i")
        g = v.snapshot()
        memo = {}

        def get(i):
            if i not in memo:
                memo[i] = _ss1(I, a, g(i), side)
            return memo[i]
        return SArr(v.shape, get, "i")
    return _ss1(I, a, sc(v), side)


def _ss1(I, a, v, side):
    """documented contract of searchsorted on a sorted array (sortedness is the
    caller's obligation; for unsorted data only the range is guaranteed)"""
    n = a.shape[0]
    g = a.snapshot()
    below = (lambda x: T.lt(x, v)) if side == "left" else (lambda x: T.le(x, v))
    if not isinstance(n, Term) and n <= 8:
        r = 0
        for k in range(n):
            r = T.add(r, T.ite(below(g((k,))), 1, 0)) if True else r
        # number of leading elements below v (sorted => count)
        out = 0
        for k in range(n):
            out = T.ite(below(g((k,))), k + 1, out)
        return out
    w = I.ctx.fresh("ss", "I")
    I.ctx.assume(T.land(T.le(0, w), T.le(w, n)))
    # a binary search returns w with a[w-1] below v and a[w] not below v
    I.ctx.assume(T.implies(T.lt(0, w), below(g((T.isub(w, 1),)))))
    I.ctx.assume(T.implies(T.lt(w, n), T.lnot(below(g((w,))))))
    return w


@model(np.isclose)
def m_isclose(I, a, b, rtol=1e-5, atol=1e-8, **k):
    rt, at = T.toreal(norm_scalar(rtol)), T.toreal(norm_scalar(atol))
    return elementwise(lambda x, y: T.le(T.absv(T.sub(T.toreal(x), T.toreal(y))), T.add(at, T.mul(rt, T.absv(T.toreal(y))))),
                       "b", lz(a), lz(b))


@model(np.allclose)
def m_allclose(I, a, b, rtol=1e-5, atol=1e-8, **k):
    return m_all(I, A(m_isclose(I, a, b, rtol, atol)))


@model(np.array_equal)
def m_array_equal(I, a, b, **k):
    a, b = A(lz(a)), A(lz(b))
    if a.ndim != b.ndim:
        return False
    c = T.TRUE
    for x, y in zip(a.shape, b.shape):
        c = T.land(c, T.eq(x, y))
    if c is T.FALSE:
        return False
    if c is not T.TRUE:
        if not I.ctx.branch(c):
            return False
    sh = a.shape
    ga, gb = a.snapshot(), b.snapshot()
    return m_all(I, SArr(sh, lambda i: T.eq(ga(i), gb(i)), "b"))


@model(np.isin)
def m_isin(I, a, test, **k):
    a = A(lz(a))
    t = I.iterate(lz(test))
    if isinstance(t, SymList):
        raise Unsupported("isin symbolic")
    return elementwise(lambda x: T.lor(*[T.eq(x, y) for y in t]), "b", a)


@model(np.count_nonzero)
def m_count_nonzero(I, a, **k):
    a = A(lz(a))
    return m_sum(I, cast(cast(a, "b"), "i"))


@model(np.unique)
def m_unique(I, a, **k):
    a = A(lz(a))
    return I.lift(np.unique(I.lower(a), **k))


# ------------------------------------------------------------------ linear algebra
def dot1(xs, ys):
    r = None
    for x, y in zip(xs, ys):
        p = T.mul(x, y)
        r = p if r is None else T.add(r, p)
    return r if r is not None else T.const(0)


@model(np.dot)
def m_dot(I, a, b, **k):
    a, b = lz(a), lz(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr) or a.ndim == 0 or b.ndim == 0:
        return elementwise(T.mul, join_kind(kind_of(a), kind_of(b)), a, b)
    if b.ndim > 2:
        raise Unsupported("dot rank")
    return contract(a, b)


def contract(a, b):
    """sum over last axis of a and second-to-last (or only) axis of b"""
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    q = dim_eq(n, m)
    if q is False:
        raise PyRaise(ValueError, ("shapes not aligned",))
    kind = join_kind(a.kind, b.kind)
    ga, gb = a.snapshot(), b.snapshot()
    ra = a.ndim - 1
    sh = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())
    if isinstance(n, Term):
        bv = T.var("!k", "I")

        def get(i):
            x = ga(i[:ra] + (bv,))
            y = gb((bv,) + i[ra:]) if b.ndim > 1 else gb((bv,))
            return T.psum(bv, T.mul(T.toreal(x), T.toreal(y)), T.isub(n, 1))
        kind = "f"
    else:
        def get(i):
            xs = [ga(i[:ra] + (k,)) for k in range(n)]
            if b.ndim == 1:
                ys = [gb((k,)) for k in range(n)]
            else:
                rest = i[ra:]
                ys = [gb(rest[:-1] + (k,) + rest[-1:]) for k in range(n)]
            return dot1(xs, ys)
    return unarr(SArr(sh, get, kind))


def matmul(I, a, b):
    a, b = A(lz(a)), A(lz(b))
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise(ValueError, ("matmul: scalar operand",))
    if a.ndim <= 2 and b.ndim <= 2:
        return contract(a, b)
    # batched
    bs = bshape(a.shape[:-2], b.shape[:-2])
    n = a.shape[-1]
    if b.ndim == 1:
        return contract(a, b)
    if dim_eq(n, b.shape[-2]) is False:
        raise PyRaise(ValueError, ("matmul shapes",))
    if isinstance(n, Term):
        raise Unsupported("matmul over symbolic length")
    if a.ndim == 1:
        a = getitem(a, None)
        squeeze = True
    else:
        squeeze = False
    A_ = bcast(a, bs + a.shape[-2:])
    B_ = bcast(b, bs + b.shape[-2:])
    ga, gb = A_.snapshot(), B_.snapshot()

    def get(i):
        pre, r, c = i[:-2], i[-2], i[-1]
        return dot1([ga(pre + (r, k)) for k in range(n)], [gb(pre + (k, c)) for k in range(n)])
    out = SArr(bs + (a.shape[-2], b.shape[-1]), get, join_kind(a.kind, b.kind))
    if squeeze:
        out = getitem(out, (Ellipsis, 0, slice(None)))
    return out


MODELS[np.matmul] = matmul


@model(np.vdot, np.inner)
def m_inner(I, a, b):
    a, b = A(lz(a)), A(lz(b))
    if a.ndim == 1 and b.ndim == 1:
        return contract(a, b)
    raise Unsupported("inner")


@model(np.outer)
def m_outer(I, a, b):
    a, b = reshape(I, A(lz(a)), (-1,)), reshape(I, A(lz(b)), (-1,))
    ga, gb = a.snapshot(), b.snapshot()
    return SArr((a.shape[0], b.shape[0]), lambda i: T.mul(ga((i[0],)), gb((i[1],))), join_kind(a.kind, b.kind))


@model(np.cross)
def m_cross(I, a, b, axis=-1, **k):
    a, b = A(lz(a)), A(lz(b))
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross of non 3-vectors")
    bs = bshape(a.shape, b.shape)
    ga, gb = bget(a, bs), bget(b, bs)

    def get(i):
        p, c = i[:-1], i[-1]
        if isinstance(c, Term):
            raise Unsupported("symbolic component")
        j, k = (c + 1) % 3, (c + 2) % 3
        return T.sub(T.mul(ga(p + (j,)), gb(p + (k,))), T.mul(ga(p + (k,)), gb(p + (j,))))
    return SArr(bs, get, join_kind(a.kind, b.kind))


@model(np.einsum)
def m_einsum(I, spec, *ops, **k):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(",", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = ("..." if "..." in spec else "") + "".join(sorted(c for c in cnt if cnt[c] == 1 and c != "."))
    ins = ins.split(",")
    arrs = [A(lz(o)) for o in ops]
    # ellipsis -> extra letters
    if "..." in spec:
        pool = "ABCDEFGH"
        nell = max(a.ndim - len(s.replace("...", "")) for a, s in zip(arrs, ins) if "..." in s)
        ins = [s.replace("...", pool[nell - (a.ndim - len(s.replace("...", ""))):nell]) for a, s in zip(arrs, ins)]
        out = out.replace("...", pool[:nell])
    dims = {}
    for a, s in zip(arrs, ins):
        if a.ndim != len(s):
            raise PyRaise(ValueError, ("einsum ranks",))
        for d, ch in zip(a.shape, s):
            if ch in dims:
                if not isinstance(dims[ch], Term) and dims[ch] == 1:
                    dims[ch] = d
                elif not isinstance(d, Term) and d == 1:
                    pass
                elif dim_eq(dims[ch], d) is False:
                    raise PyRaise(ValueError, ("einsum dims",))
                elif dim_eq(dims[ch], d) is None:
                    raise Unsupported("einsum of unrelated lengths")
            else:
                dims[ch] = d
    summed = [c for c in dims if c not in out]
    conc = [c for c in summed if not isinstance(dims[c], Term)]
    symb = [c for c in summed if isinstance(dims[c], Term)]
    if len(symb) > 1:
        raise Unsupported("einsum over several symbolic axes")
    gs = [a.snapshot() for a in arrs]
    kind = join_kind(*[a.kind for a in arrs])

    def get(i):
        env0 = dict(zip(out, i))

        def body(env):
            r = None
            for combo in itertools.product(*[range(dims[c]) for c in conc]):
                e = dict(env)
                e.update(zip(conc, combo))
                p = None
                for g, a, s in zip(gs, arrs, ins):
                    v = g(tuple(0 if (not isinstance(d, Term) and d == 1) else e[ch] for d, ch in zip(a.shape, s)))
                    p = v if p is None else T.mul(p, v)
                r = p if r is None else T.add(r, p)
            return r if r is not None else T.const(0)
        if symb:
            bv = T.var("!k", "I")
            e = dict(env0)
            e[symb[0]] = bv
            return T.psum(bv, T.toreal(body(e)), T.isub(dims[symb[0]], 1))
        return body(env0)
    return unarr(SArr(tuple(dims[c] for c in out), get, "f" if symb else kind))


@model(np.linalg.norm)
def m_norm(I, x, ord=None, axis=None, keepdims=False):
    a = A(lz(x))
    if ord not in (None, 2):
        raise Unsupported("norm order")
    if axis is None:
        if ord == 2 and a.ndim == 2:
            raise Unsupported("spectral norm")
        if a.concrete_shape():
            return T.sqrt(functools.reduce(T.add, [T.power(T.toreal(a.at(i)), 2) for i in a.indices()]))
        if a.ndim == 1:
            g = a.snapshot()
            return T.sqrt(total_sum(I, SArr(a.shape, lambda i: T.power(T.toreal(g(i)), 2), "f"), a.shape[0]))
        raise Unsupported("norm of symbolic array")
    sq = elementwise(lambda v: T.power(T.toreal(v), 2), "f", a)
    s = reduce_axis(I, sq, axis, T.add, None, "f", keepdims)
    return elementwise(T.sqrt, "f", s)


@model(np.diag)
def m_diag(I, x, k=0):
    a = A(lz(x))
    if k:
        raise Unsupported("off diagonal")
    g = a.snapshot()
    if a.ndim == 2:
        return SArr((a.shape[0],), lambda i: g((i[0], i[0])), a.kind)
    n = a.shape[0]
    return SArr((n, n), lambda i: T.ite(T.eq(i[0], i[1]), g((i[0],)), zero(a.kind)), a.kind)


@model(np.diagonal)
def m_diagonal(I, x, offset=0, axis1=0, axis2=1):
    a = A(lz(x))
    if offset:
        raise Unsupported("diagonal offset")
    axis1, axis2 = axis1 % a.ndim, axis2 % a.ndim
    g = a.snapshot()
    others = [k for k in range(a.ndim) if k not in (axis1, axis2)]

    def get(i):
        idx = [None] * a.ndim
        for p, k in enumerate(others):
            idx[k] = i[p]
        idx[axis1] = idx[axis2] = i[-1]
        return g(tuple(idx))
    return SArr(tuple(a.shape[k] for k in others) + (a.shape[axis1],), get, a.kind)


@model(np.trace)
def m_trace(I, x, offset=0, axis1=0, axis2=1, **k):
    return m_sum(I, A(m_diagonal(I, x, offset, axis1, axis2)), axis=-1)


@model(np.linalg.inv)
def m_inv(I, x):
    a = A(lz(x))
    if a.shape == (2, 2):
        p, q, r, s = [a.at(i) for i in ((0, 0), (0, 1), (1, 0), (1, 1))]
        d = T.sub(T.mul(p, s), T.mul(q, r))
        v = {(0, 0): T.div(s, d), (0, 1): T.div(T.neg(q), d), (1, 0): T.div(T.neg(r), d), (1, 1): T.div(p, d)}
        return SArr((2, 2), lambda i: v[i], "f")
    if a.shape == (3, 3):
        m = [[a.at((i, j)) for j in range(3)] for i in range(3)]
        def cof(i, j):
            r = [k for k in range(3) if k != i]
            c = [k for k in range(3) if k != j]
            v = T.sub(T.mul(m[r[0]][c[0]], m[r[1]][c[1]]), T.mul(m[r[0]][c[1]], m[r[1]][c[0]]))
            return T.neg(v) if (i + j) % 2 else v
        d = functools.reduce(T.add, [T.mul(m[0][j], cof(0, j)) for j in range(3)])
        return SArr((3, 3), lambda i: T.div(cof(i[1], i[0]), d), "f")
    raise Unsupported("matrix inverse")


# ------------------------------------------------------------------ builtins
@model(builtins.len)
def m_len(I, x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise PyRaise(TypeError, ("len() of unsized object",))
        return x.shape[0]
    if isinstance(x, (SymList, SymRange)):
        return x.n
    if isinstance(x, (Masked, IdxSet)):
        return mask_count(I, x.mask)
    from .interp import SObj
    if isinstance(x, SObj):
        if hasattr(x.cls, "__len__"):
            return I.call(I.getattr(x, "__len__"))
        raise PyRaise(TypeError, ("no len",))
    if isinstance(x, Term) or x is None or isinstance(x, (int, float)):
        raise PyRaise(TypeError, ("no len",))
    try:
        return len(x)
    except TypeError as e:
        raise PyRaise(TypeError, e.args)


def mask_count(I, m):
    c = I.ctx.fresh("count", "I")
    I.ctx.assume(T.le(0, c))
    if m.ndim == 1:
        n = m.shape[0]
        I.ctx.assume(T.le(c, n))
        g = m.snapshot()
        I.ctx.quant.append((n, lambda i: T.implies(T.eq(c, 0), T.lnot(T.tobool(g((i,)))))))
        w = I.ctx.fresh("count_w", "I")
        I.ctx.assume(T.implies(T.lt(0, c), T.land(T.le(0, w), T.lt(w, n), T.tobool(g((w,))))))
    return c


@model(builtins.range)
def m_range(I, *a):
    a = [sc(x) for x in a]
    if any(isinstance(x, Term) and x.sort == "R" for x in a):
        raise PyRaise(TypeError, ("float cannot be interpreted as an integer",))
    a = [int(T.cval(x)) if isinstance(x, Term) and T.cval(x) is not None else x for x in a]
    if any(isinstance(x, Term) for x in a):
        st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if sp not in (1, -1):
            raise Unsupported("range step")
        n = T.isub(en, st) if sp == 1 else T.isub(st, en)
        if isinstance(n, Term) and I.ctx.decide(T.le(0, n)) is not True:
            n = T.smax(n, 0)
        return SymRange(st, n, sp)
    return range(*a)


@model(builtins.enumerate)
def m_enumerate(I, x, start=0):
    s = I.iterate(x)
    if isinstance(s, SymList):
        return SymList(s.n, lambda i: (T.iadd(i, start), s.get(i)))
    return [(i + start, v) for i, v in enumerate(s)]


@model(builtins.zip)
def m_zip(I, *xs, strict=False):
    ss = [I.iterate(x) for x in xs]
    if any(isinstance(s, SymList) for s in ss):
        n = None
        for s in ss:
            m = s.n if isinstance(s, SymList) else len(s)
            if n is None:
                n = m
            elif dim_eq(n, m) is not True:
                b = I.ctx.decide(T.le(n, m))
                if b is True:
                    pass
                elif b is False:
                    n = m
                else:
                    n = T.smin(n, m)

        def at(s, i):
            if isinstance(s, SymList):
                return s.get(i)
            return I.subscript(list(s), i)
        return SymList(n, lambda i: tuple(at(s, i) for s in ss))
    return list(zip(*ss))


@model(builtins.map)
def m_map(I, f, *xs):
    z = m_zip(I, *xs)
    if isinstance(z, SymList):
        return I.symmap(z, lambda v: I.call(f, v))
    return [I.call(f, v) for v in z]


@model(builtins.filter)
def m_filter(I, f, x):
    s = I.iterate(x)
    if isinstance(s, SymList):
        raise Unsupported("filter of symbolic length")
    return [v for v in s if I.truth(v if f is None else I.call(f, [v]))]


@model(builtins.reversed)
def m_reversed(I, x):
    s = I.iterate(x)
    if isinstance(s, SymList):
        return SymList(s.n, lambda i: s.get(T.isub(T.isub(s.n, 1), i)))
    return list(reversed(s))


@model(builtins.sorted)
def m_sorted(I, x, key=None, reverse=False):
    s = I.iterate(x)
    if isinstance(s, SymList):
        raise Unsupported("sort of symbolic length")
    ks = [I.call(key, [v]) for v in s] if key is not None else list(s)
    try:
        lo = [I.lower(x) for x in ks]
    except Unsupported:
        # stable insertion sort; comparisons of symbolic keys split the path
        num = lambda x: isinstance(x, (Term, int, float))
        tup = all(isinstance(x, tuple) and len(x) == len(ks[0]) and all(map(num, x)) for x in ks)
        if not (tup or all(map(num, ks))) or reverse:
            raise

        def less(a, b):
            for p, q in zip(a, b) if tup else ((a, b),):
                p, q = T.toreal(p), T.toreal(q)
                if I.truth(T.lt(p, q)):
                    return True
                if I.truth(T.lt(q, p)):
                    return False
            return False
        order = []
        for i, x in enumerate(ks):
            p = len(order)
            while p and less(x, ks[order[p - 1]]):
                p -= 1
            order.insert(p, i)
        return [s[i] for i in order]
    order = sorted(range(len(s)), key=lambda i: lo[i], reverse=bool(reverse))
    return [s[i] for i in order]


@model(builtins.list)
def m_list(I, x=()):
    s = I.iterate(x)
    return s if isinstance(s, SymList) else list(s)


@model(builtins.tuple)
def m_tuple(I, x=()):
    s = I.iterate(x)
    return s if isinstance(s, SymList) else tuple(s)


@model(builtins.iter)
def m_iter(I, x):
    s = I.iterate(x)
    return s if isinstance(s, SymList) else iter(s)


@model(builtins.next)
def m_next(I, it, *d):
    try:
        return next(it)
    except StopIteration:
        if d:
            return d[0]
        raise PyRaise(StopIteration, ())
    except TypeError:
        raise Unsupported("next")


@model(builtins.set)
def m_set(I, x=()):
    s = I.iterate(x)
    if isinstance(s, SymList):
        raise Unsupported("set of symbolic length")
    if any(isinstance(v, Term) and T.cval(v) is None for v in s):
        raise Unsupported("set of symbolic values")
    return set(s)


@model(builtins.float)
def m_float(I, x=0):
    if isinstance(x, str):
        try:
            return T.const(float(x))
        except ValueError as e:
            raise PyRaise(ValueError, e.args)
    return T.toreal(sc(x))


MODELS[np.float64] = m_float


@model(builtins.int)
def m_int(I, x=0, *a):
    if isinstance(x, str):
        try:
            return int(x, *a)
        except ValueError as e:
            raise PyRaise(ValueError, e.args)
    return conv_elem(sc(x), "i") if not isinstance(x, bool) else int(x)


@model(builtins.bool)
def m_bool(I, x=False):
    return unw(I.truthval(x))


@model(builtins.abs)
def m_abs(I, x):
    return elementwise(T.absv, kind_of(x), x)


@model(builtins.divmod)
def m_divmod(I, a, b):
    import ast
    return (I.binop(ast.FloorDiv(), a, b), I.binop(ast.Mod(), a, b))


@model(builtins.pow)
def m_pow(I, a, b):
    return T.power(sc(a), sc(b))


@model(builtins.str)
def m_str(I, x=""):
    from .interp import Opaque
    try:
        return str(I.lower(x))
    except Unsupported:
        return Opaque("str")


MODELS[builtins.repr] = m_str
MODELS[builtins.format] = lambda I, x, s="": m_str(I, x)


@model(builtins.isinstance)
def m_isinstance(I, x, ty):
    from .interp import SObj, Opaque
    tys = ty if isinstance(ty, tuple) else (ty,)
    flat = []
    for t in tys:
        if isinstance(t, tuple):
            flat.extend(t)
        elif hasattr(t, "__args__") and not isinstance(t, type):
            flat.extend(t.__args__)
        else:
            flat.append(t)
    tys = tuple(flat)
    if isinstance(x, SObj):
        return any(issubclass(x.cls, t) for t in tys if isinstance(t, type))
    if isinstance(x, (SArr, Masked, IdxSet)):
        return any(t is np.ndarray or t is object for t in tys)
    if isinstance(x, SymRange):
        return any(t is range for t in tys)
    if isinstance(x, SymList):
        return any(t is list for t in tys)
    if isinstance(x, Term):
        import numbers
        if x.sort == "R":
            ok = (float, np.floating, np.float64, numbers.Number, numbers.Real, object)
        elif x.sort == "I":
            ok = (int, np.integer, np.int64, numbers.Number, numbers.Integral, numbers.Real, object)
        else:
            ok = (bool, np.bool_, int, object)
        return any(t in ok for t in tys)
    if isinstance(x, Opaque):
        raise Unsupported("isinstance of opaque")
    return isinstance(x, tuple(t for t in tys if isinstance(t, type)))


@model(builtins.type)
def m_type(I, x):
    from .interp import SObj
    if isinstance(x, SObj):
        return x.cls
    if isinstance(x, SArr):
        return np.ndarray
    if isinstance(x, Term):
        return {"R": float, "I": int, "B": bool}[x.sort]
    if isinstance(x, SymList):
        return list
    return type(x)


@model(builtins.hasattr)
def m_hasattr(I, o, n):
    I.asked = hasattr(o, "partial")
    try:
        I.getattr(o, n)
        return True
    except PyRaise as e:
        if issubclass(e.etype, AttributeError):
            return False
        raise


@model(builtins.getattr)
def m_getattr(I, o, n, *d):
    I.asked = bool(d) and hasattr(o, "partial")
    try:
        return I.getattr(o, n)
    except PyRaise as e:
        if d and issubclass(e.etype, AttributeError):
            return d[0]
        raise


@model(builtins.setattr)
def m_setattr(I, o, n, v):
    I.setattr(o, n, v)


@model(builtins.callable)
def m_callable(I, x):
    from .interp import Fn, Bound, Model
    return isinstance(x, (Fn, Bound, Model)) or callable(x)


@model(builtins.vars)
def m_vars(I, x):
    return x.attrs


@model(builtins.dict)
def m_dict(I, *a, **k):
    d = {}
    if a:
        x = a[0]
        if isinstance(x, dict):
            d.update(x)
        else:
            for kk, v in I.iterate(x):
                d[kk] = v
    d.update(k)
    return d


@model(builtins.id)
def m_id(I, x):
    return id(x)


@model(np.ndim)
def m_ndim(I, x):
    return A(lz(x)).ndim


@model(np.shape)
def m_shape(I, x):
    return A(lz(x)).shape


@model(np.size)
def m_size(I, x):
    return A(lz(x)).size()


@model(np.isscalar)
def m_isscalar(I, x):
    return I.is_scalar(x) or isinstance(x, str)


# ------------------------------------------------------------------ attributes
def note_write(I, a):
    pass


def arr_attr(I, a, name):
    from .interp import Model
    if isinstance(a, Masked):
        if name == "size":
            return mask_count(I, a.mask)
        if name == "T" and a.full.ndim == 1:
            return a
        if name == "ndim":
            return a.full.ndim - a.mask.ndim + 1
        if name == "reshape":
            return Model(lambda I, *sh: masked_reshape(a, sh))
        if name in ("copy",):
            return Model(lambda I: Masked(a.full.copy(), a.mask))
        if name in ("astype",):
            return Model(lambda I, dt: Masked(cast(a.full.copy(), _dtype_kind(dt, None)), a.mask))
        if name == "shape":
            return (mask_count(I, a.mask),) + a.full.shape[a.mask.ndim:]
        if name == "any":
            return Model(lambda I: unw(T.lnot(forall_cond(I, SArr(a.mask.shape, lambda i: T.lnot(T.land(T.tobool(a.mask.at(i)), T.tobool(a.full.at(i)))), "b"), "any"))))
        raise Unsupported("selection.%s" % name)
    if isinstance(a, IdxSet):
        if name == "size":
            return mask_count(I, a.mask)
        raise Unsupported("index set .%s" % name)
    if isinstance(a, SymRange):
        a = as_arr(a)
    if name == "T":
        return transpose(a)
    if name == "shape":
        return a.shape
    if name == "ndim":
        return a.ndim
    if name == "size":
        return a.size()
    if name == "dtype":
        return {"f": np.dtype(float), "i": np.dtype(int), "b": np.dtype(bool), "o": np.dtype(object)}[a.kind]
    if name == "flat":
        return reshape(I, a, (-1,))
    m = _METH.get(name)
    if m is not None:
        return Model(lambda I, *x, **k: m(I, a, *x, **k), "ndarray." + name)
    if not hasattr(np.ndarray, name):
        raise PyRaise(AttributeError, ("'numpy.ndarray' object has no attribute %s" % name,))
    raise Unsupported("ndarray.%s" % name)


def masked_reshape(a, sh):
    if len(sh) == 1 and isinstance(sh[0], tuple):
        sh = sh[0]
    sh = list(sh)
    if a.mask.ndim == 1 and sh and sh[0] == -1:
        full_ = a.full
        tail = full_.shape[1:]
        n1 = 1
        for d in tail:
            n1 *= d
        n2 = 1
        for d in sh[1:]:
            n2 *= d
        if n1 == n2:
            return Masked(reshape(None, full_, (full_.shape[0],) + tuple(sh[1:])), a.mask)
    raise Unsupported("reshape of a selection")


def _tolist(I, a):
    if a.ndim == 0:
        return a.at(())
    if isinstance(a.shape[0], Term):
        if a.ndim == 1:
            g = a.snapshot()
            return SymList(a.shape[0], lambda i: g((i,)))
        c = a.copy()
        return SymList(a.shape[0], lambda i: _tolist(I, getitem(c, i)))
    return a.tolist_nested()


def _astype(I, a, dt, **k):
    return cast(a.copy(), _dtype_kind(dt, None))


_METH = {
    "reshape": lambda I, a, *s, **k: reshape(I, a, _shape2(s[0] if len(s) == 1 else s)),
    "copy": lambda I, a, *x: a.copy(),
    "flatten": lambda I, a: flatten(a),
    "ravel": lambda I, a: reshape(I, a, (-1,)),
    "tolist": _tolist,
    "astype": _astype,
    "transpose": lambda I, a, *ax: transpose(a, None if not ax else (ax[0] if isinstance(ax[0], (tuple, list)) else ax)),
    "dot": lambda I, a, b: m_dot(I, a, b),
    "sum": lambda I, a, axis=None, **k: m_sum(I, a, axis=axis, **k),
    "prod": lambda I, a, axis=None: m_prod(I, a, axis=axis),
    "cumsum": lambda I, a, axis=None: m_cumsum(I, a, axis=axis),
    "mean": lambda I, a, axis=None: m_mean(I, a, axis=axis),
    "min": lambda I, a, axis=None: _minmax(I, a, axis, T.lt, "argmin"),
    "max": lambda I, a, axis=None: _minmax(I, a, axis, T.gt, "argmax"),
    "argmin": lambda I, a, axis=None: MODELS[np.argmin](I, a, axis=axis),
    "argmax": lambda I, a, axis=None: MODELS[np.argmax](I, a, axis=axis),
    "any": lambda I, a, axis=None, **k: m_any(I, a, axis=axis, **k),
    "all": lambda I, a, axis=None, **k: m_all(I, a, axis=axis, **k),
    "squeeze": lambda I, a, axis=None: m_squeeze(I, a, axis),
    "item": lambda I, a, *i: a.at(tuple(i)) if i else sc(a),
    "fill": lambda I, a, v: setitem(a, Ellipsis, v),
    "clip": lambda I, a, lo=None, hi=None, **k: m_clip(I, a, lo, hi, **k),
    "round": lambda I, a, d=0: m_round(I, a, d),
    "repeat": lambda I, a, r, axis=None: m_repeat(I, a, r, axis),
    "diagonal": lambda I, a, *x, **k: m_diagonal(I, a, *x, **k),
    "trace": lambda I, a, *x, **k: m_trace(I, a, *x, **k),
    "nonzero": lambda I, a: m_where(I, a),
    "swapaxes": lambda I, a, x, y: m_swapaxes(I, a, x, y),
    "searchsorted": lambda I, a, v, side="left": m_searchsorted(I, a, v, side),
    "__len__": lambda I, a: m_len(I, a),
}


def symlist_attr(I, o, name):
    from .interp import Model
    if name in ("index", "append", "extend", "insert", "sort", "pop"):
        raise Unsupported("list.%s on a symbolic length" % name)
    if name == "copy":
        return Model(lambda I: SymList(o.n, o.get))
    raise PyRaise(AttributeError, ("'list' object has no attribute %s" % name,))


def symlist_getitem(I, o, k):
    if isinstance(o, SymRange):
        o = I.iterate(o)
    if isinstance(k, slice):
        from .arrays import slice_bounds
        st, ln, step = slice_bounds(k, o.n, I.ctx.decide)
        return SymList(ln, lambda i: o.get(T.iadd(st, T.imul(i, step))))
    if T.isint(k):
        return o.get(norm_index(k, o.n))
    raise PyRaise(TypeError, ("list indices",))


def scalar_attr(I, t, name):
    from .interp import Model
    if name == "ndim":
        return 0
    if name == "shape":
        return ()
    if name == "size":
        return 1
    if name == "T" or name == "real":
        return t
    if name in ("item",):
        return Model(lambda I: t)
    if name == "copy":
        return Model(lambda I: t)
    if name in ("reshape", "flatten", "ravel", "astype", "any", "all", "sum", "min", "max", "round", "tolist", "dot", "clip", "mean"):
        a = scalar_arr(t)
        return Model(lambda I, *x, **k: unarr(_METH[name](I, a, *x, **k)))
    if name == "is_integer":
        return Model(lambda I: unw(T.eq(T.toreal(T.floor(t)), t)))
    raise PyRaise(AttributeError, ("scalar has no attribute %s" % name,))


def masked_getitem(I, o, k):
    k = I.key(k) if not isinstance(k, tuple) else tuple(I.key(x) for x in k)
    if isinstance(k, tuple) and k and isinstance(k[0], slice) and k[0] == slice(None) and o.mask.ndim == 1:
        return Masked(getitem(o.full, k, I.ctx.decide), o.mask)
    if isinstance(k, tuple) and k and k[0] is Ellipsis:
        return Masked(getitem(o.full, k, I.ctx.decide), o.mask)
    if k is None:
        raise Unsupported("newaxis on a selection")
    if T.isint(k) and o.mask.ndim == 1:
        j = nth_selected(I, o.mask, k)
        return getitem(o.full, j, I.ctx.decide)
    raise Unsupported("indexing a selection")


def nth_selected(I, m, k):
    """index of the first / last selected element (emptiness raises)"""
    n = m.shape[0]
    g = m.snapshot()
    if isinstance(k, Term) or k not in (0, -1):
        raise Unsupported("k-th selected element")
    ne = T.lnot(forall_cond(I, SArr(m.shape, lambda i: T.lnot(T.tobool(g(i))), "b"), "nonempty"))
    if not I.ctx.branch(ne):
        raise PyRaise(IndexError, ("index 0 is out of bounds for axis 0 with size 0",))
    w = I.ctx.fresh("sel", "I")
    I.ctx.assume(T.land(T.le(0, w), T.lt(w, n), T.tobool(g((w,)))))
    if k == 0:
        I.ctx.quant.append((n, lambda i: T.implies(T.lt(i, w), T.lnot(T.tobool(g((i,)))))))
    else:
        I.ctx.quant.append((n, lambda i: T.implies(T.lt(w, i), T.lnot(T.tobool(g((i,)))))))
    return w


def idxset_getitem(I, o, k):
    if T.isint(k) and o.mask.ndim == 1:
        return nth_selected(I, o.mask, k)
    raise Unsupported("indexing an index set")


# ------------------------------------------------------------------ contexts
MODELS[np.errstate] = lambda I, **k: None
import contextlib
import warnings
MODELS[warnings.catch_warnings] = lambda I, **k: None
MODELS[warnings.simplefilter] = lambda I, *a, **k: None
MODELS[warnings.warn] = lambda I, *a, **k: None
MODELS[builtins.print] = lambda I, *a, **k: None


# ------------------------------------------------------------------ scipy Rotation
class Rot:
    """scipy Rotation.from_euler with concrete sequence: a 3x3 matrix"""
    def __init__(self, m):
        self.m = m


def _rot_axis(ax, t):
    c, s = T.cos(t), T.sin(t)
    z, o = T.const(0), T.const(1)
    if ax == "x":
        return [[o, z, z], [z, c, T.neg(s)], [z, s, c]]
    if ax == "y":
        return [[c, z, s], [z, o, z], [T.neg(s), z, c]]
    return [[c, T.neg(s), z], [s, c, z], [z, z, o]]


def _mm(a, b):
    return [[functools.reduce(T.add, [T.mul(a[i][k], b[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]


def m_from_euler(I, *a, degrees=False):
    if a and isinstance(a[0], type):
        a = a[1:]
    seq, ang = a[0], lz(a[1])
    if len(a) > 2:
        degrees = a[2]
    if isinstance(ang, SArr) and ang.ndim == 2 and not isinstance(ang.shape[1], Term):
        if ang.shape[1] != len(seq):
            raise PyRaise(ValueError, ("euler angles",))
        g = ang.snapshot()
        return RotBatch(ang.shape[0], lambda b: _euler(seq, [g((b, i)) for i in range(len(seq))], degrees))
    if isinstance(ang, SArr):
        if ang.ndim == 1 and not isinstance(ang.shape[0], Term):
            angs = [ang.at((i,)) for i in range(ang.shape[0])]
        else:
            raise Unsupported("batched rotation")
    else:
        angs = [ang]
    if len(angs) != len(seq):
        raise PyRaise(ValueError, ("euler angles",))
    return RotObj(_euler(seq, angs, degrees))


def _euler(seq, angs, degrees):
    angs = [to_rad(x) if degrees else T.toreal(x) for x in angs]
    m = None
    if seq.islower():
        # extrinsic: later rotations multiply on the left
        for ax, t in zip(seq, angs):
            r = _rot_axis(ax, t)
            m = r if m is None else _mm(r, m)
    else:
        for ax, t in zip(seq.lower(), angs):
            r = _rot_axis(ax, t)
            m = r if m is None else _mm(m, r)
    return m


class RotObj:
    def __init__(self, m):
        self.m = m


def rot_apply(r, I, v, inverse=False):
    v = A(lz(v))
    g = v.snapshot()
    m = r.m

    def get(i):
        p, c = i[:-1], i[-1]
        if isinstance(c, Term):
            raise Unsupported("component")
        row = [m[k][c] for k in range(3)] if inverse else m[c]
        return functools.reduce(T.add, [T.mul(row[k], g(p + (k,))) for k in range(3)])
    if v.shape[-1] != 3:
        raise PyRaise(ValueError, ("expected 3-vectors",))
    return SArr(v.shape, get, "f")


class RotBatch:
    def __init__(self, n, mf):
        self.n, self.mf = n, mf


def rotb_apply(r, I, v, inverse=False):
    v = A(lz(v))
    g = v.snapshot()
    if v.shape[-1] != 3:
        raise PyRaise(ValueError, ("expected 3-vectors",))
    one = v.ndim == 1
    N = r.n if one else v.shape[0]
    if not one and r.n != v.shape[0]:
        if r.n == 1 and not isinstance(r.n, Term):
            pass
        elif v.shape[0] == 1 and not isinstance(v.shape[0], Term):
            N = r.n
        else:
            raise Unsupported("batched rotation of another length")

    def get(i):
        b, c = i
        if isinstance(c, Term):
            raise Unsupported("component")
        m = r.mf(0 if r.n == 1 and not isinstance(r.n, Term) else b)
        row = [m[k][c] for k in range(3)] if inverse else m[c]
        q = () if one else ((0,) if v.shape[0] == 1 and not isinstance(v.shape[0], Term) else (b,))
        return functools.reduce(T.add, [T.mul(row[k], g(q + (k,))) for k in range(3)])
    return SArr((N, 3), get, "f")


def rot_matrix(r):
    m = r.m
    return SArr((3, 3), lambda i: m[i[0]][i[1]], "f")


try:
    from scipy.spatial.transform import Rotation as _R
    MODELS[_R.from_euler] = m_from_euler
except ImportError:   # pragma: no cover
    pass


import types


def m_namespace(I, *a, **k):
    from .interp import SObj
    o = SObj(types.SimpleNamespace)
    o.attrs.update(k)
    return o


MODELS[types.SimpleNamespace] = m_namespace
