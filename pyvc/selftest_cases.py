"""Programs on which the verifier's execution is compared with CPython's.

Each function's docstring declares its arguments: r a real, p a positive real, i a whole number (-6..6),
u a small natural number (1..4), b a bool, a<N> an array of N reals, m<N>x<M> a matrix, A an array of
symbolic length n, M an array of symbolic shape (n, 3), S an increasing array of symbolic length."""
import copy
import math
from copy import deepcopy
import numpy as np


def arith(x, y):
    "r p"
    return (x + y * 2 - 3 / y, -x, x ** 2, y ** 0.5, abs(x), x // 1, x % 2, y % 3, round(x), round(x, 1))


def division(x, u):
    "p u"
    return 6.0 / x, 7 / u, 1 / 4, 7 // 2, -7 // 2, -7 % 3, 7.5 // 2


def int_division(i, j):
    "i u"
    return i // 3, i % 3, divmod(i, 2), i / j, -i // 4, i * j, i - j


def numpy_zero(a):
    "a3"
    with np.errstate(divide="ignore", invalid="ignore"):
        b = np.array([a[0] * 0, a[1] * 0 + 1, a[2]])
        return np.nan_to_num(b[0] / b[0:1], nan=7), 1 / (b[1:] * 0 + 1)


def zero_over_zero(a):
    "a2"
    b = np.array(a) * 0
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.isnan(b / b), np.isnan(a / (b + 1)), np.nan_to_num(b / b)


def compare(x, y):
    "r r"
    if x < y < x + 3:
        return "between"
    elif x == y:
        return "same"
    return ("above" if y > x else "below"), x >= y, not x > 0


def boolean_values(x, i):
    "r i"
    return (x or 5), (i and 3), (i or "z"), not i, (x > 0 and i > 0), bool(i), (None or i)


def trig(x, p):
    "r p"
    return (np.sin(x), math.cos(x), np.tan(x / 10), np.arctan2(x, p), np.arccos(x / (1 + abs(x))),
            math.asin(x / (1 + abs(x))), np.arctan(x), np.exp(x / 9), np.log(p), np.sqrt(p), np.hypot(x, p))


def atan2_quadrants(x, y):
    "i i"
    return np.arctan2(y, x)


def degrees(x):
    "r"
    return np.radians(x), np.degrees(x), math.radians(x), math.degrees(x), np.deg2rad(x), np.rad2deg(x)


def floors(x):
    "r"
    return np.floor(x), np.ceil(x), math.floor(x), math.ceil(x), int(x), np.sign(x)


def clip(x, a):
    "r a4"
    return np.clip(x, -1, 1), np.clip(a, None, 0.5), np.maximum(a, 0), np.minimum(a, x), max(x, 0), min(x, 0, -2)


def modulo(x):
    "r"
    return x % 360, (x + 360) % 360, x % (2 * np.pi), np.mod(x, 5)


def while_loop(i):
    "u"
    s, k = 0, 0
    while k < i:
        s += k * 2
        k += 1
        if s > 3:
            break
    else:
        s -= 100
    return s, k


def for_loop(a):
    "a4"
    out = []
    for k, (x, y) in enumerate(zip(a[:-1], a[1:])):
        if k == 1:
            continue
        out.append((y - x) * k)
    return out


def for_else(a, x):
    "a3 r"
    for v in a:
        if v > x:
            r = v
            break
    else:
        r = x
    return r


def comprehension(a, x):
    "a4 r"
    return [v * x for v in a], sum(v for v in a), {k: v + 1 for k, v in enumerate(a)}, [i for i in range(5) if i % 2]


def comp_filter(a):
    "a3"
    return [v for v in a if v > 0]


def nested(a):
    "a3"
    return [[x * y for x in a] for y in a[:2]]


def exceptions(x, i):
    "r i"
    try:
        if x > 0:
            raise ValueError("big")
        if i == 0:
            return 1 / i
        r = {"a": 1}["b" if i > 2 else "a"]
    except ValueError as e:
        r = str(e)
    except (KeyError, IndexError):
        r = "missing"
    finally:
        i = 10
    return r, i


def asserts(x):
    "r"
    assert x > 0, "no"
    return x


def uncaught(i):
    "i"
    return [1, 2, 3][i]


def closures(x):
    "r"
    def f(y, k=2, *args, z=1, **kw):
        return x + y * k + z + len(args) + sum(kw.values())
    g = lambda q: f(q, 3, 4, z=5, w=6)
    return f(1), g(2), f(k=1, y=0), f(*[1, 2, 3], **{"z": 9, "t": 2})


def default_shared(x):
    "r"
    def f(v, acc=[]):
        acc.append(v)
        return len(acc)
    return f(x), f(x), f(x, [])


def _shared(v, acc=[]):
    acc.append(v)
    n = len(acc)
    if n > 2:
        acc.clear()
    return n


def module_default_shared(x):
    "r"
    return _shared(x), _shared(x), _shared(x), _shared(x, [])


class Base:
    kind = "base"
    n = 0

    def __init__(self, a, b=2):
        self.a = a
        self.b = b

    @property
    def total(self):
        return self.a + self.b

    @staticmethod
    def twice(x):
        return 2 * x

    @classmethod
    def make(cls, x):
        return cls(x)

    def __eq__(self, o):
        return self.a == o.a

    def __add__(self, o):
        return Base(self.a + o.a)

    def __len__(self):
        return 3

    def __getitem__(self, k):
        return self.a * k


class Derived(Base):
    kind = "derived"

    def __init__(self, a):
        super().__init__(a, b=5)
        self.c = self.twice(a)

    def area(self):
        return self.total + self.c


def objects(x, y):
    "r r"
    d, e = Derived(x), Derived.make(y)
    s = d + e
    d.b += 1
    Base.n
    return (d.area(), e.total, s.a, s.b, d.kind, Base.kind, isinstance(d, Base), isinstance(s, Derived), len(d), d[4],
            d == Base(x), hasattr(d, "zz"), getattr(d, "zz", 8), type(e).__name__, d.__dict__.keys() == {"a", "b", "c"})


def aliasing(x):
    "r"
    a = [x, 2]
    b = a
    c = list(a)
    b[0] = 9
    d = {"l": a}
    e = copy.copy(d)
    f = deepcopy(d)
    a.append(4)
    return a, b, c, d["l"], e["l"], f["l"], a is b


def arr_views(a):
    "a5"
    a = np.array(a)
    v = a[1:4]
    v[0] = 100
    w = a.copy()
    w[2] = -5
    f = a[[0, 1]]
    f[0] = 77
    r = a.reshape(-1)
    r[4] = 3
    return a, v, w, f


def arr_aug(a):
    "a3"
    a = np.array(a)
    b = a
    b += 1
    c = a
    c = c + 1
    a[0] -= 5
    return a, b, c


def indexing(m):
    "m3x4"
    return (m[0], m[-1], m[:, 1], m[1:, ::2], m[..., 0], m[::-1], m.T[2], m[None, 0].shape, m[[0, 2], 1], m[1][2],
            m[:, [0, 2]], m[:, -2:], m.shape, m.size, m.ndim, len(m))


def masks(a):
    "a4"
    a = np.array(a)
    m = a > 0
    b = np.where(m, a, -a)
    a[m] = 1
    c = np.where(a < 0, 0, a)
    a[a < -1] *= 2
    return a, b, c, ~m, m & (a > 5), m | (a < -1)


def bool_reduce(a):
    "a3"
    return np.all(a > 0), np.any(a > 1), (a > 0).all(), all(x > -1 for x in a), any([x > 2 for x in a])


def reductions(m):
    "m3x2"
    return (m.sum(), m.sum(axis=0), np.sum(m, axis=1), m.mean(axis=0), np.cumsum(m[:, 0]), np.cumsum(m, axis=0),
            np.prod(m[0]), np.diff(m[:, 0]), np.diff(m, axis=0), m.max(), np.min(m, axis=0), np.linalg.norm(m, axis=-1),
            np.linalg.norm(m[:, 0]), np.sum(m, axis=1, keepdims=True))


def arg_reductions(a):
    "a3"
    return np.argmax(a), np.argmin(a), max(a), min(a), np.argmax(a > 0)


def builders(a, x):
    "a3 r"
    return (np.zeros(3), np.ones((2, 2)), np.full(3, x), np.zeros_like(a), np.ones_like(a) * x, np.eye(3), np.arange(4),
            np.arange(1, 7, 2), np.linspace(0, x, 5), np.tile(a, 2), np.tile(a, (2, 1)), np.repeat(a, 2), np.roll(a, 1),
            np.flip(a), np.array([a, a]), np.array([[x, 1], [2, x]]), np.full_like(a, 2), np.diag(a), np.linspace(1, 2, 3))


def stacking(a, b):
    "a3 a3"
    return (np.concatenate([a, b]), np.stack([a, b]), np.vstack((a, b)), np.hstack((a, b)), np.column_stack([a, b]),
            np.append(a, 5), np.insert(a, 0, 7), np.insert(a, 2, b[0]), np.array([a, b]).T,
            np.stack((a, b), axis=1), np.stack((a, b), axis=-1), np.concatenate([[0], a]), np.atleast_2d(a), np.append(a, b))


def shapes(m):
    "m2x6"
    return (m.reshape(3, 4), m.reshape(-1, 3), m.reshape(2, 2, 3), m.T, m.ravel(), m.flatten(), np.expand_dims(m, 1).shape,
            np.squeeze(m[0:1]), m.reshape(2, 3, 2).transpose(1, 0, 2), np.swapaxes(m.reshape(2, 3, 2), 0, 2),
            np.broadcast_to(m[0], (3, 6)), m[:, None, :] * m[None, :, :])


def linear(a, m):
    "a3 m3x3"
    return (np.dot(a, a), np.dot(m, a), m @ m, a @ m, np.cross(a, m[0]), np.outer(a, a), np.trace(m), np.einsum("ij,j->i", m, a),
            np.einsum("ijk,kj->i", np.array([m, m.T]), m), m.dot(a), np.inner(a, a), np.diagonal(m), np.cross(m, a),
            np.einsum("ii", m), np.einsum("ij,ij->i", m, m), np.matmul(m, m.T))


def inverse(m):
    "m3x3"
    return np.linalg.inv(m + 20 * np.eye(3))


def types(x, i, b):
    "r i b"
    return (isinstance(x, float), isinstance(i, int), isinstance(b, bool), float(i), int(b), b + 1, x is None,
            isinstance(x, (list, tuple)), type(i) is int, np.isscalar(x))


def int_array(a):
    "a3"
    k = np.array([1, 2, 3])
    k[1] = 7.9
    z = np.zeros(3, dtype=int)
    z[0] = 2.7
    return k, z, a.astype(int), k / 2, k // 2, k * 1.5


def dicts(x):
    "r"
    d = {"a": x, "b": 2}
    d["c"] = 3
    e = dict(d, z=1)
    d.update(a=5)
    e.pop("b")
    return (list(d), list(d.values()), list(e.items()), d.get("q", 4), d.get("a"), "b" in d, "b" in e, d.setdefault("k", 9),
            len(d), {**d, "b": 0}["b"])


def lists(x):
    "r"
    l = [3, 1, 2]
    l.extend([x])
    l.insert(0, 8)
    p = l.pop()
    m = l[::-1]
    l[1:3] = [7]
    del m[0]
    return l, p, m, sorted([3, 1, 2], reverse=True), l + [1], [0] * 3, l.index(7), l.count(7), (1, 2) + (3,), l[-1]


def strings(i):
    "u"
    s = "Line {} of".format(i)
    t = "Line of"
    return t.lower(), t.split(), f"{2}-{'x'}", "a,b".split(","), t.replace("Line", "L"), "x".join(["1", "2"]), t[0:4], \
        t.startswith("Li"), "%s/%d" % ("k", 3), "ab" * 2, "in" in t, t.strip().upper(), "{} {}".format(1, "b"), t.index("o")


def unpacking(a):
    "a4"
    x, y, *r = a
    (p, q), z = (x, y), r[0]
    p, q = q, p
    return x, y, list(r), p, q, z


def generators(i):
    "u"
    def g(n):
        for k in range(n):
            yield k * k
    return list(g(4)), [i * k for k in g(3)], sum(g(3)), next(g(2)), list(map(lambda v: v + 1, [1, 2])), list(filter(None, [0, 1])), list(reversed([1, 2]))


def walrus_ternary(x):
    "r"
    y = (z := x * 2) + 1
    return y, z, ("p" if x > 0 else "n" if x < 0 else "0")


def searching(x):
    "r"
    g = np.array([0.0, 1.0, 2.5, 4.0])
    return np.searchsorted(g, x), np.searchsorted(g, x, side="right"), np.searchsorted(g, 2.5), np.searchsorted(g, 2.5, side="right")


def isclose(x):
    "i"
    return np.isclose(1 + 1e-9, 1), np.allclose([1, 1.0], [0, 1]), math.isclose(1, 1 + 1e-12)


def select(a):
    "a3"
    return np.select([a > 1, a > 0], [a * 2, a * 3], default=-1), np.nan_to_num(np.array([np.nan, 1.0, np.inf]), posinf=3)


def nans(x):
    "r"
    a = np.array([x, np.nan])
    return np.isnan(a), np.isnan(a + 1), a[1] == a[1], a[1] < 3, a[1] > 3, np.nan_to_num(a * 2), np.isnan(np.nan * 0), np.nan != 1


def infs(x):
    "p"
    return np.inf > x, -np.inf < x, x / np.inf, np.isinf(np.inf - x), np.isnan(np.inf - np.inf), min(np.inf, x), 1 / np.inf


def sqrt_negative(x):
    "i"
    with np.errstate(invalid="ignore"):
        return np.isnan(np.sqrt(np.array([x * 1.0])))


def arccos_outside(x):
    "r"
    with np.errstate(invalid="ignore"):
        return np.isnan(np.arccos(x))


def sym_elementwise(a, x):
    "A r"
    b = np.array(a) * 2 + x
    b[0] = 7
    b[1:] += 1
    return b, a[::-1], np.where(a > x, a, x), -a[:-1], a[1:] - a[:-1], np.diff(a), len(a), a.shape, a[-1]


def sym_rows(m):
    "M"
    return m[:, 0], m.T[1], m.T, m[1:] - m[:-1], m[-1], m.reshape(-1, 3), m.shape, np.linalg.norm(m, axis=1), m[:, ::-1], m[:, :2]


def sym_stack(a, m):
    "A M"
    return (np.concatenate([[0.0], a]), np.column_stack([a, a * 2]), np.array([a, a]).T, np.hstack((0, a)), np.vstack((m, m)),
            np.append(a, 3.0), np.insert(a, 0, 9.0), np.concatenate((m[:1], m)), np.stack((a, a), axis=1), np.zeros_like(a), np.ones(len(a)))


def sym_along(m):
    "M"
    def f(r, k=1):
        return np.array([r[0] + r[2] * k, r[1] if r[1] > 0 else -r[1]])
    return (np.apply_along_axis(f, -1, m), np.apply_along_axis(f, -1, m, 3), np.apply_along_axis(f, 0, m[0]),
            np.apply_along_axis(lambda r: np.sum(r), -1, m), np.apply_along_axis(f, -1, np.array([[1., 2., 3.], [4., -5., 6.]]), k=2))


def sym_cumsum(a, m):
    "A M"
    return np.cumsum(a), np.cumsum(m, axis=0), np.cumsum(np.diff(a)), np.concatenate(([0.0], np.cumsum(a[1:]))), np.sum(a), a.sum() / len(a)


def sym_for(a):
    "A"
    out = []
    for k, v in enumerate(a):
        out.append(v * k)
    return out, [v + 1 for v in a], [x - y for x, y in zip(a, a[1:])] if len(a) > 1 else 0


def sym_fill(a):
    "A"
    z = np.zeros(len(a))
    for k in range(len(a)):
        z[k] = a[k] * 2 + k
    return z


def sym_einsum(m):
    "M"
    return np.einsum("ij,ik->ijk", m, m), np.einsum("ij,ij->i", m, m), m @ np.eye(3), np.cross(m, m[::-1]), m @ np.diag([1, 2, 3])


def sym_index_arrays(a):
    "A"
    k = np.arange(len(a))
    return a[k], k * 2, np.repeat(a, 2), np.tile(a, 2), np.roll(a, 1), np.flip(a), np.full(len(a), 3.0), np.arange(1, len(a))


def sym_search(s, x):
    "S r"
    k = np.searchsorted(s, x, side="left")
    j = np.searchsorted(s, x, side="right")
    return k, j, j >= k


def sym_mod(a):
    "A"
    return a % 360, np.floor(a), np.abs(a), np.clip(a, 0, 1), np.sqrt(np.abs(a)), np.radians(a), np.sin(a), np.maximum(a, 0)


def sym_zero_div(a):
    "A"
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(a == 0, 1, np.nan_to_num(a / np.where(a == 0, 1, a)))


def sym_while(n):
    "u"
    k = 0
    while k < n:
        k += 1
    return k


def sym_setrow(m, a):
    "M a3"
    m = np.array(m)
    m[0] = a
    m[-1] = 1
    m[:, 1] = 5
    m[1:, 2] *= 2
    return m


def in_place_argument(m):
    "m2x2"
    def f(q):
        q[0, 0] = 99
        q = q * 2
        return q
    n = np.array(m)
    r = f(n)
    return n, r


def star_args(a):
    "a3"
    def f(*xs, scale=1):
        return [x * scale for x in xs]
    return f(*a), f(*a, scale=2), (lambda *v: len(v))(*a, 1)


def with_and_try(x):
    "r"
    r = []
    try:
        try:
            if x > 0:
                raise KeyError("k")
            r.append("ok")
        finally:
            r.append("fin")
    except KeyError:
        r.append("caught")
    else:
        r.append("else")
    return r


def type_dispatch(a):
    "a3"
    return (isinstance(a, np.ndarray), np.array(a).dtype == float, a.tolist(), list(a), tuple(a), np.asarray(a) is a,
            np.atleast_1d(3.0), np.ndim(2.0), np.shape(a))


def chained(x):
    "r"
    a = b = [x]
    a += [1]
    c = (a, b)
    x += 1
    x *= 2
    x -= 3
    x /= 4
    return a, b, x, c[0] is b


def int_pow(i, u):
    "i u"
    return i ** 2, 2 ** u, (-1) ** u, i ** u, 10 ** -2


def ranges(u):
    "u"
    return (list(range(u)), list(range(1, u + 1)), list(range(5, 0, -2)), [k for k in range(4) if k != 1], len(range(2, 9, 3)),
            list(enumerate("ab")), [k * 2 for k in range(u)])


def sets(u):
    "u"
    return 2 in {1, 2}, u not in (3, 4), len({1, 1, 2}), u in [1, 2, 3], None in [1, None], sorted({3, 1})


def short_circuit(x):
    "r"
    r = []
    def f(v):
        r.append(1)
        return v
    x > 0 and f(1)
    x > 0 or f(2)
    return len(r)
