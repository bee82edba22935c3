"""Symbolic arrays: a shape (ints or Int terms) and an index->element function.

Basic slices, transposes and newaxis give views that share storage with
their base, as numpy's do, so that writes and frame conditions mean the same.
"""
import itertools
import numpy as np
from . import terms as T
from .terms import Term


class Unsupported(Exception):
    """construct outside the verifier's reach (never an alarm by itself)"""


class PyRaise(Exception):
    """the interpreted program raises"""
    def __init__(self, etype, args=()):
        super().__init__(etype, args)
        self.etype, self.eargs = etype, args


_cellc = itertools.count()

# the context in force: its decision procedure, and a generation number so
# that values computed under extra hypotheses are not reused outside them
CUR = {"decide": None, "gen": 0}


def cur_decide(c):
    d = CUR["decide"]
    return d(c) if d is not None else T.bval(T.tobool(c))


def _memoised(get):
    memo = {}

    def g(idx):
        k = (CUR["gen"], idx)
        r = memo.get(k)
        if r is None:
            r = memo[k] = get(idx)
        return r
    return g


_written = [0]


def cells_written():
    return _written[0]


class Cell:
    __slots__ = ("get", "id", "writes", "tag")

    def __init__(self, get, tag=None):
        self.get = _memoised(get)
        self.id = next(_cellc)
        self.writes = 0
        self.tag = tag

    def update(self, get):
        self.writes += 1
        _written[0] += 1
        self.get = _memoised(get)


def dim_eq(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a == b
    if a is b:
        return True
    d = T.isub(a, b)
    if not isinstance(d, Term):
        return d == 0
    return None  # unknown


class SArr:
    """array value"""
    __array_ufunc__ = None

    def __init__(self, shape, get=None, kind="f", cell=None, fwd=None, inv=None, tag=None):
        self.shape = tuple(shape)
        self.kind = kind
        self.cell = cell or Cell(get, tag)
        self.fwd = fwd      # view idx -> base idx
        self.inv = inv      # base idx -> (cond, view idx)

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        """element at a full index tuple (already normalised, non-negative)"""
        if self.fwd is not None:
            idx = self.fwd(idx)
        return self.cell.get(idx)

    def snapshot(self):
        """value getter immune to later writes"""
        g = self.cell.get
        f = self.fwd
        if f is None:
            return g
        return lambda idx: g(f(idx))

    def copy(self, kind=None):
        return SArr(self.shape, self.snapshot(), kind or self.kind)

    def concrete_shape(self):
        return all(not isinstance(d, Term) for d in self.shape)

    def indices(self):
        if not self.concrete_shape():
            raise Unsupported("enumeration of an array of symbolic length")
        return itertools.product(*[range(d) for d in self.shape])

    def size(self):
        n = 1
        for d in self.shape:
            n = T.mul(n, d) if isinstance(n, Term) or isinstance(d, Term) else n * d
        return n

    def view(self, shape, fwd, inv):
        """fwd: new idx -> self idx; inv: self idx -> (cond, new idx)"""
        of, oi = self.fwd, self.inv
        if of is None:
            f2, i2 = fwd, inv
        else:
            f2 = lambda idx: of(fwd(idx))

            def i2(b, oi=oi, inv=inv):
                if oi is None or inv is None:
                    raise Unsupported("write through a complex view")
                c1, v = oi(b)
                if c1 is T.FALSE:
                    return T.FALSE, None
                c2, w = inv(v)
                return T.land(c1, c2), w
        return SArr(shape, kind=self.kind, cell=self.cell, fwd=f2, inv=i2)

    def store(self, cond, val):
        """in place: element v becomes val(v) where cond(v)"""
        old = self.cell.get
        inv = self.inv
        conv = (lambda x: T.toreal(x)) if self.kind == "f" else (lambda x: x)

        def g(b):
            if inv is None:
                c, v = T.TRUE, b
            else:
                c, v = inv(b)
            if c is T.FALSE:
                return old(b)
            cc = T.land(c, cond(v)) if c is not T.TRUE else T.tobool(cond(v))
            if cc is T.FALSE:
                return old(b)
            if cc is T.TRUE:
                return conv(val(v))
            return T.ite(cc, conv(val(v)), old(b))
        self.cell.update(g)

    def tolist_nested(self):
        if not self.concrete_shape():
            raise Unsupported("tolist of symbolic-length array")

        def rec(pre, dims):
            if not dims:
                return self.at(tuple(pre))
            return [rec(pre + [i], dims[1:]) for i in range(dims[0])]
        return rec([], list(self.shape))

    def __repr__(self):
        if self.concrete_shape() and np.prod([int(d) for d in self.shape] or [1]) <= 12:
            return "SArr%s" % (self.tolist_nested(),)
        return "SArr(shape=%s)" % (self.shape,)


class Masked:
    """a[mask]: the selected elements of a, in order (length unknown)"""
    def __init__(self, full, mask):
        self.full, self.mask = full, mask


class IdxSet:
    """np.where(mask)[axis]: the indices at which mask holds"""
    def __init__(self, mask, axis=0):
        self.mask, self.axis = mask, axis


def kind_of(x):
    if isinstance(x, SArr):
        return x.kind
    if isinstance(x, Masked):
        return x.full.kind
    if isinstance(x, Term):
        return {"R": "f", "I": "i", "B": "b"}[x.sort]
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    return "o"


_ORD = {"b": 0, "i": 1, "f": 2, "o": 3}


def join_kind(*ks):
    return max(ks, key=lambda k: _ORD[k])


def norm_scalar(x):
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return T.const(float(x))
    return x


def conv_elem(x, kind):
    if kind == "f":
        if x is None:
            return T.NAN
        return T.toreal(x)
    if kind == "i":
        if isinstance(x, Term) and x.sort == "R":
            # C truncation
            c = T.cval(x)
            if c is not None:
                return int(c)
            return T.ite(T.le(0, x), T.floor(x), T.neg(T.floor(T.neg(x))))
        if isinstance(x, Term) and x.sort == "B":
            return T.ite(x, 1, 0)
        return x
    return x


def from_numpy(a):
    a = np.asarray(a)
    kind = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(a.dtype.kind, "o")
    vals = {}
    for idx in np.ndindex(*a.shape):
        v = a[idx]
        if kind == "o":
            v = norm_scalar(v)
        else:
            v = norm_scalar(v)
            if kind == "f":
                v = T.toreal(v)
        vals[idx] = v
    return SArr(a.shape, table_getter(vals, a.shape), kind)


def table_getter(vals, shape):
    def g(idx):
        try:
            return vals[idx]
        except (KeyError, TypeError):
            pass
        # symbolic index into a concrete table: ite chain
        def rec(pre, k):
            if k == len(idx):
                return vals[tuple(pre)]
            i = idx[k]
            if not isinstance(i, Term):
                return rec(pre + [i], k + 1)
            n = shape[k]
            r = rec(pre + [n - 1], k + 1)
            for j in range(n - 2, -1, -1):
                r = T.ite(T.eq(i, j), rec(pre + [j], k + 1), r)
            return r
        return rec([], 0)
    return g


def full(shape, val, kind=None):
    kind = kind or kind_of(val)
    v = conv_elem(val, kind)
    return SArr(shape, lambda idx: v, kind)


def scalar_arr(x):
    if isinstance(x, SArr):
        return x
    x = norm_scalar(x)
    k = kind_of(x)
    return SArr((), lambda idx: x, k)


def as_arr(x):
    """anything array-like -> SArr (copying nested sequences)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return from_numpy(x)
    if isinstance(x, Masked):
        return x
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, SymRange):
        return SArr((x.n,), lambda idx: T.iadd(x.start, idx[0]) if x.step == 1 else
                    T.iadd(x.start, T.iscale(idx[0], x.step)), "i")
    if isinstance(x, SymList):
        return x.to_arr()
    if isinstance(x, (list, tuple)):
        els = [as_arr(e) if isinstance(e, (list, tuple, SArr, np.ndarray, range, SymList)) else scalar_arr(e) for e in x]
        if not els:
            return SArr((0,), lambda idx: T.const(0), "f")
        shapes = [e.shape for e in els]
        sh = shapes[0]
        for s in shapes[1:]:
            if len(s) != len(sh) or any(dim_eq(a, b) is False for a, b in zip(s, sh)):
                raise PyRaise(ValueError, ("inhomogeneous shape",))
            if any(dim_eq(a, b) is None for a, b in zip(s, sh)):
                raise Unsupported("array of rows with unrelated symbolic lengths")
        kind = join_kind(*[e.kind for e in els])
        if any(e.kind == "o" for e in els) and all(
                e.kind in "fi" or (e.kind == "o" and e.ndim == 0 and e.at(()) is None) for e in els):
            kind = "o"
        gs = [e.snapshot() for e in els]

        def g(idx):
            i = idx[0]
            if not isinstance(i, Term):
                return conv_elem(gs[i](idx[1:]), kind) if kind != "o" else gs[i](idx[1:])
            r = conv_elem(gs[-1](idx[1:]), kind)
            for j in range(len(gs) - 2, -1, -1):
                r = T.ite(T.eq(i, j), conv_elem(gs[j](idx[1:]), kind), r)
            return r
        return SArr((len(els),) + sh, g, kind)
    return scalar_arr(x)


class SymRange:
    """range/arange of symbolic length"""
    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = start, n, step


class SymList:
    """list (or iterator) of symbolic length: index -> python value"""
    def __init__(self, n, get):
        self.n, self.get = n, get

    def to_arr(self):
        probe = T.var("!probe", "I")
        v = self.get(probe)
        v = as_arr(v)
        get = self.get

        def g(idx):
            e = as_arr(get(idx[0]))
            return e.at(idx[1:])
        return SArr((self.n,) + v.shape, g, v.kind)


def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            e = s[j]
            if not isinstance(e, Term) and e == 1:
                continue
            if not isinstance(d, Term) and d == 1:
                d = e
                continue
            q = dim_eq(d, e)
            if q is True:
                continue
            if q is False:
                raise PyRaise(ValueError, ("operands could not be broadcast together",))
            # an extra run-time length check numpy would do; unprovable here
            raise Unsupported("broadcast of %s with %s" % (d, e))
        out.append(d)
    return tuple(out)


def bget(a, shape):
    """getter for a broadcast to shape"""
    g = a.snapshot()
    if len(a.shape) == len(shape) and all(dim_eq(x, y) is True for x, y in zip(a.shape, shape)):
        return g
    off = len(shape) - len(a.shape)
    ones = [not isinstance(d, Term) and d == 1 for d in a.shape]

    def h(idx):
        return g(tuple(0 if ones[k] else idx[off + k] for k in range(len(ones))))
    return h


def same_mask(m1, m2):
    if m1 is m2:
        return True
    if len(m1.shape) != len(m2.shape):
        return False
    if any(dim_eq(a, b) is not True for a, b in zip(m1.shape, m2.shape)):
        return False
    probe = tuple(T.var("!m%d" % k, "I") for k in range(len(m1.shape)))
    return T.tobool(m1.at(probe)) is T.tobool(m2.at(probe))


def elementwise(f, kind, *xs):
    """apply f to broadcast elements"""
    if any(isinstance(x, Masked) for x in xs):
        ms = [x for x in xs if isinstance(x, Masked)]
        m = ms[0].mask
        for o in ms[1:]:
            if not same_mask(o.mask, m):
                raise Unsupported("operation between selections under different masks")
        for x in xs:
            if isinstance(x, SArr) and x.ndim:
                raise Unsupported("selection combined with a full array")
        r = elementwise(f, kind, *[x.full if isinstance(x, Masked) else x for x in xs])
        return Masked(r, m)
    arrs = [as_arr(x) if isinstance(x, (SArr, list, tuple, np.ndarray, SymRange, SymList)) else scalar_arr(x) for x in xs]
    sh = bshape(*[a.shape for a in arrs])
    gs = [bget(a, sh) for a in arrs]
    if not sh:
        return f(*[g(()) for g in gs])
    return SArr(sh, lambda idx: f(*[g(idx) for g in gs]), kind)


# ---------------------------------------------------------------- indexing
def norm_index(i, n):
    """index i (int / Int term) into a dimension n -> non-negative index.

    Symbolic indices are taken as given (in-range is an obligation elsewhere)."""
    if not isinstance(i, Term):
        i = int(i)
        if i < 0:
            if not isinstance(n, Term):
                if i + n < 0:
                    raise PyRaise(IndexError, ("index out of bounds",))
                return i + n
            return T.iadd(n, i)
        if not isinstance(n, Term) and i >= n:
            raise PyRaise(IndexError, ("index %d out of bounds" % i,))
        return i
    return i


def lin_divmod(x, d):
    """(x // d, x % d) for a linear form whose coefficients are multiples of d"""
    if not isinstance(x, Term):
        return x // d, x % d
    c, m = T._lin(x)
    if all(v % d == 0 for v in m.values()):
        return T._unlin(c // d, {k: v // d for k, v in m.items()}), c % d
    return None


def slice_bounds(s, n, decide=None):
    """-> (start, length, step) with step +-1 or concrete"""
    decide = cur_decide
    step = 1 if s.step is None else s.step
    if isinstance(step, Term):
        raise Unsupported("symbolic slice step")
    step = int(step)

    def nb(v, default):
        if v is None:
            return default
        if not isinstance(v, Term):
            v = int(v)
            if v < 0:
                r = T.iadd(n, v)
                if not isinstance(r, Term):
                    r = max(r, 0 if step > 0 else -1)
                elif decide is not None and decide(T.le(0, r)) is not True:
                    r = T.ite(T.le(0, r), r, 0)
                return r
            if not isinstance(n, Term):
                return min(v, n if step > 0 else n - 1)
            # symbolic n: need v <= n
            if v == 0:
                return 0
            if decide is not None and decide(T.le(v, n)) is True:
                return v
            return T.ite(T.le(v, n), v, n)
        # symbolic bound
        lo_ok = decide is not None and decide(T.le(0, v)) is True
        hi_ok = decide is not None and decide(T.le(v, n)) is True
        r = v
        if not lo_ok:
            r = T.ite(T.le(0, v), v, T.smax(T.iadd(v, n), 0))
        if not hi_ok:
            r = T.smin(r, n)
        return r
    if step > 0:
        st = nb(s.start, 0)
        en = nb(s.stop, n)
        ln = T.isub(en, st)
        if not isinstance(ln, Term):
            ln = max(0, -(-ln // step))
        else:
            if decide is None or decide(T.le(0, ln)) is not True:
                ln = T.smax(ln, 0)
            if step != 1:
                q = lin_divmod(T.iadd(ln, step - 1), step)
                if q is None:
                    raise Unsupported("strided slice of symbolic length")
                ln = q[0]
        return st, ln, step
    if step == -1:
        st = nb(s.start, T.isub(n, 1))
        en = nb(s.stop, None) if s.stop is not None else -1
        ln = T.isub(st, en)
        if not isinstance(ln, Term):
            ln = max(0, ln)
        elif decide is None or decide(T.le(0, ln)) is not True:
            ln = T.smax(ln, 0)
        return st, ln, -1
    raise Unsupported("slice step %d" % step)


def _expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nreal = sum(1 for k in key if k is not None and k is not Ellipsis and not
                (isinstance(k, SArr) and k.kind == "b" and k.ndim > 1)) + \
        sum(k.ndim for k in key if isinstance(k, SArr) and k.kind == "b" and k.ndim > 1)
    if any(k is Ellipsis for k in key):
        p = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[p:p + 1] = [slice(None)] * (a.ndim - nreal)
    else:
        key += [slice(None)] * (a.ndim - nreal)
    if sum(1 for k in key if k is not None) > a.ndim and not any(
            isinstance(k, SArr) and k.kind == "b" for k in key):
        raise PyRaise(IndexError, ("too many indices",))
    return key


def _is_int(k):
    return isinstance(k, (int, np.integer)) and not isinstance(k, (bool, np.bool_)) or isinstance(k, Term) and k.sort == "I"


def conv_key(k):
    if isinstance(k, np.ndarray):
        k = from_numpy(k)
    if isinstance(k, (list, range)):
        k = as_arr(k)
    if isinstance(k, SymRange):
        k = as_arr(k)
    if isinstance(k, SArr) and k.ndim == 0:
        return k.at(())
    return k


def concrete_mask(m, decide=None):
    """list of selected concrete indices if the mask is fully decided (by the hypotheses, where there are few)"""
    if not m.concrete_shape():
        return None
    sel = []
    few = decide is not None and m.ndim == 1 and m.shape[0] <= 8
    for idx in m.indices():
        b = T.bval(T.tobool(m.at(idx)))
        if b is None and few:
            b = decide(m.at(idx))
        if b is None:
            return None
        if b:
            sel.append(idx)
    return sel


def getitem(a, key, decide=None):
    if not isinstance(key, tuple):
        key = conv_key(key)
    else:
        key = tuple(conv_key(k) for k in key)
    keys = list(key) if isinstance(key, tuple) else [key]
    # masks
    if any(isinstance(k, IdxSet) for k in keys):
        ks = [k for k in keys if isinstance(k, IdxSet)]
        if len(keys) == len(ks) and all(same_mask(k.mask, ks[0].mask) for k in ks):
            if [k.axis for k in ks] == list(range(len(ks))):
                return mask_get(a, ks[0].mask, decide)
        if len(ks) == 1 and ks[0].mask.ndim == 1:
            keys = [k.mask if isinstance(k, IdxSet) else k for k in keys]
            key = tuple(keys)
        else:
            raise Unsupported("index-set indexing")
    bm = [k for k in keys if isinstance(k, SArr) and k.kind == "b"]
    if bm:
        if len(bm) > 1:
            raise Unsupported("several masks in one index")
        m = bm[0]
        if len(keys) == 1:
            return mask_get(a, m, decide)
        # mask in one axis plus other basic keys
        p = next(i for i, k in enumerate(keys) if k is m)
        if m.ndim != 1:
            raise Unsupported("mixed mask index")
        rest = list(keys)
        rest[p] = slice(None)
        sub = getitem(a, tuple(rest), decide)
        ax = sum(1 for k in rest[:p] if not _is_int(k))
        sel = concrete_mask(m)
        if sel is not None:
            ii = SArr((len(sel),), table_getter({(j,): s[0] for j, s in enumerate(sel)}, (len(sel),)), "i")
            kk = [slice(None)] * ax + [ii]
            return getitem(sub, tuple(kk), decide)
        if ax == 0:
            return mask_get(sub, m, decide)
        raise Unsupported("mask on a later axis")
    key = _expand_key(a, key)
    if any(isinstance(k, SArr) for k in key):
        return fancy_get(a, key, decide)
    # basic indexing -> view
    shape = []
    plan = []   # per base axis: ('i', idx) | ('s', pos, start, step)
    pos = 0
    ax = 0
    for k in key:
        if k is None:
            shape.append(1)
            pos += 1
            continue
        n = a.shape[ax]
        if _is_int(k):
            plan.append(("i", norm_index(k, n)))
        elif isinstance(k, slice):
            st, ln, step = slice_bounds(k, n, decide)
            shape.append(ln)
            plan.append(("s", pos, st, step))
            pos += 1
        elif isinstance(k, (bool, np.bool_)):
            raise Unsupported("bool scalar index")
        else:
            raise Unsupported("index %r" % (k,))
        ax += 1
    if not shape:
        return a.at(tuple(p[1] for p in plan))
    lens = shape

    def fwd(idx):
        out = []
        for p in plan:
            if p[0] == "i":
                out.append(p[1])
            elif p[3] == 1:
                out.append(T.iadd(p[2], idx[p[1]]))
            else:
                out.append(T.iadd(p[2], T.imul(idx[p[1]], p[3])))
        return tuple(out)

    def inv(b):
        cond = T.TRUE
        v = [0] * len(lens)
        for p, bi in zip(plan, b):
            if p[0] == "i":
                cond = T.land(cond, T.eq(bi, p[1]))
            else:
                if p[3] == 1:
                    k = T.isub(bi, p[2])
                elif p[3] == -1:
                    k = T.isub(p[2], bi)
                else:
                    d = T.isub(bi, p[2])
                    q = lin_divmod(d, p[3])
                    if q is None:
                        raise Unsupported("write through strided view")
                    if q[1]:
                        return T.FALSE, None
                    k = q[0]
                c = T.land(T.le(0, k), T.lt(k, lens[p[1]]))
                cond = T.land(cond, c)
                v[p[1]] = k
            if cond is T.FALSE:
                return T.FALSE, None
        return cond, tuple(v)
    return a.view(tuple(shape), fwd, inv)


def fancy_get(a, key, decide=None):
    """integer-array indexing (copy)"""
    arrs = [k for k in key if isinstance(k, SArr)]
    if any(k is None for k in key):
        raise Unsupported("newaxis with fancy index")
    # ints among fancy keys act as 0-d index arrays
    fpos = [i for i, k in enumerate(key) if isinstance(k, SArr) or _is_int(k)]
    contiguous = fpos == list(range(fpos[0], fpos[-1] + 1))
    fsh = bshape(*[k.shape for k in arrs])
    fget = {}
    for i in fpos:
        k = key[i]
        n = a.shape[i]
        if isinstance(k, SArr):
            g = bget(k, fsh)
            fget[i] = (lambda g, n: lambda idx: norm_index(g(idx), n))(g, n)
        else:
            v = norm_index(k, n)
            fget[i] = (lambda v: lambda idx: v)(v)
    sl = {}
    oshape = []
    for i, k in enumerate(key):
        if i in fget:
            continue
        st, ln, step = slice_bounds(k, a.shape[i], decide)
        sl[i] = (st, step, ln)
    if contiguous:
        before = [i for i in range(fpos[0]) if i in sl]
        after = [i for i in range(fpos[-1] + 1, len(key)) if i in sl]
    else:
        before, after = [], [i for i in range(len(key)) if i in sl]
    oshape = [sl[i][2] for i in before] + list(fsh) + [sl[i][2] for i in after]
    nb, nf = len(before), len(fsh)
    g = a.snapshot()

    def get(idx):
        fi = idx[nb:nb + nf]
        out = []
        for i in range(len(key)):
            if i in fget:
                out.append(fget[i](fi))
            else:
                if i in before:
                    v = idx[before.index(i)]
                else:
                    v = idx[nb + nf + after.index(i)]
                st, step, _ = sl[i]
                out.append(T.iadd(st, T.imul(v, step)))
        return g(tuple(out))
    return SArr(tuple(oshape), get, a.kind)


def mask_get(a, m, decide=None):
    sel = concrete_mask(m, decide)
    if sel is not None:
        rest = a.shape[m.ndim:]
        g = a.snapshot()
        n = len(sel)

        def get(idx):
            i = idx[0]
            if isinstance(i, Term):
                r = g(sel[-1] + idx[1:])
                for j in range(n - 2, -1, -1):
                    r = T.ite(T.eq(i, j), g(sel[j] + idx[1:]), r)
                return r
            return g(sel[i] + idx[1:])
        return SArr((n,) + rest, get, a.kind)
    for x, y in zip(m.shape, a.shape):
        if dim_eq(x, y) is False:
            raise PyRaise(IndexError, ("boolean index did not match",))
        if dim_eq(x, y) is None:
            raise Unsupported("mask length")
    return Masked(a.copy(), m.copy())


def setitem(a, key, val, decide=None):
    if not isinstance(key, tuple):
        key = conv_key(key)
    else:
        key = tuple(conv_key(k) for k in key)
    keys = list(key) if isinstance(key, tuple) else [key]
    if any(isinstance(k, IdxSet) for k in keys):
        ks = [k for k in keys if isinstance(k, IdxSet)]
        if len(keys) == len(ks) and all(same_mask(k.mask, ks[0].mask) for k in ks):
            keys = [ks[0].mask]
        elif len(ks) == 1 and ks[0].mask.ndim == 1:
            keys = [k.mask if isinstance(k, IdxSet) else k for k in keys]
        else:
            raise Unsupported("index-set assignment")
        key = tuple(keys)
    bm = [k for k in keys if isinstance(k, SArr) and k.kind == "b"]
    if bm:
        m = bm[0]
        if len(keys) > 1:
            p = next(i for i, k in enumerate(keys) if k is m)
            rest = list(keys)
            rest[p] = slice(None)
            tgt = getitem(a, tuple(rest), decide)
            ax = sum(1 for k in rest[:p] if not _is_int(k))
            if ax != 0:
                raise Unsupported("mask assignment on a later axis")
        else:
            tgt = a
        mg = m.snapshot()
        nd = m.ndim
        if isinstance(val, Masked):
            if not same_mask(val.mask, m):
                raise Unsupported("assignment between different masks")
            vg = val.full.snapshot()
            tgt.store(lambda v: mg(v[:nd]), vg)
            return
        sel = concrete_mask(m)
        val = as_arr(val) if isinstance(val, (list, tuple, np.ndarray, SArr)) else scalar_arr(val)
        if sel is not None and val.ndim > 0 and not (val.shape[0] == 1 if not isinstance(val.shape[0], Term) else False):
            if sel and dim_eq(val.shape[0], len(sel)) is False:
                raise PyRaise(ValueError, ("shape mismatch in mask assignment",))
            pos = {s: j for j, s in enumerate(sel)}
            vg = val.snapshot()
            tgt.store(lambda v: v[:nd] in pos, lambda v: vg((pos[v[:nd]],) + v[nd:]))
            return
        rshape = tgt.shape[nd:]
        if val.ndim > len(rshape):
            if val.ndim == 1 and not rshape and val.shape[0] == 1:
                v0 = val.at((0,))
                tgt.store(lambda v: mg(v[:nd]), lambda v: v0)
                return
            raise Unsupported("array value into a symbolic mask")
        bg = bget(val, rshape)
        tgt.store(lambda v: mg(v[:nd]), lambda v: bg(v[nd:]))
        return
    kx = _expand_key(a, key)
    if isinstance(val, Masked):
        raise Unsupported("selection stored into a slice")
    if any(isinstance(k, SArr) for k in kx):
        # integer array target: only fully concrete index lists
        arrs = [k for k in kx if isinstance(k, SArr)]
        if len(arrs) == 1 and arrs[0].ndim == 1 and arrs[0].concrete_shape():
            p = next(i for i, k in enumerate(kx) if isinstance(k, SArr))
            vala = as_arr(val) if isinstance(val, (list, tuple, np.ndarray, SArr)) else scalar_arr(val)
            for j in range(arrs[0].shape[0]):
                kk = list(kx)
                kk[p] = arrs[0].at((j,))
                v = vala
                if vala.ndim and vala.ndim == sum(1 for q in kx if not _is_int(q)):
                    vs = [slice(None)] * vala.ndim
                    ax = sum(1 for q in kx[:p] if not _is_int(q))
                    if vala.shape[ax] == 1:
                        vs[ax] = 0
                    else:
                        vs[ax] = j
                    v = getitem(vala, tuple(vs), decide)
                setitem(a, tuple(kk), v, decide)
            return
        raise Unsupported("fancy assignment")
    if all(_is_int(k) for k in kx):
        idx = tuple(norm_index(k, n) for k, n in zip(kx, a.shape))
        if isinstance(val, SArr):
            if val.ndim == 0 or all(d == 1 for d in val.shape):
                val = val.at((0,) * val.ndim)
            else:
                raise PyRaise(ValueError, ("setting an array element with a sequence",))
        v = norm_scalar(val)
        if a.kind != "o":
            v = conv_elem(v, a.kind)
        a.store(lambda j: T.land(*[T.eq(x, y) for x, y in zip(j, idx)]), lambda j: v)
        return
    tgt = getitem(a, tuple(kx), decide)
    val = as_arr(val) if isinstance(val, (list, tuple, np.ndarray, SArr, SymRange, SymList)) else scalar_arr(val)
    # drop leading 1s
    while val.ndim > tgt.ndim and val.shape[0] == 1:
        val = getitem(val, 0)
        val = val if isinstance(val, SArr) else scalar_arr(val)
    bshape(val.shape, tgt.shape)
    g = bget(val, tgt.shape)
    kind = a.kind
    tgt.store(lambda v: T.TRUE, lambda v: conv_elem(g(v), kind) if kind != "o" else g(v))
