"""for-loops over sequences of symbolic length that only append to lists.

The loop is summarised by its own recurrence, for any number of iterations:
the body is run once at an arbitrary iteration t; a list that is read at [-1]
before it is appended to becomes an arbitrary sequence G with G[a-1] its last
initial element, and the (universally quantified) fact G[a+t] = value appended
in iteration t.  That is the strongest statement about the loop; nothing is
assumed.  Bodies that do anything else (branch on data, store into arrays or
objects, leave the loop, carry other variables) are unsupported.
"""
import ast
from . import terms as T
from .terms import Term
from .arrays import SArr, SymList, Unsupported, as_arr, cells_written


class AccList:
    """a list during the arbitrary iteration (only append and [-1] are possible)"""
    def __init__(self, init, name, ctx, t):
        self.init, self.name, self.ctx, self.t = list(init), name, ctx, t
        self.added = []
        self.ghost = None

    def _no(self, *a, **k):
        raise Unsupported("list used as a whole in a loop of symbolic length")
    __len__ = __iter__ = __getitem__ = __bool__ = __contains__ = __add__ = __radd__ = _no

    def last(self):
        if self.added:
            return self.added[-1]
        if not self.init:
            raise Unsupported("read of an empty list in a loop of symbolic length")
        if self.ghost is None:
            e = self.init[-1]
            a = as_arr(e) if isinstance(e, SArr) or not isinstance(e, (int, float, Term)) else None
            if a is not None and a.concrete_shape() is None and a.ndim:
                raise Unsupported("list element of symbolic shape in a loop of symbolic length")
            self.scalar = a is None or a.ndim == 0
            self.eshape = () if self.scalar else a.shape
            nm = "%s!%d" % (self.name, self.ctx.fresh("ghost").id)
            self.ghost = lambda i: (T.app(nm, (i,), "R") if self.scalar else
                                    SArr(self.eshape, lambda ix, i=i: T.app(nm, (i,) + tuple(ix), "R"), "f"))
        return self.ghost(T.iadd(len(self.init) - 1, self.t))


def _elem(v, ix):
    if isinstance(v, SArr):
        return v.at(tuple(ix))
    if not ix:
        return v
    return as_arr(v).at(tuple(ix))


def _sub(v, m):
    if isinstance(v, SArr):
        return SArr(v.shape, lambda ix: T.subst(v.at(ix), m), v.kind)
    if isinstance(v, Term):
        return T.subst(v, m)
    if isinstance(v, (tuple, list)):
        return type(v)(_sub(x, m) for x in v)
    return v


def run(I, s, seq, fr):
    if s.orelse:
        raise Unsupported("for-else over a symbolic length")
    bound = set()
    for n in ast.walk(s.target):
        if isinstance(n, ast.Name):
            bound.add(n.id)
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Raise, ast.Try, ast.With,
                              ast.Delete, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.While)):
                raise Unsupported("%s in a loop of symbolic length" % type(n).__name__)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                raise Unsupported("store in a loop of symbolic length")
            if isinstance(n, ast.AugAssign):
                raise Unsupported("running value in a loop of symbolic length")
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound.add(n.id)
    if not I.ctx.branch(T.lt(0, seq.n)):
        return
    ctx = I.ctx
    t = ctx.fresh("t", "I")
    ctx.assume(T.le(0, t))
    ctx.assume(T.lt(t, seq.n))
    saved = dict(fr.vars)
    acc = {}
    for k, v in saved.items():
        if isinstance(v, list):
            acc[k] = AccList(v, k, ctx, t)
    # names that are assigned in the body must be assigned before they are read
    for k in bound:
        fr.vars.pop(k, None)
    for k, a in acc.items():
        if k not in bound:
            fr.vars[k] = a
    item = seq.get(t)
    state = (ctx.pos, len(ctx.quant), len(ctx.obligs), len(ctx.hyps), cells_written(), I.attr_stores)
    I.assign(s.target, item, fr)
    f0 = ctx.fresh_n
    ghosts = lambda: sum(1 for a in acc.values() if a.ghost is not None)
    I.block(s.body, fr)
    if state != (ctx.pos, len(ctx.quant), len(ctx.obligs), len(ctx.hyps), cells_written(), I.attr_stores) or ctx.fresh_n - f0 != ghosts():
        raise Unsupported("loop of symbolic length whose body branches, stores or chooses")
    for k in bound:
        fr.vars.pop(k, None)
    for k, a in acc.items():
        if k in bound:
            continue
        if not a.added:
            if a.ghost is None:
                fr.vars[k] = saved[k]
                continue
            raise Unsupported("list read in a loop of symbolic length")
        if len(a.added) != 1:
            raise Unsupported("several elements appended in one iteration")
        n0, v = len(a.init), a.added[0]
        v = v.copy() if isinstance(v, SArr) else v
        if a.ghost is None:
            def get(i, v=v, n0=n0, init=a.init):
                if not isinstance(i, Term):
                    if i < n0:
                        return init[i]
                    return _sub(v, {t: T.toint(i - n0)})
                if n0:
                    raise Unsupported("symbolic index into a partly listed list")
                return _sub(v, {t: T.isub(i, n0)})
        else:
            shp = as_arr(v).shape if isinstance(v, SArr) else ()
            if tuple(shp) != tuple(a.eshape):
                raise Unsupported("list elements of different shapes")
            import itertools
            for j, e in enumerate(a.init):
                for ix in itertools.product(*[range(d) for d in a.eshape]):
                    ctx.assume(T.eq(_elem(a.ghost(j), ix), T.toreal(_elem(e, ix))))

            def fact(i, a=a, v=v, n0=n0):
                m = {t: T.isub(i, n0)}
                return T.implies(T.le(n0, i), T.land(*[T.eq(_elem(a.ghost(i), ix), T.subst(T.toreal(_elem(v, ix)), m))
                                                       for ix in itertools.product(*[range(d) for d in a.eshape])]))
            ctx.quant.append((T.iadd(n0, seq.n), fact))
            get = lambda i, a=a: a.ghost(i)
        new = SymList(T.iadd(n0, seq.n), get)
        # every alias in the frame of the list sees the new one
        old = saved[k]
        for q, x in list(fr.vars.items()):
            if x is a or x is old:
                fr.vars[q] = new
        from .interp import Opaque
        old[:] = [Opaque("list that grew in a loop of symbolic length")]
    for k, a in acc.items():
        if fr.vars.get(k) is a:
            fr.vars[k] = saved[k]
