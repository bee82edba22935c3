"""Canonical order of sums and products.

A formula is rewritten so that the order and grouping of additions and
multiplications in the source no longer show: nested sums become one sorted
sum of monomials with constant coefficients, nested products one sorted
product, x*x a power.  Products of sums are not expanded and quotients not
cancelled, so nothing that was undefined becomes defined.  The rewriting is
plain real arithmetic (associativity, commutativity, constants distributed);
it is applied to hypotheses and goal alike before anything else is tried."""
import hashlib
from fractions import Fraction
from . import terms as T
from .terms import Term

_key = {}
_memo = {}
_lin = {}


def key(t):
    """a name for t that does not depend on when it was built"""
    r = _key.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _key:
            stack.pop()
            continue
        ch = T.children(x)
        todo = [c for c in ch if c not in _key]
        if todo:
            stack.extend(todo)
            continue
        h = hashlib.blake2b(digest_size=12)
        h.update(x.op.encode())
        for a in x.args:
            if isinstance(a, Term):
                h.update(_key[a])
            elif isinstance(a, tuple):
                for k, v in a:
                    h.update(_key[k])
                    h.update(str(v).encode())
            else:
                h.update(repr(a).encode())
            h.update(b"|")
        _key[x] = h.digest()
        stack.pop()
    return _key[t]


class Keep(Exception):
    pass


def _fk(f):
    return (key(f[0][0]), f[0][1], f[1])


def _mk(ms):
    return tuple(sorted(ms, key=_fk))


def lin(t):
    """{monomial: coefficient}; a monomial is ((atom, sign), exponent)..."""
    r = _lin.get(t)
    if r is not None:
        return r
    c = T.cval(t)
    if c is not None:
        r = {(): c} if c else {}
    else:
        r = {((((t, 1)), 1),): Fraction(1)}
    return r


def as_factor(l):
    """a sum as (coefficient, monomial)"""
    if not l:
        raise Keep()
    if len(l) == 1:
        (m, c), = l.items()
        return c, m
    ms = sorted(l, key=lambda m: [_fk(f) for f in m])
    c = l[ms[0]]
    s = build({m: v / c for m, v in l.items()})
    return c, (((s, 1), 1),)


def mulm(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return _mk(d.items())


def inv(m):
    return _mk([((a, -s), e) for (a, s), e in m])


def plain(m):
    return all(s > 0 and a.op in ("var", "app", "pi", "toreal") for (a, s), _ in m)


def addl(x, y, s=1):
    r = dict(x)
    for m, c in y.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            if not plain(m):
                raise Keep()
            r.pop(m, None)
        else:
            r[m] = v
    return r


def build(l):
    """the term of a sum, and remember its parts"""
    ms = sorted(l, key=lambda m: [_fk(f) for f in m])
    out = None
    for m in ms:
        n = d = None
        for (a, s), e in m:
            p = a if e == 1 else T.power(a, e)
            if s > 0:
                n = p if n is None else T.mul(n, p)
            else:
                d = p if d is None else T.mul(d, p)
        c = l[m]
        if n is None:
            x = T.const(c)
        else:
            x = n if c == 1 else T.neg(n) if c == -1 else T.mul(n, T.const(c))
        if d is not None:
            x = T.div(x, d)
        out = x if out is None else T.add(out, x)
    if out is None:
        out = T.const(0)
    _lin[out] = dict(l)
    return out


RING = ("add", "sub", "neg", "mul", "div", "ipow")


def _special(t):
    return t.op == "special"


def node(x, ch):
    if x.op in RING and x.sort == "R" and not any(_special(c) for c in ch):
        try:
            ls = [lin(c) for c in ch]
            if x.op == "add":
                l = addl(ls[0], ls[1])
            elif x.op == "sub":
                l = addl(ls[0], ls[1], -1)
            elif x.op == "neg":
                l = {m: -c for m, c in ls[0].items()}
            elif x.op == "mul":
                if not ls[0] or not ls[1]:
                    raise Keep()
                if list(ls[0]) == [()]:
                    l = {m: c * ls[0][()] for m, c in ls[1].items()}
                elif list(ls[1]) == [()]:
                    l = {m: c * ls[1][()] for m, c in ls[0].items()}
                else:
                    (c, m), (d, n) = as_factor(ls[0]), as_factor(ls[1])
                    l = {mulm(m, n): c * d}
            elif x.op == "div":
                if not ls[1]:
                    raise Keep()
                d, n = as_factor(ls[1])
                if n == ():
                    l = {m: c / d for m, c in ls[0].items()}
                elif not ls[0]:
                    raise Keep()
                else:
                    c, m = as_factor(ls[0])
                    l = {mulm(m, inv(n)): c / d}
            else:
                k = x.args[1]
                if not isinstance(k, int) or k < 1 or not ls[0]:
                    raise Keep()
                c, m = as_factor(ls[0])
                l = {_mk([(a, e * k) for a, e in m]): c ** k}
            if len(l) > 400:
                raise Keep()
            return build(l)
        except Keep:
            pass
    if all(a is b for a, b in zip(ch, T.children(x))):
        return x
    return T.rebuild(x, list(ch))


def canon(t):
    if not isinstance(t, Term):
        return t
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _memo:
            stack.pop()
            continue
        ch = T.children(x)
        todo = [c for c in ch if c not in _memo]
        if todo:
            stack.extend(todo)
            continue
        if not ch:
            r = x
        elif x.op == "psum":
            bv, body, n = x.args
            r = T.psum(bv, _memo[body], _memo[n])
        else:
            r = node(x, [_memo[c] for c in ch])
        _memo[x] = r
        _memo.setdefault(r, r)
        stack.pop()
    return _memo[t]
