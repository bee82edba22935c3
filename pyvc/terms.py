"""Hash-consed first-order terms (sorts: R real, I int, B bool)."""
from fractions import Fraction
import math

_table = {}
_ctr = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "_h", "__weakref__")
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)

    # arithmetic used by the models (not by the code under verification,
    # which is interpreted)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, o)
    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool: %s" % show(self))


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.sort = op, args, sort
        _ctr[0] += 1
        t.id = _ctr[0]
        t._h = hash(t.id * 2654435761)
        _table[key] = t
    return t


def is_term(x):
    return isinstance(x, Term)


def var(name, sort="R"):
    return mk("var", (name,), sort)


def const(v):
    """real constant"""
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        f = Fraction(v)
    elif isinstance(v, Fraction):
        f = v
    else:
        v = float(v)
        if v != v or v in (math.inf, -math.inf):
            return mk("special", (repr(v),), "R")
        if v == math.pi:
            return PI
        f = Fraction(repr(v))
    return mk("const", (f,), "R")


def iconst(v):
    return mk("iconst", (int(v),), "I")


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
PI = mk("pi", (), "R")


def special(name):
    return mk("special", (name,), "R")


NAN = special("nan")
INF = special("inf")


def app(name, args, sort="R"):
    return mk("app", (name,) + tuple(toint(a) for a in args), sort)


def toint(x):
    if isinstance(x, Term):
        return x
    return iconst(x)


def toreal(x):
    """any scalar -> real-sorted Term"""
    if isinstance(x, Term):
        if x.sort == "R":
            return x
        if x.sort == "I":
            if x.op == "iconst":
                return const(x.args[0])
            return mk("toreal", (x,), "R")
        if x.sort == "B":
            return ite(x, const(1), const(0))
    if isinstance(x, complex):
        raise TypeError("complex")
    return const(x)


def cval(t):
    """Fraction value of a constant, else None"""
    if not isinstance(t, Term):
        if isinstance(t, bool):
            return Fraction(int(t))
        if isinstance(t, int):
            return Fraction(t)
        if isinstance(t, (float, Fraction)):
            c = const(t)
            return c.args[0] if c.op == "const" else None
        return None
    if t.op == "const" or t.op == "iconst":
        return Fraction(t.args[0])
    return None


# ---------------------------------------------------------------- ints
def _lin(t):
    """linear normal form of an int: (const, {atom: coeff})"""
    if not isinstance(t, Term):
        return int(t), {}
    if t.op == "iconst":
        return t.args[0], {}
    if t.op == "ilin":
        c, items = t.args
        return c, dict(items)
    return 0, {t: 1}


def _unlin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return int(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    items = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
    return mk("ilin", (int(c), items), "I")


def iadd(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return int(a) + int(b)
    ca, da = _lin(a)
    cb, db = _lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return _unlin(ca + cb, da)


def iscale(a, k):
    c, d = _lin(a)
    return _unlin(c * k, {x: v * k for x, v in d.items()})


def isub(a, b):
    return iadd(a, iscale(b, -1))


def imul(a, b):
    if not isinstance(a, Term):
        return iscale(b, int(a)) if isinstance(b, Term) else a * b
    if not isinstance(b, Term):
        return iscale(a, int(b))
    return mk("imul", tuple(sorted((a, b), key=lambda t: t.id)), "I")


def isint(x):
    import numpy as np
    if isinstance(x, Term):
        return x.sort == "I"
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


# ---------------------------------------------------------------- reals
def _spec(*ts):
    for t in ts:
        if t.op == "special":
            return True
    return False


def add(a, b):
    if isint(a) and isint(b):
        return iadd(a, b)
    a, b = toreal(a), toreal(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca + cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    return mk("add", (a, b), "R")


def neg(a):
    if isint(a):
        return iscale(a, -1)
    a = toreal(a)
    ca = cval(a)
    if ca is not None:
        return const(-ca)
    if a.op == "neg":
        return a.args[0]
    if a.op == "special":
        return special({"nan": "nan", "inf": "-inf", "-inf": "inf"}[a.args[0]])
    return mk("neg", (a,), "R")


def sub(a, b):
    if isint(a) and isint(b):
        return isub(a, b)
    a, b = toreal(a), toreal(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca - cb)
    if cb == 0:
        return a
    if ca == 0:
        return neg(b)
    if a is b and not _spec(a):
        return const(0)
    return mk("sub", (a, b), "R")


def mul(a, b):
    if isint(a) and isint(b):
        return imul(a, b)
    a, b = toreal(a), toreal(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca * cb)
    if ca == 0 and b.op != "special" or cb == 0 and a.op != "special":
        return const(0)
    if ca == 1:
        return b
    if cb == 1:
        return a
    if a is PI or b is PI or ca is not None or cb is not None:
        x, y = (a, b) if (b is PI or cb is not None) else (b, a)
        if x.op in ("mul", "div"):
            c, k, r = _scaled(x)
            if k or c != 1:
                if y is PI:
                    return _rescale(c, k + 1, r)
                return _rescale(c * cval(y), k, r)
    return mk("mul", (a, b), "R")


def _scaled(t):
    """t = c * pi^k * rest with the outer constant factors split off"""
    c, k = Fraction(1), 0
    while t.op in ("mul", "div"):
        x, y = t.args
        cy = cval(y)
        if t.op == "mul":
            cx = cval(x)
            if cy is not None:
                c *= cy
                t = x
            elif y is PI:
                k += 1
                t = x
            elif cx is not None:
                c *= cx
                t = y
            elif x is PI:
                k += 1
                t = y
            else:
                break
        else:
            if y is PI:
                k -= 1
                t = x
            else:
                break
    return c, k, t


def _rescale(c, k, r):
    if c == 0:
        return const(0)
    if c != 1:
        r = mk("mul", (r, const(c)), "R") if cval(r) is None else const(cval(r) * c)
    while k > 0:
        r = mk("mul", (r, PI), "R")
        k -= 1
    while k < 0:
        r = mk("div", (r, PI), "R")
        k += 1
    return r


def div(a, b):
    a, b = toreal(a), toreal(b)
    ca, cb = cval(a), cval(b)
    if cb is not None and cb != 0:
        if ca is not None:
            return const(ca / cb)
        if cb == 1:
            return a
        return mul(a, const(1 / cb))
    if cb == 0:
        if ca is not None:
            return NAN if ca == 0 else (INF if ca > 0 else special("-inf"))
    if b is PI and a.op in ("mul", "div"):
        c, k, r = _scaled(a)
        if k:
            return _rescale(c, k - 1, r)
    return mk("div", (a, b), "R")


def power(a, b):
    cb = cval(b)
    if cb is not None and cb.denominator == 1:
        n = int(cb)
        if isint(a) and isint(b) and n >= 0:
            r = 1
            for _ in range(n):
                r = imul(r, a)
            return r
        a = toreal(a)
        ca = cval(a)
        if ca is not None and (ca != 0 or n >= 0):
            return const(ca ** n)
        if n == 0:
            return const(1)
        if n == 1:
            return a
        if n < 0:
            return div(const(1), power(a, -n))
        return mk("ipow", (a, n), "R")
    if cb is not None and cb == Fraction(1, 2):
        return sqrt(a)
    if isint(a) and cval(a) == -1 and isint(b):
        return ite(eq(fmod(b, 2), 0), 1, -1)
    return mk("rpow", (toreal(a), toreal(b)), "R")


def _isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    a = toreal(a)
    c = cval(a)
    if c is not None and c >= 0:
        p, q = _isq(c.numerator), _isq(c.denominator)
        if p is not None and q is not None:
            return const(Fraction(p, q))
    return mk("sqrt", (a,), "R")


def pimult(a):
    """k with a == k*pi, else None"""
    if a is PI:
        return Fraction(1)
    if cval(a) == 0:
        return Fraction(0)
    if a.op == "mul":
        x, y = a.args
        cx, cy = cval(x), cval(y)
        if cx is not None:
            k = pimult(y)
            return None if k is None else cx * k
        if cy is not None:
            k = pimult(x)
            return None if k is None else cy * k
    if a.op == "neg":
        k = pimult(a.args[0])
        return None if k is None else -k
    if a.op in ("add", "sub"):
        k, l = pimult(a.args[0]), pimult(a.args[1])
        if k is None or l is None:
            return None
        return k + l if a.op == "add" else k - l
    return None


_SIN = {0: 0, Fraction(1, 6): Fraction(1, 2), Fraction(1, 2): 1, Fraction(5, 6): Fraction(1, 2), 1: 0,
        Fraction(7, 6): Fraction(-1, 2), Fraction(3, 2): -1, Fraction(11, 6): Fraction(-1, 2)}


def sin(a):
    a = toreal(a)
    k = pimult(a)
    if k is not None:
        k = k % 2
        if k in _SIN:
            return const(_SIN[k])
    return mk("sin", (a,), "R")


def cos(a):
    a = toreal(a)
    k = pimult(a)
    if k is not None:
        k = (k + Fraction(1, 2)) % 2
        if k in _SIN:
            return const(_SIN[k])
    return mk("cos", (a,), "R")


def tan(a):
    a = toreal(a)
    return mk("tan", (a,), "R") if cval(a) != 0 else const(0)


def fn1(op, a):
    a = toreal(a)
    c = cval(a)
    if c is not None:
        if op == "asin" and c in (0, 1, -1):
            return mul(PI, const(c / 2))
        if op == "acos" and c in (0, 1, -1):
            return mul(PI, const((1 - c) / 2))
        if op == "atan" and c == 0:
            return const(0)
        if op == "exp" and c == 0:
            return const(1)
        if op == "log" and c == 1:
            return const(0)
    return mk(op, (a,), "R")


def asin(a): return fn1("asin", a)
def acos(a): return fn1("acos", a)
def atan(a): return fn1("atan", a)
def exp(a): return fn1("exp", a)
def log(a): return fn1("log", a)


def atan2(y, x):
    y, x = toreal(y), toreal(x)
    if cval(y) == 0 and cval(x) is not None and cval(x) >= 0:
        return const(0)
    return mk("atan2", (y, x), "R")


def absv(a):
    if isint(a):
        if not isinstance(a, Term):
            return abs(a)
        return ite(le(0, a), a, iscale(a, -1))
    a = toreal(a)
    c = cval(a)
    if c is not None:
        return const(abs(c))
    if a.op in ("abs", "sqrt"):
        return a
    if a.op == "neg":
        return absv(a.args[0])
    return mk("abs", (a,), "R")


def floor(a):
    """integer floor of a real"""
    if isint(a):
        return a
    a = toreal(a)
    c = cval(a)
    if c is not None:
        return math.floor(c)
    if a.op == "toreal":
        return a.args[0]
    i = asint(a)
    if i is not None:
        return i
    return mk("floor", (a,), "I")


def asint(a):
    """the integer expression a real expression over integers is equal to, or None"""
    c = cval(a)
    if c is not None:
        return int(c) if c == math.floor(c) else None
    if a.op == "toreal":
        return a.args[0]
    if a.op in ("add", "sub", "neg", "mul"):
        xs = [asint(x) for x in a.args]
        if any(x is None for x in xs) or a.op == "mul" and all(isinstance(x, Term) for x in xs):
            return None
        return {"add": iadd, "sub": isub, "mul": imul, "neg": lambda x: iscale(x, -1)}[a.op](*xs)
    return None


def fmod(a, b):
    """python/numpy floor-mod"""
    if isint(a) and isint(b):
        if not isinstance(a, Term) and not isinstance(b, Term):
            return a % b
        return mk("imod", (toint(a), toint(b)), "I")
    a, b = toreal(a), toreal(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0:
        return const(ca - cb * math.floor(ca / cb))
    return sub(a, mul(b, toreal(floor(div(a, b)))))


def smin(a, b):
    return ite(le(a, b), a, b)


def smax(a, b):
    return ite(le(b, a), a, b)


# ---------------------------------------------------------------- bool
def tobool(x):
    if isinstance(x, Term):
        if x.sort == "B":
            return x
        return lnot(eq(x, 0))
    return TRUE if x else FALSE


def bval(t):
    """True/False if constant else None"""
    if not isinstance(t, Term):
        return bool(t)
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return None


def lnot(a):
    a = tobool(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def land(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    seen = []
    for x in out:
        if x not in seen:
            if lnot(x) in seen:
                return FALSE
            seen.append(x)
    if not seen:
        return TRUE
    if len(seen) == 1:
        return seen[0]
    return mk("and", tuple(seen), "B")


def lor(*xs):
    return lnot(land(*[lnot(x) for x in xs]))


def implies(a, b):
    return lor(lnot(a), b)


def numval(t):
    """float value of a variable-free real term, else None"""
    if free(t):
        return None
    from .numeric import evaluate
    try:
        return evaluate(t, {})
    except Exception:
        return None


def _cmpconst(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return (ca > cb) - (ca < cb)
    if a.op == "special" or b.op == "special":
        def v(t):
            if t.op == "special":
                return float(t.args[0])
            return None
        va, vb = v(a), v(b)
        if (va is not None and va != va) or (vb is not None and vb != vb):
            return "nan"
        if va is not None and vb is not None:
            return (va > vb) - (va < vb)
        # infinities against a finite real
        if va is not None:
            return 1 if va > 0 else -1
        return -1 if vb > 0 else 1
    if not free(a) and not free(b):
        va, vb = numval(a), numval(b)
        if va is not None and vb is not None and abs(va - vb) > 1e-9 * (1 + abs(va)):
            return (va > vb) - (va < vb)
    return None


def eq(a, b):
    if isinstance(a, Term) and a.sort == "B" or isinstance(b, Term) and b.sort == "B" \
            or isinstance(a, bool) and isinstance(b, bool):
        a, b = tobool(a), tobool(b)
        return lor(land(a, b), land(lnot(a), lnot(b)))
    if isint(a) and isint(b):
        d = isub(a, b)
        if not isinstance(d, Term):
            return TRUE if d == 0 else FALSE
        return mk("ieq0", (_canon_sign(d),), "B")
    a, b = toreal(a), toreal(b)
    if a is b and not _spec(a):
        return TRUE
    c = _cmpconst(a, b)
    if c is not None:
        return FALSE if c == "nan" or c else TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def _canon_sign(d):
    c, m = _lin(d)
    if m:
        first = min(m, key=lambda t: t.id)
        if m[first] < 0:
            return iscale(d, -1)
    return d


def le(a, b):
    if isint(a) and isint(b):
        d = isub(b, a)
        if not isinstance(d, Term):
            return TRUE if d >= 0 else FALSE
        return mk("ige0", (d,), "B")
    a, b = toreal(a), toreal(b)
    if a is b and not _spec(a):
        return TRUE
    c = _cmpconst(a, b)
    if c is not None:
        return TRUE if c != "nan" and c <= 0 else FALSE
    return mk("le", (a, b), "B")


def lt(a, b):
    if isint(a) and isint(b):
        return le(iadd(a, 1), b)
    a, b = toreal(a), toreal(b)
    if a is b:
        return FALSE
    c = _cmpconst(a, b)
    if c is not None:
        return TRUE if c != "nan" and c < 0 else FALSE
    return mk("lt", (a, b), "B")


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def ne(a, b): return lnot(eq(a, b))


def ite(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    ta, tb = isinstance(a, Term), isinstance(b, Term)
    if (isinstance(a, bool) or ta and a.sort == "B") and (isinstance(b, bool) or tb and b.sort == "B"):
        a, b = tobool(a), tobool(b)
        return lor(land(c, a), land(lnot(c), b))
    if isint(a) and isint(b):
        if not ta and not tb and a == b:
            return a
        return mk("ite", (c, toint(a), toint(b)), "I")
    a, b = toreal(a), toreal(b)
    if a is b:
        return a
    if c.op == "not":
        return mk("ite", (c.args[0], b, a), "R")
    return mk("ite", (c, a, b), "R")


def psum(bv, body, hi):
    """sum of body[bv := 0..hi] (inclusive)"""
    body = toreal(body)
    if body.op == "mul" and show(body.args[0]) > show(body.args[1]):
        body = mk("mul", (body.args[1], body.args[0]), "R")
    return mk("psum", (bv, body, toint(hi)), "R")


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op in ("var", "const", "iconst", "true", "false", "pi", "special"):
        return ()
    if t.op == "ilin":
        return tuple(k for k, _ in t.args[1])
    if t.op == "app":
        return t.args[1:]
    if t.op == "ipow":
        return (t.args[0],)
    return tuple(a for a in t.args if isinstance(a, Term))


_free = {}


def free(t):
    """set of free vars/app symbols (as terms / names)"""
    r = _free.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _free:
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c not in _free]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        if x.op == "var":
            s = frozenset([x])
        else:
            for c in ch:
                s |= _free[c]
            if x.op == "app":
                s |= frozenset([x.args[0]])
            if x.op == "psum":
                s -= frozenset([x.args[0]])
        _free[x] = s
        stack.pop()
    return _free[t]


def rebuild(t, ch):
    """rebuild t with new children, through the smart constructors"""
    op = t.op
    if op == "ilin":
        c, items = t.args
        r = c
        for (k, v), n in zip(items, ch):
            r = iadd(r, iscale(n, v))
        return r
    if op == "app":
        return app(t.args[0], ch, t.sort)
    if op == "ipow":
        return power(ch[0], t.args[1])
    f = _CONS.get(op)
    if f is not None:
        return f(*ch)
    return mk(op, tuple(toint(c) if isinstance(c, int) and not isinstance(c, bool) else c for c in ch), t.sort)


_CONS = {
    "add": add, "sub": sub, "mul": mul, "div": div, "neg": neg, "rpow": power, "sqrt": sqrt,
    "sin": sin, "cos": cos, "tan": tan, "asin": asin, "acos": acos, "atan": atan, "atan2": atan2,
    "exp": exp, "log": log, "abs": absv, "floor": floor, "toreal": toreal, "imul": imul,
    "imod": fmod, "not": lnot, "and": land, "eq": eq, "le": le, "lt": lt, "ite": ite,
    "ieq0": lambda d: eq(d, 0), "ige0": lambda d: le(0, d),
    "psum": psum,
}


def subst(t, m, memo=None):
    """capture-free substitution of terms by terms (dict)"""
    if not isinstance(t, Term):
        return t
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x in m:
            memo[x] = m[x]
            stack.pop()
            continue
        ch = children(x)
        if not ch:
            memo[x] = x
            stack.pop()
            continue
        todo = [c for c in ch if c not in memo]
        if todo:
            stack.extend(todo)
            continue
        nch = [memo[c] for c in ch]
        if x.op == "psum":
            bv = x.args[0]
            body = subst(x.args[1], {k: v for k, v in m.items() if k is not bv})
            memo[x] = psum(bv, body, memo[x.args[2]])
        elif all(a is b for a, b in zip(nch, ch)):
            memo[x] = x
        else:
            memo[x] = rebuild(x, nch)
        stack.pop()
    return memo[t]


def subterms(ts):
    seen = set()
    out = []
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        stack.extend(children(x))
    return out


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 14:
        return "..."
    s = lambda x: show(x, depth + 1)
    op, a = t.op, t.args
    if op == "var":
        return a[0]
    if op == "const":
        return str(a[0])
    if op == "iconst":
        return str(a[0])
    if op in ("true", "false", "pi"):
        return op
    if op == "special":
        return a[0]
    if op == "app":
        return "%s[%s]" % (a[0], ",".join(s(x) for x in a[1:]))
    if op == "ilin":
        c, items = a
        r = " + ".join(("%d*%s" % (v, s(k)) if v != 1 else s(k)) for k, v in items)
        return "(%s%s)" % (r, " + %d" % c if c else "")
    if op == "add":
        return "(%s + %s)" % (s(a[0]), s(a[1]))
    if op == "sub":
        return "(%s - %s)" % (s(a[0]), s(a[1]))
    if op == "mul":
        return "%s*%s" % (s(a[0]), s(a[1]))
    if op == "div":
        return "(%s)/(%s)" % (s(a[0]), s(a[1]))
    if op == "neg":
        return "-%s" % s(a[0])
    if op == "ipow":
        return "(%s)^%d" % (s(a[0]), a[1])
    if op == "ite":
        return "if(%s, %s, %s)" % tuple(s(x) for x in a)
    if op in ("eq", "le", "lt"):
        return "%s %s %s" % (s(a[0]), {"eq": "==", "le": "<=", "lt": "<"}[op], s(a[1]))
    if op == "ieq0":
        return "%s == 0" % s(a[0])
    if op == "ige0":
        return "%s >= 0" % s(a[0])
    if op == "not":
        return "!(%s)" % s(a[0])
    if op == "and":
        return "(" + " && ".join(s(x) for x in a) + ")"
    if op == "psum":
        return "sum(%s<=%s: %s)" % (s(a[0]), s(a[2]), s(a[1]))
    return "%s(%s)" % (op, ", ".join(s(x) for x in a if isinstance(x, Term)))
