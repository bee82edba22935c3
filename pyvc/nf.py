"""Normal form of real terms as rational functions over atoms.

Relations built in (each is a textbook identity, machine-checked in
lean/Trig.lean):
  cos(u)^2 = 1 - sin(u)^2, angle addition, sin/cos at multiples of pi/2,
  sin(asin e) = e, cos(asin e) = sqrt(1-e^2), cos(acos e) = e, ...
  sin(atan2(y,x)) = y/sqrt(x^2+y^2), cos(atan2(y,x)) = x/sqrt(x^2+y^2),
  half angles of the inverse functions, sqrt(p)^2 = p, |p|^2 = p^2.
Side conditions (denominators, radicands, domains) are collected and must be
proved by the caller.
"""
from fractions import Fraction
from math import gcd
from . import terms as T
from .terms import Term

F0, F1 = Fraction(0), Fraction(1)


class Restart(Exception):
    pass


class TooBig(Exception):
    pass


LIMIT = 60000

# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> Fraction ; monomial: tuple of (atomid, exp) sorted


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def p_neg(a):
    return {m: -c for m, c in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT * 40:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m)
            if v is None:
                r[m] = c1 * c2
            else:
                v = v + c1 * c2
                if v:
                    r[m] = v
                else:
                    del r[m]
    if len(r) > LIMIT:
        raise TooBig()
    return r


def freeze(p):
    return tuple(sorted(p.items()))


class RF:
    """num / prod(factor^exp)"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    def is_poly(self):
        return not self.d


class NF:
    def __init__(self, oracle=None, rules=None, units=None):
        self.atoms = []          # id -> key
        self.ids = {}            # key -> id
        self.sq = {}             # atom id -> RF (its square)
        self.units = units if units is not None else {}   # angle key -> lcm denominators
        self.side = {}           # side-condition terms
        self.memo = {}
        self.rules = rules or {}  # Term -> Term rewriting (applied first)
        self.oracle = oracle     # Term(B) -> True/False/None
        self.angle_atoms = {}    # angle key -> (sinid, cosid)
        self.atom_term = {}      # atom id -> Term (for display / z3)
        self.fpoly = {}          # frozen factor -> poly
        self.dterm = {}          # frozen factor -> True

    # -------------------------------------------------------- atoms
    def atom(self, key, term=None):
        i = self.ids.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.ids[key] = i
            if term is not None:
                self.atom_term[i] = term
        return i

    def p_atom(self, i, e=1):
        return {((i, e),): F1}

    # -------------------------------------------------------- RF arithmetic
    def rconst(self, c):
        return RF(p_const(c))

    def ratom(self, i):
        return RF(self.p_atom(i))

    def dpoly(self, d):
        r = p_const(1)
        for f, e in d.items():
            p = self.fpoly[f]
            for _ in range(e):
                r = self.red(p_mul(r, p))
                if isinstance(r, RF):
                    raise TooBig()
        return r

    def add(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        if a.d == b.d:
            return self.norm(p_add(a.n, b.n), a.d)
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = max(d.get(f, 0), e)
        na, nb = RF(a.n), RF(b.n)
        for f, e in d.items():
            for _ in range(e - a.d.get(f, 0)):
                na = self._mulpoly(na, self.fpoly[f])
            for _ in range(e - b.d.get(f, 0)):
                nb = self._mulpoly(nb, self.fpoly[f])
        if na.d or nb.d:
            # reductions introduced new denominators
            extra = dict(na.d)
            for f, e in nb.d.items():
                extra[f] = max(extra.get(f, 0), e)
            for f, e in extra.items():
                for _ in range(e - na.d.get(f, 0)):
                    na = RF(p_mul(na.n, self.fpoly[f]), na.d)
                for _ in range(e - nb.d.get(f, 0)):
                    nb = RF(p_mul(nb.n, self.fpoly[f]), nb.d)
                d[f] = d.get(f, 0) + e
        return self.norm(p_add(na.n, nb.n), d)

    def _mulpoly(self, a, p):
        r = self.red(p_mul(a.n, p))
        if isinstance(r, RF):
            d = dict(a.d)
            for f, e in r.d.items():
                d[f] = d.get(f, 0) + e
            return RF(r.n, d)
        return RF(r, a.d)

    def neg(self, a):
        return RF(p_neg(a.n), a.d)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if not a.n or not b.n:
            return RF({})
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = d.get(f, 0) + e
        n = self.red(p_mul(a.n, b.n))
        if isinstance(n, RF):
            for f, e in n.d.items():
                d[f] = d.get(f, 0) + e
            n = n.n
        return self.norm(n, d)

    def inv(self, a):
        """1/a"""
        n = self.dpoly_num(a.d)
        return self.mul(n, self.recip(a.n))

    def dpoly_num(self, d):
        r = self.rconst(1)
        for f, e in d.items():
            for _ in range(e):
                r = self.mul(r, RF(self.fpoly[f]))
        return r

    def recip(self, p):
        """1/p for a polynomial, split into monomial content and the rest"""
        if not p:
            raise ZeroDivisionError
        ms = list(p)
        # common monomial
        common = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            for k in list(common):
                e = min(common[k], dm.get(k, 0))
                if e:
                    common[k] = e
                else:
                    del common[k]
        lead = p[max(ms)]
        rest = {}
        for m, c in p.items():
            dm = dict(m)
            for k, e in common.items():
                dm[k] -= e
            rest[tuple(sorted((k, e) for k, e in dm.items() if e))] = c / lead
        d = {}
        for k, e in common.items():
            f = freeze(self.p_atom(k))
            self.fpoly[f] = self.p_atom(k)
            d[f] = e
        if set(rest) != {()}:
            f = freeze(rest)
            self.fpoly[f] = rest
            d[f] = d.get(f, 0) + 1
        return self.norm(p_const(1 / lead), d)

    def norm(self, n, d):
        if not n:
            return RF({})
        if d:
            d2 = {}
            for f, e in d.items():
                p = self.fpoly[f]
                if len(p) == 1:
                    # single atom factor: cancel / use square rule
                    ((k, _),), = [m for m in p]
                    if k in self.sq and e >= 2:
                        # 1/r^2 = 1/(r^2)
                        q = self.inv(self.sq[k])
                        r = RF(n, {g: x for g, x in d.items() if g != f})
                        if e > 2:
                            r.d[f] = e - 2
                        return self.mul(self.norm(r.n, r.d), q)
                    mn = min((dict(m).get(k, 0) for m in n), default=0)
                    c = min(mn, e)
                    if c:
                        n = {tuple(sorted((a, (b - c if a == k else b)) for a, b in m if not (a == k and b == c))): v
                             for m, v in n.items()}
                        e -= c
                    if e:
                        d2[f] = e
                else:
                    while e:
                        q = p_divexact(n, p)
                        if q is None:
                            break
                        n = q
                        e -= 1
                    if e:
                        d2[f] = e
            d = d2
        return RF(n, d)

    def red(self, p):
        """apply square rules; returns poly or RF"""
        sq = self.sq
        if not sq:
            return p
        while True:
            hit = -1
            for m in p:
                for k, e in m:
                    if e >= 2 and k in sq and k > hit:
                        hit = k
            if hit < 0:
                return p
            k = hit
            rule = sq[k]
            groups = {}
            for m, c in p.items():
                e = dict(m).get(k, 0)
                h, r = divmod(e, 2)
                mm = tuple((a, b) for a, b in m if a != k)
                if r:
                    mm = m_mul(mm, ((k, 1),))
                g = groups.setdefault(h, {})
                v = g.get(mm)
                v = c if v is None else v + c
                if v:
                    g[mm] = v
                else:
                    g.pop(mm, None)
            if rule.is_poly():
                out = {}
                pw = p_const(1)
                last = 0
                for h in sorted(groups):
                    for _ in range(h - last):
                        pw = p_mul(pw, rule.n)
                    last = h
                    out = p_add(out, p_mul(groups[h], pw))
                p = out
                if len(p) > LIMIT:
                    raise TooBig()
            else:
                out = RF({})
                for h, g in groups.items():
                    t = RF(g)
                    for _ in range(h):
                        t = self.mul(t, rule)
                    out = self.add(out, t)
                if out.is_poly():
                    p = out.n
                    continue
                q = self.red(out.n)
                if isinstance(q, RF):
                    return self.mul(q, RF(p_const(1), out.d))
                return RF(q, out.d)

    # -------------------------------------------------------- terms
    def need(self, cond):
        if cond is not T.TRUE:
            self.side[cond] = True

    def nf(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        # iterative post-order to avoid deep recursion
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            if x in self.rules:
                y = self.rules[x]
                if y not in self.memo:
                    stack.append(y)
                    continue
                self.memo[x] = self.memo[y]
                stack.pop()
                continue
            ch = [c for c in self._deps(x) if c not in self.memo]
            if ch:
                stack.extend(ch)
                continue
            self.memo[x] = self._nf(x)
            stack.pop()
        return self.memo[t]

    def _deps(self, x):
        if x.op in ("ite", "psum", "app", "toreal", "floor", "rpow", "exp", "log", "isnan"):
            if x.op in ("exp", "log"):
                return [x.args[0]]
            if x.op == "rpow":
                return list(x.args)
            return []
        return [c for c in T.children(x) if c.sort == "R"]

    def _nf(self, x):
        op, a = x.op, x.args
        M = self.memo
        if op == "const":
            return self.rconst(a[0])
        if op == "pi":
            return self.ratom(self.atom(("pi",), x))
        if op == "add":
            return self.add(M[a[0]], M[a[1]])
        if op == "sub":
            return self.sub(M[a[0]], M[a[1]])
        if op == "neg":
            return self.neg(M[a[0]])
        if op == "mul":
            return self.mul(M[a[0]], M[a[1]])
        if op == "div":
            den = M[a[1]]
            if not den.n:
                self.need(T.FALSE)
                return self.ratom(self.atom(("div0", x), x))
            self.need(T.ne(a[1], 0)) if T.cval(a[1]) is None else None
            return self.mul(M[a[0]], self.inv(den))
        if op == "ipow":
            b = M[a[0]]
            r = b
            for _ in range(a[1] - 1):
                r = self.mul(r, b)
            return r
        if op == "toreal":
            return self.int_nf(a[0])
        if op in ("sin", "cos"):
            return self.trig(op, M[a[0]])
        if op == "tan":
            c = self.trig("cos", M[a[0]])
            self.need(T.ne(T.cos(a[0]), 0))
            if not c.n:
                return self.ratom(self.atom(("tan", x), x))
            return self.mul(self.trig("sin", M[a[0]]), self.inv(c))
        if op == "sqrt":
            self.need(T.le(0, a[0]))
            return self.sqrt(M[a[0]], a[0])
        if op == "abs":
            return self.abs(M[a[0]], a[0])
        if op in ("asin", "acos"):
            self.need(T.land(T.le(-1, a[0]), T.le(a[0], 1)))
            r = M[a[0]]
            # asin(e) + acos(e) = pi/2 : canonical in asin
            if not r.n:
                return self.rconst(0) if op == "asin" else self.mul(self.nf(T.PI), self.rconst(Fraction(1, 2)))
            k = self.atom((op, self.rkey(r)), x)
            self.inv_arg = getattr(self, "inv_arg", {})
            self.inv_arg[k] = (op, r, x)
            return self.ratom(k)
        if op in ("atan", "atan2"):
            if op == "atan2":
                y, xx = M[a[0]], M[a[1]]
                self.need(T.lor(T.ne(a[0], 0), T.ne(a[1], 0)))
            else:
                y, xx = M[a[0]], self.rconst(1)
            k = self.atom(("atan2", self.rkey(y), self.rkey(xx)), x)
            self.inv_arg = getattr(self, "inv_arg", {})
            self.inv_arg[k] = ("atan2", (y, xx), x)
            return self.ratom(k)
        if op == "exp":
            return self.ratom(self.atom(("exp", self.rkey(M[a[0]])), x))
        if op == "log":
            self.need(T.lt(0, a[0]))
            return self.ratom(self.atom(("log", self.rkey(M[a[0]])), x))
        if op == "rpow":
            return self.ratom(self.atom(("rpow", self.rkey(M[a[0]]), self.rkey(M[a[1]])), x))
        if op == "special":
            self.need(T.FALSE)
            return self.ratom(self.atom(("special", a[0]), x))
        # opaque: var, app, ite (unresolved), psum, floor...
        return self.ratom(self.atom(("t", x), x))

    def int_nf(self, i):
        if not isinstance(i, Term):
            return self.rconst(i)
        c, m = T._lin(i)
        r = self.rconst(c)
        for k, v in m.items():
            if k.op == "imul":
                p = self.mul(self.int_nf(k.args[0]), self.int_nf(k.args[1]))
            else:
                tr = T.toreal(k)
                p = self.ratom(self.atom(("t", tr), tr))
            r = self.add(r, self.mul(p, self.rconst(v)))
        return r

    def rkey(self, r):
        return (freeze(r.n), tuple(sorted(r.d.items())))

    # -------------------------------------------------------- trig
    def trig(self, op, arg):
        """sin/cos of a normal form"""
        pio = self.ids.get(("pi",))
        quad = 0
        parts = []    # (angle key, Fraction coef)
        if arg.is_poly():
            for m, c in sorted(arg.n.items()):
                if pio is not None and m == ((pio, 1),) and (2 * c).denominator == 1:
                    quad += int(2 * c)
                    continue
                if pio is not None and m == ((pio, 1),):
                    # split off the multiple of pi/2
                    q = (2 * c).numerator // (2 * c).denominator
                    quad += q
                    c = c - Fraction(q, 2)
                if pio is not None and len(m) == 2 and c.denominator == 1 and c % 2 == 0 and (pio, 1) in m:
                    # whole turns: 2 pi times an integer
                    (z, e), = [x for x in m if x != (pio, 1)]
                    ky = self.atoms[z]
                    if e == 1 and ky[0] == "t" and isinstance(ky[1], Term) and ky[1].op == "toreal":
                        continue
                parts.append((("m", m), c))
        else:
            n, d = arg.n, tuple(sorted(arg.d.items()))
            # monomial-wise as well, over the common denominator
            for m, c in sorted(n.items()):
                parts.append((("f", m, d), c))
        S, C = self.rconst(0), self.rconst(1)
        for key, c in parts:
            u = self.units.get(key, 1)
            den = c.denominator
            if u % den:
                self.units[key] = u * den // gcd(u, den)
                raise Restart()
            k = int(c * u)
            s1, c1 = self.base(key, u)
            sk, ck = self.multi(s1, c1, abs(k))
            if k < 0:
                sk = self.neg(sk)
            S, C = (self.add(self.mul(S, ck), self.mul(C, sk)),
                    self.sub(self.mul(C, ck), self.mul(S, sk)))
        quad %= 4
        for _ in range(quad):
            S, C = C, self.neg(S)
        return S if op == "sin" else C

    def multi(self, s, c, k):
        S, C = self.rconst(0), self.rconst(1)
        for _ in range(k):
            S, C = self.add(self.mul(S, c), self.mul(C, s)), self.sub(self.mul(C, c), self.mul(S, s))
        return S, C

    def base(self, key, u):
        """(sin, cos) of angle `key`/u"""
        bk = (key, u)
        r = self.angle_atoms.get(bk)
        if r is not None:
            return r
        if key[0] == "m" and len(key[1]) == 1 and key[1][0][1] == 1:
            at = key[1][0][0]
            ia = getattr(self, "inv_arg", {}).get(at)
            if ia is not None and u in (1, 2):
                op, e, x = ia
                one = self.rconst(1)
                if op == "asin":
                    s, c = e, self.sqrt(self.sub(one, self.mul(e, e)), None, known=True)
                elif op == "acos":
                    c, s = e, self.sqrt(self.sub(one, self.mul(e, e)), None, known=True)
                else:
                    y, xx = e
                    h = self.sqrt(self.add(self.mul(y, y), self.mul(xx, xx)), None, known=True)
                    if not h.n:
                        h = None
                    if h is None:
                        s, c = self.rconst(0), self.rconst(1)
                    else:
                        hi = self.inv(h)
                        s, c = self.mul(y, hi), self.mul(xx, hi)
                if u == 2:
                    half = self.rconst(Fraction(1, 2))
                    ch = self.sqrt(self.mul(self.add(one, c), half), None, known=True)
                    if op == "acos":
                        sh = self.sqrt(self.mul(self.sub(one, c), half), None, known=True)
                    else:
                        sh = self.mul(self.mul(s, half), self.inv(ch))
                        # needs cos(theta/2) != 0, i.e. theta != +-pi
                        self.need(T.ne(T.cos(T.div(x, 2)), 0)) if op != "asin" else None
                    s, c = sh, ch
                self.angle_atoms[bk] = (s, c)
                return s, c
        si = self.atom(("sin", bk))
        ci = self.atom(("cos", bk))
        s, c = self.ratom(si), self.ratom(ci)
        sqr = self.squares.get(self._angle_term(key, u)) if getattr(self, "squares", None) else None
        self.sq[ci] = self.sub(self.rconst(1), self.mul(s, s))
        self.angle_atoms[bk] = (s, c)
        return s, c

    def _angle_term(self, key, u):
        return None

    # -------------------------------------------------------- sqrt / abs
    def sqrt(self, r, term, known=False):
        if not r.n:
            return self.rconst(0)
        # rational square content
        n, d = r.n, r.d
        cont = None
        for c in n.values():
            a = abs(c)
            cont = a if cont is None else Fraction(gcd(cont.numerator * a.denominator, a.numerator * cont.denominator),
                                                  cont.denominator * a.denominator)
        out = self.rconst(1)
        # take out the largest rational square
        pn, pd = _sqpart(cont.numerator), _sqpart(cont.denominator)
        k = Fraction(pn, pd)
        if k != 1:
            n = p_scale(n, 1 / (k * k))
            out = self.rconst(k)
        r = RF(n, d)
        # monomial squares
        if len(n) == 1:
            (m, c), = n.items()
            if all(e % 2 == 0 for _, e in m) and c == 1 and all(
                    e % 2 == 0 for e in d.values()):
                half = tuple((a, e // 2) for a, e in m)
                q = RF({half: F1}, {f: e // 2 for f, e in d.items()})
                return self.mul(out, self.abs(q, None))
        if not d:
            q = self.perfect_square(n)
            if q is not None:
                return self.mul(out, self.abs(RF(q), None))
        else:
            # sqrt(n/d^2k)
            if all(e % 2 == 0 for e in d.values()):
                q = self.perfect_square(n)
                if q is not None:
                    return self.mul(out, self.abs(RF(q, {f: e // 2 for f, e in d.items()}), None))
                den = RF(p_const(1), {f: e // 2 for f, e in d.items()})
                return self.mul(self.mul(out, self.sqrt(RF(n), None, known=True)), self.abs(den, None))
        key = ("sqrt", self.rkey(r))
        fresh = key not in self.ids
        i = self.atom(key, None)
        if fresh:
            self.sq[i] = r
        return self.mul(out, self.ratom(i))

    def perfect_square(self, n):
        """q with q^2 == n (mod relations), for a few easy shapes"""
        # 1 - sin^2 = cos^2
        for (key, u), (s, c) in list(self.angle_atoms.items()):
            if c.is_poly() and len(c.n) == 1 and s.is_poly() and len(s.n) == 1:
                m = list(c.n)[0]
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.sq:
                    rule = self.sq[m[0][0]]
                    if rule.is_poly():
                        q = p_divexact_sq(n, rule.n)
                        if q is not None:
                            return p_mul(q, {m: F1})
        return p_sqrt(n)

    def abs(self, r, term):
        if not r.n:
            return r
        s = self.sign(r)
        if s is not None:
            return r if s >= 0 else self.neg(r)
        # normalise sign of the leading coefficient
        lead = r.n[max(r.n)]
        if lead < 0:
            r = self.neg(r)
            lead = -lead
        out = self.rconst(1)
        if lead != 1:
            out = self.rconst(lead)
            r = RF(p_scale(r.n, 1 / lead), r.d)
        # |a*b| = |a|*|b| on monomials
        if len(r.n) == 1:
            (m, c), = r.n.items()
            for k, e in m:
                out = self.mul(out, self._absatom(RF(self.p_atom(k)), e))
            for f, e in r.d.items():
                out = self.mul(out, self.inv(self._absatom(RF(self.fpoly[f]), e)))
            return out
        if r.d:
            out = self.mul(out, self._absatom(RF(r.n), 1))
            for f, e in r.d.items():
                out = self.mul(out, self.inv(self._absatom(RF(self.fpoly[f]), e)))
            return out
        return self.mul(out, self._absatom(r, 1))

    def _absatom(self, r, e):
        out = self.rconst(1)
        sq = self.mul(r, r) if e > 1 else None
        for _ in range(e // 2):
            out = self.mul(out, sq)
        if e % 2:
            s = self.sign(r)
            if s is not None:
                return self.mul(out, r if s >= 0 else self.neg(r))
            key = ("abs", self.rkey(r))
            fresh = key not in self.ids
            i = self.atom(key)
            if fresh:
                self.sq[i] = self.mul(r, r)
            out = self.mul(out, self.ratom(i))
        return out

    def sign(self, r):
        """+1 / -1 if the sign is known syntactically (or by the oracle)"""
        def mono_sign(m, c):
            for k, e in m:
                if e % 2 == 0:
                    continue
                key = self.atoms[k]
                if key[0] in ("sqrt", "abs", "pi", "exp", "acos"):
                    continue
                return None
            return 1 if c > 0 else -1
        ss = {mono_sign(m, c) for m, c in r.n.items()}
        sd = 1
        for f, e in r.d.items():
            if e % 2 == 0:
                continue
            p = self.fpoly[f]
            s2 = {mono_sign(m, c) for m, c in p.items()}
            if len(s2) == 1 and None not in s2:
                sd *= s2.pop()
                continue
            o = self._osign(RF(p))
            if o is None:
                sd = None
                break
            sd *= o
        if sd is not None and len(ss) == 1 and None not in ss:
            return ss.pop() * sd
        if sd is not None:
            o = self._osign(RF(r.n))
            if o is not None:
                return o * sd
        return None

    def _osign(self, r):
        if self.oracle is None:
            return None
        return self.oracle(self, r)


def _sqpart(n):
    """largest k with k^2 | n (trial division, small factors)"""
    k = 1
    p = 2
    while p * p <= n and p < 2000:
        while n % (p * p) == 0:
            n //= p * p
            k *= p
        if n % p == 0:
            n //= p
        p += 1
    r = T._isq(n)
    if r and r > 1:
        k *= r
    return k


def p_lead(p):
    return max(p)


def _m_div(a, b):
    da = dict(a)
    for k, e in b:
        v = da.get(k, 0) - e
        if v < 0:
            return None
        if v:
            da[k] = v
        else:
            da.pop(k, None)
    return tuple(sorted(da.items()))


def _grlex(m, nv=None):
    return (sum(e for _, e in m), tuple((-k, e) for k, e in m))


def p_divexact(a, b):
    """exact quotient a/b or None (plain polynomial division)"""
    if len(b) > len(a) * 4 + 8 or len(a) > 4000:
        return None
    key = _order
    q = {}
    r = dict(a)
    bl = max(b, key=key)
    bc = b[bl]
    steps = 0
    while r:
        steps += 1
        if steps > 3000:
            return None
        rl = max(r, key=key)
        m = _m_div(rl, bl)
        if m is None:
            return None
        c = r[rl] / bc
        q[m] = c
        for mb, cb in b.items():
            mm = m_mul(m, mb)
            v = r.get(mm, F0) - c * cb
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return q


class _Key:
    """lex order on monomials with smaller atom ids more significant"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = self.m, o.m
        i = 0
        while True:
            if i == len(a):
                return i < len(b)
            if i == len(b):
                return False
            if a[i] == b[i]:
                i += 1
                continue
            (ka, ea), (kb, eb) = a[i], b[i]
            if ka == kb:
                return ea < eb
            return ka > kb


def _order(m):
    return _Key(m)


def p_divexact_sq(n, rule):
    """n == rule * q^2 ?  returns q"""
    q = p_divexact(n, rule)
    if q is None:
        return None
    return p_sqrt(q)


def p_sqrt(p):
    """polynomial square root or None"""
    if not p:
        return {}
    if len(p) > 60:
        return None
    key = _order
    lead = max(p, key=key)
    c = p[lead]
    if c <= 0 or any(e % 2 for _, e in lead):
        return None
    a, b = T._isq(c.numerator), T._isq(c.denominator)
    if a is None or b is None:
        return None
    lm = tuple((k, e // 2) for k, e in lead)
    lc = Fraction(a, b)
    q = {lm: lc}
    for _ in range(60):
        r = p_add(p, p_neg(p_mul(q, q)))
        if not r:
            return q
        rl = max(r, key=key)
        m = _m_div(rl, lm)
        if m is None or m in q:
            return None
        q[m] = r[rl] / (2 * lc)
    return None
