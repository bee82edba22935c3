"""Discharging obligations: case splitting, field normaliser, z3, cvc5."""
import math
import os
import random
import time
from fractions import Fraction
from . import terms as T
from .terms import Term
from .nf import NF, RF, Restart, TooBig, p_const
from . import numeric
from .canon import canon
import z3


class Result:
    def __init__(self, status, backend="", model=None, note=""):
        self.status, self.backend, self.model, self.note = status, backend, model, note

    def __repr__(self):
        return "<%s %s %s>" % (self.status, self.backend, self.note)


# ------------------------------------------------------------------ z3 on NF
class Z3Enc:
    def __init__(self, nf):
        self.nf = nf
        self.vars = {}
        self.cons = []
        self.ints = {}
        self.pi = z3.Real("pi!")
        self.usepi = False
        self.done_atoms = set()
        self.bools = {}
        self.funcs = {}
        self.undef = []

    def func(self, name, n, sort):
        k = (name, n, sort)
        if k not in self.funcs:
            rs = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[sort]
            self.funcs[k] = z3.Function(name, *([z3.IntSort()] * n + [rs]))
        return self.funcs[k]

    def int(self, t):
        if not isinstance(t, Term):
            return z3.IntVal(t)
        r = self.ints.get(t)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == "iconst":
            r = z3.IntVal(a[0])
        elif op == "var":
            r = z3.Int(a[0])
        elif op == "ilin":
            r = z3.Sum([z3.IntVal(a[0])] + [v * self.int(k) for k, v in a[1]])
        elif op == "imul":
            r = self.int(a[0]) * self.int(a[1])
        elif op == "imod":
            r = self.int(a[0]) % self.int(a[1])
        elif op == "app":
            r = self.func(a[0], len(a) - 1, "I")(*[self.int(x) for x in a[1:]])
        elif op == "floor":
            r = z3.Int("floor!%d" % t.id)
            self.ints[t] = r
            x = self.real(a[0])
            if x is not None:
                self.cons.append(z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1))
        elif op == "ite":
            r = z3.If(self.boolean(a[0]), self.int(a[1]), self.int(a[2]))
        else:
            r = z3.Int("opaque!%d" % t.id)
        self.ints[t] = r
        return r

    def atom(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        key = self.nf.atoms[i]
        k = key[0]
        if k == "pi":
            v = self.pi
            self.usepi = True
        elif k == "t":
            t = key[1]
            if t.op == "toreal":
                v = z3.ToReal(self.int(t.args[0]))
            elif t.op == "app":
                v = self.func(t.args[0], len(t.args) - 1, "R")(*[self.int(x) for x in t.args[1:]])
            elif t.op == "var":
                v = z3.Real(t.args[0])
            else:
                v = z3.Real("t!%d" % t.id)
        else:
            v = z3.Real("%s!%d" % (k, i))
        self.vars[i] = v
        # constraints
        sq = self.nf.sq.get(i)
        if sq is not None and k in ("sqrt", "abs", "cos", "sinr", "cosr"):
            n, d = self.rf(sq)
            self.cons.append(v * v * d == n if d is not None else v * v == n)
        if k in ("sqrt", "abs"):
            self.cons.append(v >= 0)
        if k in ("sin", "cos"):
            self.angle(key[1])
        ia = getattr(self.nf, "inv_arg", {}).get(i)
        if ia is not None:
            self.inverse(v, ia)
        if k == "exp":
            self.cons.append(v > 0)
        return v

    def angle(self, bk):
        if ("angle", bk) in self.done_atoms:
            return
        self.done_atoms.add(("angle", bk))
        sc = self.nf.angle_atoms.get(bk)
        if sc is None:
            return
        s, c = [self.rfz(x) for x in sc]
        self.cons.append(s * s + c * c == 1)
        self.cons += [s <= 1, s >= -1, c <= 1, c >= -1]
        key, u = bk
        if key[0] != "m":
            return
        A = self.mono(key[1], Fraction(1, u))
        self.range_lemmas(A, s, c)

    def range_lemmas(self, A, s, c):
        self.usepi = True
        p = self.pi
        I = z3.Implies
        And = z3.And
        self.cons += [
            I(And(0 <= A, A <= p), s >= 0), I(And(0 < A, A < p), s > 0),
            I(And(-p <= A, A <= 0), s <= 0), I(And(-p < A, A < 0), s < 0),
            I(And(-p <= 2 * A, 2 * A <= p), c >= 0), I(And(-p < 2 * A, 2 * A < p), c > 0),
            I(And(p <= 2 * A, 2 * A <= 3 * p), c <= 0), I(And(p < 2 * A, 2 * A < 3 * p), c < 0),
            I(And(p <= A, A <= 2 * p), s <= 0), I(And(p < A, A < 2 * p), s < 0),
            I(A == 0, And(s == 0, c == 1)), I(A == p, And(s == 0, c == -1)),
            I(2 * A == p, And(s == 1, c == 0)),
            I(And(-2 * p < A, A < 2 * p, c == 1), A == 0),
            I(A >= 0, s <= A), I(A <= 0, s >= A),
        ]

    def inverse(self, v, ia):
        self.usepi = True
        op, e, x = ia
        p = self.pi
        if op == "asin":
            E = self.rfz(e)
            self.cons += [-p <= 2 * v, 2 * v <= p]
            if E is not None:
                self.cons += [z3.Implies(E >= 0, v >= 0), z3.Implies(E > 0, v > 0), z3.Implies(E <= 0, v <= 0),
                              z3.Implies(E < 0, v < 0), z3.Implies(E == 1, 2 * v == p), z3.Implies(E < 1, 2 * v < p),
                              z3.Implies(E > -1, 2 * v > -p)]
        elif op == "acos":
            E = self.rfz(e)
            self.cons += [0 <= v, v <= p]
            if E is not None:
                self.cons += [z3.Implies(E == 1, v == 0), z3.Implies(E == -1, v == p), z3.Implies(E < 1, v > 0),
                              z3.Implies(E > -1, v < p), z3.Implies(E >= 0, 2 * v <= p),
                              z3.Implies(E <= 0, 2 * v >= p), z3.Implies(E == 0, 2 * v == p),
                              z3.Implies(E > 0, 2 * v < p), z3.Implies(E < 0, 2 * v > p)]
        else:
            Y, X = self.rfz(e[0]), self.rfz(e[1])
            self.cons += [-p <= v, v <= p]
            if x.op == "atan2" and x.args[0].op in ("sqrt", "abs"):     # +0 or positive, never -0
                self.cons.append(v >= 0)
            if Y is not None and X is not None:
                I, And = z3.Implies, z3.And
                self.cons += [I(Y > 0, And(0 < v, v < p)), I(Y < 0, And(-p < v, v < 0)),
                              I(And(Y == 0, X > 0), v == 0), I(And(Y == 0, X < 0), z3.Or(v == p, v == -p)),
                              I(X > 0, And(-p < 2 * v, 2 * v < p)), I(And(X == 0, Y > 0), 2 * v == p),
                              I(And(X == 0, Y < 0), 2 * v == -p), I(And(X < 0, Y > 0), 2 * v > p),
                              I(And(X < 0, Y < 0), 2 * v < -p)]

    def mono(self, m, c):
        r = z3.RealVal(str(c))
        for k, e in m:
            v = self.atom(k)
            for _ in range(e):
                r = r * v
        return r

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        if len(p) > 3000:
            raise TooBig()
        return z3.Sum([self.mono(m, c) for m, c in p.items()])

    def rf(self, r):
        """(num, den or None)"""
        n = self.poly(r.n)
        if not r.d:
            return n, None
        d = None
        for f, e in r.d.items():
            q = self.poly(self.nf.fpoly[f])
            for _ in range(e):
                d = q if d is None else d * q
        return n, d

    def rfz(self, r):
        n, d = self.rf(r)
        if d is None:
            return n
        q = z3.Real("q!%d" % len(self.cons))
        self.cons.append(z3.Implies(d != 0, q * d == n))
        return q

    def real(self, t):
        return self.rfz(self.nf.nf(t))

    def boolean(self, t):
        r = self.bools.get(t)
        if r is not None:
            return r
        r = self._boolean(t)
        self.bools[t] = r
        return r

    def _boolean(self, t):
        op, a = t.op, t.args
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "var":
            return z3.Bool(a[0])
        if op == "app":
            return self.func(a[0], len(a) - 1, "B")(*[self.int(x) for x in a[1:]])
        if op == "not":
            return z3.Not(self.boolean(a[0]))
        if op == "and":
            return z3.And([self.boolean(x) for x in a])
        if op == "ieq0":
            return self.int(a[0]) == 0
        if op == "ige0":
            return self.int(a[0]) >= 0
        if op in ("eq", "le", "lt"):
            d = self.nf.sub(self.nf.nf(a[0]), self.nf.nf(a[1]))
            n, den = self.rf(d)
            if den is None:
                return n == 0 if op == "eq" else (n <= 0 if op == "le" else n < 0)
            f = n == 0 if op == "eq" else (n * den <= 0 if op == "le" else n * den < 0)
            return z3.If(den != 0, f, z3.Bool("undef!%d" % t.id))
        if op == "isnan":
            return z3.Bool("isnan!%d" % t.id)
        raise KeyError(op)


def z3_check(nf, hyps, goal, timeout=10000, lemmas=True, tactic=None, seed=0):
    """is hyps => goal valid?  ('unsat' means proved)"""
    enc = Z3Enc(nf)
    fs = []
    for h in hyps:
        try:
            nf.side.clear()
            f = enc.boolean(h)
            side = list(nf.side)
            for s_ in side:
                # the hypothesis is used only where its terms are defined
                nf.side.clear()
                f = z3.Implies(enc.boolean(s_), f)
            fs.append(f)
        except (TooBig, KeyError):
            continue
    nf.side.clear()
    fs.append(z3.Not(enc.boolean(goal)))
    if enc.usepi:
        enc.cons += [enc.pi > z3.Q(314159265, 100000000), enc.pi < z3.Q(314159266, 100000000)]
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set("timeout", timeout)
    if seed:
        try:
            s.set("random_seed", seed)
        except z3.Z3Exception:
            pass
    for f in fs:
        s.add(f)
    for c in enc.cons:
        s.add(c)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return "unknown", None, enc
    if r == z3.unsat:
        return "unsat", None, enc
    if r == z3.sat:
        m = s.model()
        vals = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try:
                    if z3.is_int_value(v):
                        vals[d.name()] = v.as_long()
                    elif z3.is_rational_value(v):
                        vals[d.name()] = float(v.as_fraction())
                    elif z3.is_algebraic_value(v):
                        vals[d.name()] = float(v.approx(12).as_fraction())
                    elif z3.is_true(v) or z3.is_false(v):
                        vals[d.name()] = z3.is_true(v)
                except Exception:
                    pass
        apps = {}
        for t in nf.memo:
            if t.op == "app" and t.sort == "R":
                i = nf.ids.get(("t", t))
                if i in enc.vars:
                    v = m.eval(enc.vars[i], model_completion=True)
                    try:
                        idx = tuple(m.eval(enc.int(x), model_completion=True).as_long() for x in t.args[1:])
                        apps[(t.args[0], idx)] = float(v.as_fraction()) if z3.is_rational_value(v) else float(
                            v.approx(12).as_fraction())
                    except Exception:
                        pass
        return "sat", (vals, apps), enc
    return "unknown", None, enc


# ------------------------------------------------------------------ helpers
def new_nf(hyps=(), rules=None):
    nf = NF(rules=rules)
    nf.squares = {}
    return nf


def with_restart(nf, f):
    for _ in range(12):
        try:
            return f()
        except Restart:
            nf.memo.clear()
            nf.angle_atoms.clear()
    raise TooBig()


def ite_conds(t, limit=1):
    """innermost ite conditions (ite-free themselves)"""
    for x in T.subterms([t]):
        if x.op == "ite":
            c = x.args[0]
            if not any(y.op == "ite" for y in T.subterms([c])):
                return c
    return None


def _pick_ite(ts):
    best = None
    for t in ts:
        for x in T.subterms([t]):
            if x.op == "ite" and x.sort != "B":
                c = x.args[0]
                if not has_ite(c):
                    if best is None or (c.op in ("ieq0", "ige0") and best.op not in ("ieq0", "ige0")):
                        best = c
                        if c.op in ("ieq0", "ige0"):
                            return c
        if best is not None:
            return best
    return best


_hi = {}


def has_ite(t):
    r = _hi.get(t)
    if r is None:
        r = any(y.op == "ite" and y.sort != "B" for y in T.subterms([t]))
        _hi[t] = r
    return r


def atoms_of_bool(t):
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.op in ("not", "and"):
            st.extend(x.args)
        else:
            out.append(x)
    return out


_lia_cache = {}
STATS = {"z3": 0, "z3_time": 0.0, "lia": 0, "lia_time": 0.0}


LIA_SCALE = 1


def lia_entails(hyps, cond, timeout=800):
    """quick linear check, real atoms opaque (linear in var/app atoms)"""
    key = (frozenset(hyps), cond)
    r = _lia_cache.get(key)
    if r is not None:
        return r == 1
    t0 = time.time()
    STATS["lia"] += 1
    enc = LinEnc()
    s = z3.Solver()
    s.set("timeout", timeout * LIA_SCALE)
    rel = set(T.free(cond))
    try:
        for h in hyps:
            s.add(enc.b(h))
        s.add(z3.Not(enc.b(cond)))
        for c in enc.cons:
            s.add(c)
        ok = s.check() == z3.unsat
    except z3.Z3Exception:
        ok = False
    STATS["lia_time"] += time.time() - t0
    _lia_cache[key] = 1 if ok else 0
    return ok


class LinEnc:
    """cheap encoding: nonlinear/transcendental subterms are opaque reals"""
    def __init__(self):
        self.m = {}
        self.cons = []
        self.pi = None
        self.f = {}

    def func(self, name, n, sort):
        k = (name, n, sort)
        if k not in self.f:
            rs = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[sort]
            self.f[k] = z3.Function(name, *([z3.IntSort()] * n + [rs]))
        return self.f[k]

    def x(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        r = self._x(t)
        self.m[t] = r
        return r

    def _x(self, t):
        if not isinstance(t, Term):
            return z3.IntVal(t)
        op, a = t.op, t.args
        if op == "const":
            return z3.RealVal(str(a[0]))
        if op == "iconst":
            return z3.IntVal(a[0])
        if op == "var":
            return z3.Real(a[0]) if t.sort == "R" else (z3.Int(a[0]) if t.sort == "I" else z3.Bool(a[0]))
        if op == "pi":
            p = z3.Real("pi!")
            self.cons += [p > z3.Q(314159265, 100000000), p < z3.Q(314159266, 100000000)]
            return p
        if op == "ilin":
            return z3.Sum([z3.IntVal(a[0])] + [v * self.x(k) for k, v in a[1]])
        if op == "app":
            return self.func(a[0], len(a) - 1, t.sort)(*[self.x(y) for y in a[1:]])
        if op == "toreal":
            return z3.ToReal(self.x(a[0]))
        if op == "add":
            return self.x(a[0]) + self.x(a[1])
        if op == "sub":
            return self.x(a[0]) - self.x(a[1])
        if op == "neg":
            return -self.x(a[0])
        if op == "mul":
            if T.cval(a[0]) is not None or T.cval(a[1]) is not None:
                return self.x(a[0]) * self.x(a[1])
        if op == "abs":
            v = self.x(a[0])
            return z3.If(v >= 0, v, -v)
        if op == "ite" and t.sort != "B":
            return z3.If(self.b(a[0]), self.x(a[1]), self.x(a[2]))
        if op == "floor":
            r = z3.Int("floor!%d" % t.id)
            v = self.x(a[0])
            self.cons.append(z3.And(z3.ToReal(r) <= v, v < z3.ToReal(r) + 1))
            return r
        if op == "imod":
            return self.x(a[0]) % self.x(a[1])
        if op in ("sqrt",):
            r = z3.Real("o!%d" % t.id)
            self.cons.append(r >= 0)
            return r
        if op == "ipow":
            r = z3.Real("o!%d" % t.id)
            if a[1] % 2 == 0:
                self.cons.append(r >= 0)
            return r
        if t.sort == "I":
            return z3.Int("o!%d" % t.id)
        return z3.Real("o!%d" % t.id)

    def b(self, t):
        op, a = t.op, t.args
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "var":
            return z3.Bool(a[0])
        if op == "app":
            return self.func(a[0], len(a) - 1, "B")(*[self.x(y) for y in a[1:]])
        if op == "not":
            return z3.Not(self.b(a[0]))
        if op == "and":
            return z3.And([self.b(y) for y in a])
        if op == "ieq0":
            return self.x(a[0]) == 0
        if op == "ige0":
            return self.x(a[0]) >= 0
        if op == "eq":
            return self.x(a[0]) == self.x(a[1])
        if op == "le":
            return self.x(a[0]) <= self.x(a[1])
        if op == "lt":
            return self.x(a[0]) < self.x(a[1])
        return z3.Bool("ob!%d" % t.id)


# ------------------------------------------------------------------ psum
def unfold_psums(ts):
    """instances of  sum_{k<=i+1} f = sum_{k<=i} f + f(i+1), sum_{k<=0} f = f(0)"""
    subs = {}
    ps = [x for x in T.subterms(ts) if x.op == "psum"]
    groups = {}
    for p in ps:
        groups.setdefault((p.args[0], p.args[1]), []).append(p)
    for (bv, body), lst in groups.items():
        for p in lst:
            hi = p.args[2]
            if not isinstance(hi, Term) or hi.op == "iconst":
                h = hi if not isinstance(hi, Term) else hi.args[0]
                if h <= 8:
                    s = T.const(0)
                    for k in range(0, h + 1):
                        s = T.add(s, T.subst(body, {bv: T.toint(k)}))
                    subs[p] = s
        rest = [p for p in lst if p not in subs]
        # chain those differing by constants
        for p in rest:
            best = None
            for q in rest:
                if q is p:
                    continue
                d = T.isub(p.args[2], q.args[2])
                if not isinstance(d, Term) and 0 < d <= 6:
                    if best is None or d > best[0]:
                        best = (d, q)
            if best:
                d, q = best
                s = q
                for k in range(1, d + 1):
                    s = T.add(s, T.subst(body, {bv: T.toint(T.iadd(q.args[2], k))}))
                subs[p] = s
    return subs


# ------------------------------------------------------------------ main
class Prover:
    def __init__(self, budget=60.0, z3_timeout=8000, log=None, squares=None, depth=40):
        self.budget = budget
        self.z3_timeout = z3_timeout
        self.seed = 0
        self.canonical = True
        self.stats = {"nf": 0, "z3": 0, "cvc5": 0, "lia": 0, "syntactic": 0, "cases": 0}
        self.solver_time = 0.0
        self.deadline = time.time() + budget
        self.maxdepth = depth
        self.fail = None

    def prove(self, hyps, goal):
        hyps = [h for h in hyps if h is not T.TRUE]
        flat = []
        for h in hyps:
            flat.extend(h.args if h.op == "and" else [h])
        if not self.canonical:
            return self._prove(tuple(flat), goal, 0, 0)
        # sums and products in canonical order first, then as the code has them
        end = self.deadline
        self.deadline = time.time() + max(0, end - time.time()) * .6
        r = self._prove(tuple(flat), goal, 0, 0)
        self.deadline = end
        if r.status != "proved" and time.time() < end:
            self.canonical = False
            try:
                r2 = self._prove(tuple(flat), goal, 0, 0)
            finally:
                self.canonical = True
            if r2.status == "proved" or r.status == "unknown":
                return r2
        return r

    def _prove(self, hyps, goal, depth, sdepth):
        if time.time() > self.deadline:
            return Result("unknown", note="budget")
        goal = T.tobool(goal)
        if self.canonical and goal not in hyps:
            goal = canon(goal)
            hyps = _flat((), [canon(h) for h in hyps])
        if goal is T.TRUE:
            self.stats["syntactic"] += 1
            return Result("proved", "syntactic")
        hs = set(hyps)
        if T.FALSE in hs or goal in hs:
            self.stats["syntactic"] += 1
            return Result("proved", "syntactic")
        for h in hs:
            if h.op == "not" and h.args[0] in hs:
                self.stats["syntactic"] += 1
                return Result("proved", "syntactic")
        # structure
        if goal.op == "and":
            for g in goal.args:
                r = self._prove(hyps, g, depth, sdepth)
                if r.status != "proved":
                    return r
            return Result("proved", "split")
        if goal.op == "not" and goal.args[0].op == "and":
            # not(and a b c) : assume a,b and show not c (prefer negative literal last)
            parts = list(goal.args[0].args)
            parts.sort(key=lambda p: (p.op == "not", p.op in ("lt", "le", "eq")))
            last = parts[-1]
            return self._prove(_flat(hyps, parts[:-1]), T.lnot(last), depth, sdepth)
        # boolean hypotheses: disjunctions are split lazily below
        # equalities psum unfold
        su = unfold_psums([goal] + list(hyps))
        if su:
            memo = {}
            goal2 = T.subst(goal, su, memo)
            hyps2 = tuple(T.subst(h, su, memo) for h in hyps)
            if goal2 is not goal or any(a is not b for a, b in zip(hyps, hyps2)):
                return self._prove(_flat((), hyps2), goal2, depth, sdepth)
        # ite resolution in goal, then hyps sharing its atoms
        c = _pick_ite([goal])
        if c is None:
            hi = [h for h in hyps if has_ite(h)]
            c = _pick_ite(hi) if hi else None
        if c is not None:
            if depth > self.maxdepth:
                return Result("unknown", note="ite depth")
            known = self.decide(hyps, c)
            if known is not None:
                m = {c: T.TRUE if known else T.FALSE}
                return self._prove(_flat((), [T.subst(h, m) for h in hyps] + [c if known else T.lnot(c)]),
                                   T.subst(goal, m), depth, sdepth)
            for val in (True, False):
                lit = c if val else T.lnot(c)
                self.stats["cases"] += 1
                m = {c: T.TRUE if val else T.FALSE}
                hh = _flat((), [T.subst(h, m) for h in hyps] + [lit])
                r = self._prove(hh, T.subst(goal, m), depth + 1, sdepth)
                if r.status != "proved":
                    return r
            return Result("proved", "cases")
        return self._leaf(hyps, goal, depth, sdepth)

    def decide(self, hyps, c):
        if c in hyps:
            return True
        n = T.lnot(c)
        if n in hyps:
            return False
        rel = _relevant(hyps, c)
        if lia_entails(rel, c):
            self.stats["lia"] += 1
            return True
        if lia_entails(rel, n):
            self.stats["lia"] += 1
            return False
        return None

    def _root_bounds(self, goal):
        """sqrt(p) against a constant: squared, with 0 <= p for definedness"""
        if goal.op not in ("le", "lt"):
            return None
        a, b = goal.args
        ca, cb = T.cval(a), T.cval(b)
        if a.op == "sqrt" and cb is not None and cb >= 0:
            return T.land(T.le(0, a.args[0]), T.le(a.args[0], cb * cb) if goal.op == "le" else T.lt(a.args[0], cb * cb))
        if b.op == "sqrt" and ca is not None and (ca < 0 or ca == 0 and goal.op == "le"):
            return T.le(0, b.args[0])
        if b.op == "sqrt" and ca == 0:
            return T.lt(0, b.args[0])
        return None

    def _leaf(self, hyps, goal, depth, sdepth):
        g2 = self._root_bounds(goal)
        if g2 is not None:
            return self._prove(hyps, g2, depth, sdepth)
        if goal.op in ("ieq0", "ige0") or goal is T.FALSE or goal.op in ("not",) and goal.args[0].op in ("ieq0", "ige0"):
            if lia_entails(hyps, goal, 3000):
                self.stats["lia"] += 1
                return Result("proved", "z3-lia")
        else:
            if lia_entails(_relevant(hyps, goal), goal, 300):
                self.stats["lia"] += 1
                return Result("proved", "z3-lia")
        rules = equality_rules(hyps)
        nf = NF(rules=rules)
        nf.oracle = self._oracle(hyps)
        try:
            if goal.op == "eq":
                a, b = goal.args

                def run():
                    nf.side.clear()
                    return nf.sub(nf.nf(a), nf.nf(b))
                d = with_restart(nf, run)
                if not d.n:
                    # side conditions
                    r = self._sides(hyps, nf, depth, sdepth)
                    if r is None:
                        self.stats["nf"] += 1
                        return Result("proved", "nf")
                    return r
        except (TooBig, ZeroDivisionError, RecursionError) as e:
            pass
        if goal.op in ("le", "lt"):
            try:
                if with_restart(nf, lambda: self._lemma_match(hyps, goal, nf)):
                    self.stats["nf"] += 1
                    return Result("proved", "nf-lemma")
            except (TooBig, ZeroDivisionError, RecursionError):
                pass
        # disjunctive hypotheses: split
        for h in hyps:
            if h.op == "not" and h.args[0].op == "and" and len(h.args[0].args) <= 6:
                parts = [T.lnot(p) for p in h.args[0].args]
                if depth > self.maxdepth:
                    break
                rest = tuple(x for x in hyps if x is not h)
                for i, p in enumerate(parts):
                    self.stats["cases"] += 1
                    r = self._prove(_flat(rest, [p] + [T.lnot(q) for q in parts[:i]]), goal, depth + 1, sdepth)
                    if r.status != "proved":
                        return r
                return Result("proved", "cases")
        # z3 with the normal forms
        return self._z3(hyps, goal, nf, depth, sdepth)

    def _lemma_match(self, hyps, goal, nf):
        """goal 0 <= p follows from a hypothesis 0 <= q with p = c*q + d, c > 0, d >= 0"""
        nf.side.clear()
        p = nf.sub(nf.nf(goal.args[1]), nf.nf(goal.args[0]))
        if nf.side:
            return False
        if p.d:
            return False
        if not p.n:
            return goal.op == "le"
        if list(p.n) == [()]:
            return p.n[()] > 0
        key = [m for m in p.n if m != ()]
        for h in hyps:
            if h.op not in ("le", "lt", "eq"):
                continue
            nf.side.clear()
            q = nf.sub(nf.nf(h.args[1]), nf.nf(h.args[0]))
            if q.d or nf.side or not q.n:
                continue
            for sgn in ((1, -1) if h.op == "eq" else (1,)):
                kq = [m for m in q.n if m != ()]
                if len(kq) != len(key) or set(kq) != set(key):
                    continue
                c = p.n[key[0]] / (sgn * q.n[key[0]])
                if c <= 0:
                    continue
                if all(p.n[m] == c * sgn * q.n[m] for m in key):
                    d = p.n.get((), 0) - c * sgn * q.n.get((), 0)
                    if d > 0 or d == 0 and (goal.op == "le" or h.op == "lt"):
                        return True
        return False

    def _oracle(self, hyps):
        cache = {}

        def oracle(nf, r):
            # only monomials / short polynomials
            if len(r.n) > 6:
                return None
            k = nf.rkey(r)
            if k in cache:
                return cache[k]
            cache[k] = None
            out = None
            try:
                enc = Z3Enc(nf)
                saved, nf.oracle = nf.oracle, None
                try:
                    e = enc.poly(r.n)
                    hs = []
                    for h in hyps:
                        if h.op in ("le", "lt", "eq") or h.op == "not" and h.args[0].op in ("le", "lt", "eq"):
                            try:
                                hs.append(enc.boolean(h))
                            except (TooBig, KeyError, Restart):
                                pass
                finally:
                    nf.oracle = saved
                for sgn in (1, -1):
                    s = z3.Solver()
                    s.set("timeout", 400)
                    s.add(hs)
                    s.add(enc.cons)
                    if enc.usepi:
                        s.add(enc.pi > z3.Q(314159265, 100000000), enc.pi < z3.Q(314159266, 100000000))
                    s.add(e < 0 if sgn > 0 else e > 0)
                    if s.check() == z3.unsat:
                        out = sgn
                        break
            except (TooBig, z3.Z3Exception, KeyError):
                out = None
            cache[k] = out
            return out
        return oracle

    def _sides(self, hyps, nf, depth, sdepth):
        for c in list(nf.side):
            if c is T.FALSE:
                return Result("unknown", note="ill-defined term")
            if sdepth >= 3:
                return Result("unknown", note="side-condition depth")
            r = self._prove(hyps, c, depth, sdepth + 1)
            if r.status != "proved":
                return Result("unknown", note="side condition %s" % T.show(c)[:300])
        return None

    def _z3(self, hyps, goal, nf, depth, sdepth):
        t0 = time.time()
        try:
            def run():
                nf.side.clear()
                for x in T.subterms([goal]):
                    if x.sort == "R" and x.op not in ("var", "const"):
                        pass
                for at in atoms_of_bool(goal):
                    if at.op in ("eq", "le", "lt"):
                        nf.nf(at.args[0]), nf.nf(at.args[1])
                sides = dict(nf.side)
                rel = _relevant(hyps, goal)
                st, m, enc = z3_check(nf, rel, goal, self._to(), seed=self.seed)
                return st, m, sides
            st, m, sides = with_restart(nf, run)
        except (TooBig, ZeroDivisionError, RecursionError):
            self.solver_time += time.time() - t0
            return Result("unknown", note="too big")
        self.solver_time += time.time() - t0
        if st == "unsat":
            nf.side = sides
            r = self._sides(hyps, nf, depth, sdepth) if sdepth < 3 else None
            if r is None:
                self.stats["z3"] += 1
                return Result("proved", "z3")
            return r
        if st == "sat":
            return Result("refuted?", "z3", m)
        r = self._cvc5(hyps, goal)
        if r is not None:
            return r
        return Result("unknown", note="z3 unknown")

    def _to(self):
        left = max(0.3, self.deadline - time.time())
        return int(min(self.z3_timeout, left * 1000))

    def _cvc5(self, hyps, goal):
        from . import cvc5be
        t0 = time.time()
        try:
            ok = cvc5be.check(_relevant(hyps, goal), goal, min(5000, self._to()))
        except Exception as e:   # a back-end failure is never a verdict
            ok = False
        self.solver_time += time.time() - t0
        if ok:
            self.stats["cvc5"] += 1
            return Result("proved", "cvc5")
        return None


def _flat(hyps, extra):
    out = list(hyps)
    for h in extra:
        if h is T.TRUE:
            continue
        if h.op == "and":
            out.extend(h.args)
        else:
            out.append(h)
    seen = set()
    r = []
    for h in out:
        if h not in seen:
            seen.add(h)
            r.append(h)
    return tuple(r)


def _relevant(hyps, goal):
    """hypotheses connected to the goal through shared symbols"""
    want = set(T.free(goal))
    rest = list(hyps)
    out = []
    changed = True
    while changed and rest:
        changed = False
        nxt = []
        for h in rest:
            f = T.free(h)
            if not f or f & want:
                out.append(h)
                if len(f) <= 12:
                    want |= f
                changed = True
            else:
                nxt.append(h)
        rest = nxt
    return tuple(out)


def equality_rules(hyps):
    """x == t hypotheses as rewrites x -> t (acyclic)"""
    rules = {}
    for h in hyps:
        if h.op == "eq":
            a, b = h.args
            for x, y in ((a, b), (b, a)):
                if x.op in ("var", "app", "toreal") and x not in rules and T.cval(x) is None:
                    if not occurs(x, y) and not any(occurs(x, v) or occurs(k, y) and occurs(x, v) for k, v in rules.items()):
                        y2 = T.subst(y, rules)
                        if occurs(x, y2):
                            continue
                        rules = {k: T.subst(v, {x: y2}) for k, v in rules.items()}
                        rules[x] = y2
                        break
    return rules


def occurs(x, t):
    return any(y is x for y in T.subterms([t]))


# ------------------------------------------------------------------ numeric
def sample_model(hyps, goal, rng, tries=400, hints=()):
    """look for concrete values making every hyp true and the goal clearly false"""
    fr = set()
    for t in list(hyps) + [goal]:
        fr |= T.free(t)
    vs = sorted([x for x in fr if isinstance(x, Term)], key=lambda t: t.args[0])
    fns = sorted([x for x in fr if isinstance(x, str)])
    consts = set()
    for t in T.subterms(list(hyps) + [goal]):
        if t.op == "const" and abs(t.args[0]) < 10 ** 6:
            consts.add(float(t.args[0]))
    consts = sorted(consts)[:40]

    def rnd():
        k = rng.random()
        if k < 0.25:
            return rng.uniform(-1, 1)
        if k < 0.5:
            return rng.uniform(0, 3.1)
        if k < 0.6 and consts:
            return rng.choice(consts) + rng.choice([0, 0, 1e-3, -1e-3, 0.5])
        if k < 0.8:
            return rng.uniform(-7, 7)
        if k < 0.95:
            return rng.uniform(0, 1000)
        return 0.0
    for _ in range(tries):
        env = {}
        for v in vs:
            if v.sort == "R":
                env[v.args[0]] = rnd()
            elif v.sort == "I":
                env[v.args[0]] = rng.choice([0, 1, 2, 3, 4, 5, 7, 10])
            else:
                env[v.args[0]] = rng.random() < 0.5
        tab = {}

        def mkf(name):
            def f(*idx):
                k = (name, idx)
                if k not in tab:
                    tab[k] = rnd()
                return tab[k]
            return f
        funcs = {n: mkf(n) for n in fns}
        try:
            if not all(numeric.evaluate(h, env, funcs) for h in hyps):
                continue
            if goal_false(goal, env, funcs):
                return env, tab
        except (numeric.Undefined, OverflowError, ZeroDivisionError, KeyError, TypeError, RecursionError):
            continue
    return None


def goal_false(goal, env, funcs, tol=1e-6):
    """the goal is false by more than rounding"""
    if goal.op == "and":
        return any(goal_false(g, env, funcs) for g in goal.args)
    if goal.op == "eq":
        a, b = (numeric.evaluate(x, env, funcs) for x in goal.args)
        if a != a or b != b:
            return False
        return abs(a - b) > tol * (1 + abs(a) + abs(b))
    if goal.op in ("le", "lt"):
        a, b = (numeric.evaluate(x, env, funcs) for x in goal.args)
        return a - b > tol * (1 + abs(a) + abs(b))
    if goal.op == "not":
        g = goal.args[0]
        return goal_true(g, env, funcs, tol)
    return not numeric.evaluate(goal, env, funcs)


def goal_true(goal, env, funcs, tol=1e-6):
    """the formula is true by more than rounding"""
    if goal.op == "and":
        return all(goal_true(g, env, funcs, tol) for g in goal.args)
    if goal.op == "not":
        return goal_false(goal.args[0], env, funcs, tol)
    if goal.op == "eq":
        return False
    if goal.op in ("le", "lt"):
        a, b = (numeric.evaluate(x, env, funcs) for x in goal.args)
        return b - a > tol * (1 + abs(a) + abs(b))
    return bool(numeric.evaluate(goal, env, funcs))
