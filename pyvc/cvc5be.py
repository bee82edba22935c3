"""cvc5 back end: sin/cos/pi are native, the rest is algebraic."""
from . import terms as T
from .terms import Term


def check(hyps, goal, timeout_ms):
    import cvc5
    from cvc5 import Kind
    tm = cvc5.TermManager()
    s = cvc5.Solver(tm)
    s.setLogic("ALL")
    s.setOption("tlimit-per", str(int(timeout_ms)))
    R, I, B = tm.getRealSort(), tm.getIntegerSort(), tm.getBooleanSort()
    memo, cons = {}, []
    fns = {}

    def real(q):
        return tm.mkReal(q.numerator, q.denominator)

    def fresh(t, sort):
        return tm.mkConst(sort, "o%d" % t.id)

    def x(t):
        if not isinstance(t, Term):
            return tm.mkInteger(t)
        if t in memo:
            return memo[t]
        r = _x(t)
        memo[t] = r
        return r

    def _x(t):
        op, a = t.op, t.args
        m = tm.mkTerm
        if op == "const":
            return real(a[0])
        if op == "iconst":
            return tm.mkInteger(a[0])
        if op == "pi":
            return m(Kind.PI)
        if op == "var":
            return tm.mkConst({"R": R, "I": I, "B": B}[t.sort], a[0])
        if op == "true":
            return tm.mkTrue()
        if op == "false":
            return tm.mkFalse()
        if op == "ilin":
            r = tm.mkInteger(a[0])
            for k, v in a[1]:
                r = m(Kind.ADD, r, m(Kind.MULT, tm.mkInteger(v), x(k)))
            return r
        if op == "app":
            key = (a[0], len(a) - 1, t.sort)
            if key not in fns:
                fns[key] = tm.mkConst(tm.mkFunctionSort([I] * (len(a) - 1), {"R": R, "I": I, "B": B}[t.sort]), a[0])
            return m(Kind.APPLY_UF, fns[key], *[x(y) for y in a[1:]])
        if op == "toreal":
            return m(Kind.TO_REAL, x(a[0]))
        if op in ("add", "sub", "mul", "imul"):
            return m({"add": Kind.ADD, "sub": Kind.SUB, "mul": Kind.MULT, "imul": Kind.MULT}[op], x(a[0]), x(a[1]))
        if op == "neg":
            return m(Kind.NEG, x(a[0]))
        if op == "div":
            return m(Kind.DIVISION, x(a[0]), x(a[1]))
        if op == "ipow":
            r = x(a[0])
            for _ in range(a[1] - 1):
                r = m(Kind.MULT, r, x(a[0]))
            return r
        if op == "sin":
            return m(Kind.SINE, x(a[0]))
        if op == "cos":
            return m(Kind.COSINE, x(a[0]))
        if op == "tan":
            return m(Kind.TANGENT, x(a[0]))
        if op == "sqrt":
            r = fresh(t, R)
            z = real(T.Fraction(0))
            e = x(a[0])
            cons.append(m(Kind.IMPLIES, m(Kind.GEQ, e, z),
                          m(Kind.AND, m(Kind.GEQ, r, z), m(Kind.EQUAL, m(Kind.MULT, r, r), e))))
            return r
        if op == "abs":
            e = x(a[0])
            return m(Kind.ITE, m(Kind.GEQ, e, real(T.Fraction(0))), e, m(Kind.NEG, e))
        if op == "ite":
            return m(Kind.ITE, x(a[0]), x(a[1]), x(a[2]))
        if op == "not":
            return m(Kind.NOT, x(a[0]))
        if op == "and":
            return m(Kind.AND, *[x(y) for y in a])
        if op == "ieq0":
            return m(Kind.EQUAL, x(a[0]), tm.mkInteger(0))
        if op == "ige0":
            return m(Kind.GEQ, x(a[0]), tm.mkInteger(0))
        if op == "eq":
            return m(Kind.EQUAL, x(a[0]), x(a[1]))
        if op == "le":
            return m(Kind.LEQ, x(a[0]), x(a[1]))
        if op == "lt":
            return m(Kind.LT, x(a[0]), x(a[1]))
        return fresh(t, {"R": R, "I": I, "B": B}[t.sort])

    fs = [x(h) for h in hyps]
    g = x(goal)
    for f in fs:
        s.assertFormula(f)
    for c in cons:
        s.assertFormula(c)
    s.assertFormula(tm.mkTerm(Kind.NOT, g))
    return s.checkSat().isUnsat()
