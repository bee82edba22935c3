"""Numeric evaluation of terms (floats) - used to look for counterexamples
and to cross-check the verifier against CPython."""
import math
import random
import numpy as np
from .terms import Term, children


class Undefined(Exception):
    pass


def evaluate(t, env, funcs=None):
    """env: var name -> number; funcs: app name -> callable(*ints)"""
    memo = {}

    def ev(x, local):
        # iterative for depth safety is not needed after memo + limit
        key = (x, tuple(sorted(local.items(), key=lambda kv: kv[0].id)) if local else None)
        if key in memo:
            return memo[key]
        r = _ev(x, local)
        memo[key] = r
        return r

    def _ev(x, L):
        op, a = x.op, x.args
        if op == "const":
            return float(a[0])
        if op == "iconst":
            return a[0]
        if op == "pi":
            return math.pi
        if op == "special":
            return float(a[0])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "var":
            if x in L:
                return L[x]
            return env[a[0]]
        if op == "app":
            idx = [ev(c, L) for c in a[1:]]
            return funcs[a[0]](*idx)
        if op == "ilin":
            return a[0] + sum(v * ev(k, L) for k, v in a[1])
        if op == "toreal":
            return float(ev(a[0], L))
        if op == "add":
            return ev(a[0], L) + ev(a[1], L)
        if op == "sub":
            return ev(a[0], L) - ev(a[1], L)
        if op in ("mul", "imul"):
            return ev(a[0], L) * ev(a[1], L)
        if op == "imod":
            return ev(a[0], L) % ev(a[1], L)
        if op == "neg":
            return -ev(a[0], L)
        if op == "div":
            n, d = ev(a[0], L), ev(a[1], L)
            if d == 0:
                if n == 0 or n != n:
                    return math.nan
                return math.copysign(math.inf, n)
            return n / d
        if op == "ipow":
            return ev(a[0], L) ** a[1]
        if op == "rpow":
            b = ev(a[0], L)
            e = ev(a[1], L)
            if b < 0 and e != math.floor(e) or b == 0 and e < 0:
                return math.nan
            return b ** e
        if op == "sqrt":
            v = ev(a[0], L)
            return math.sqrt(v) if v >= 0 else math.nan
        if op in ("sin", "cos", "tan", "atan", "exp"):
            v = ev(a[0], L)
            try:
                return getattr(math, op)(v)
            except (ValueError, OverflowError):
                return math.nan
        if op == "log":
            v = ev(a[0], L)
            return math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan)
        if op in ("asin", "acos"):
            v = ev(a[0], L)
            if abs(v) > 1:
                return math.nan
            return getattr(math, op)(v)
        if op == "atan2":
            return math.atan2(ev(a[0], L), ev(a[1], L))
        if op == "abs":
            return abs(ev(a[0], L))
        if op == "floor":
            v = ev(a[0], L)
            if v != v or v in (math.inf, -math.inf):
                raise Undefined()
            return math.floor(v)
        if op == "round":
            return float(np.round(ev(a[0], L), ev(a[1], L)))
        if op == "ite":
            return ev(a[1], L) if ev(a[0], L) else ev(a[2], L)
        if op == "eq":
            return ev(a[0], L) == ev(a[1], L)
        if op == "le":
            return ev(a[0], L) <= ev(a[1], L)
        if op == "lt":
            return ev(a[0], L) < ev(a[1], L)
        if op == "ieq0":
            return ev(a[0], L) == 0
        if op == "ige0":
            return ev(a[0], L) >= 0
        if op == "not":
            return not ev(a[0], L)
        if op == "and":
            return all(ev(c, L) for c in a)
        if op == "psum":
            hi = ev(a[2], L)
            s = 0.0
            for k in range(0, int(hi) + 1):
                M = dict(L)
                M[a[0]] = k
                s += ev(a[1], M)
            return s
        if op == "isnan":
            v = ev(a[0], L)
            return v != v
        raise Undefined(op)

    return ev(t, {})
