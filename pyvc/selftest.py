"""Cross-check of the verifier against CPython + numpy (run by setup.sh).

1. every program of selftest_cases.py is executed symbolically (all paths) and by CPython on sampled inputs:
   on each sample the path whose conditions hold must give CPython's result or exception;
2. false statements must not be proved, and a few true ones must be."""
import inspect
import math
import random
import sys
import traceback
import warnings
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np                                                     # noqa: E402
from . import terms as T, prove as P                                   # noqa: E402
from .terms import Term                                                # noqa: E402
from .arrays import SArr, Unsupported, getitem                         # noqa: E402
from .interp import Ctx, Infeasible, PyRaise, SObj                     # noqa: E402
from .numeric import evaluate, Undefined                               # noqa: E402
from .verify import Spec, V                                            # noqa: E402
from . import selftest_cases as C                                      # noqa: E402

warnings.simplefilter("ignore")


class Fresh(Exception):
    pass


class Env(dict):
    def __missing__(self, k):
        raise Fresh(k)


def symbolic(v, sig):
    out = []
    for j, s in enumerate(sig):
        n = "x%d" % j
        if s == "r":
            out.append(v.real(n))
        elif s == "p":
            out.append(v.real(n, gt=0))
        elif s == "i":
            out.append(v.int(n, lo=-6, hi=6))
        elif s == "u":
            out.append(v.int(n, lo=1, hi=4))
        elif s == "b":
            out.append(v.bool(n))
        elif s[0] == "a":
            out.append(v.arr(n, int(s[1:])))
        elif s[0] == "m":
            out.append(v.arr(n, *map(int, s[1:].split("x"))))
        else:
            k = T.var("n", "I")
            v.ctx.assume(T.le(1, k))
            if s == "A":
                out.append(v.arr(n, k))
            elif s == "M":
                out.append(v.arr(n, k, 3))
            elif s == "S":
                a = v.arr(n, k)
                v.forall(T.isub(k, 1), lambda i, a=a: T.le(v.at(a, i), v.at(a, T.iadd(i, 1))))
                out.append(a)
    return out


def sample(rng, sig):
    """-> (numeric arguments, env, funcs)"""
    args, env, funcs = [], Env(), {}
    n = env["n"] = rng.randint(1, 4)

    def real():
        return rng.choice([0.0, 1.0, -1.0, 0.5, 2.5, 359.0]) if rng.random() < 0.3 else round(rng.uniform(-5, 5), 3)
    for j, s in enumerate(sig):
        nm = "x%d" % j
        if s in "rpiub":
            x = {"r": real, "p": lambda: abs(real()) + 0.01, "i": lambda: rng.randint(-6, 6),
                 "u": lambda: rng.randint(1, 4), "b": lambda: rng.random() < 0.5}[s]()
            env[nm] = x
            args.append(x)
        else:
            sh = ((int(s[1:]),) if s[0] == "a" else tuple(map(int, s[1:].split("x"))) if s[0] == "m" else
                  (n,) if s in "AS" else (n, 3))
            x = np.array([real() for _ in range(int(np.prod(sh)))], dtype=float).reshape(sh)
            if s == "S":
                x = np.sort(x)
            for idx in np.ndindex(*sh):
                env[nm + "_" + "_".join(map(str, idx))] = float(x[idx])

            def f(*idx, x=x):
                for q, d in zip(idx, x.shape):
                    if not 0 <= q < d:
                        raise Undefined("index")
                return float(x[tuple(int(q) for q in idx)])
            funcs[nm] = f
            args.append(x)
    return args, env, funcs


def value(r, ev, v):
    """numeric value of a symbolic result"""
    if isinstance(r, Term):
        return ev(r)
    if isinstance(r, SArr):
        sh = tuple(int(ev(d)) if isinstance(d, Term) else d for d in r.shape)
        out = np.empty(sh, dtype=object)
        for idx in np.ndindex(*sh):
            out[idx] = value(r.read(idx) if hasattr(r, "read") else getitem(r, idx, lambda c: ev(T.tobool(c))), ev, v)
        return out
    if isinstance(r, (list, tuple)):
        return type(r)(value(x, ev, v) for x in r)
    if isinstance(r, (dict,)):
        return {k: value(x, ev, v) for k, x in r.items()}
    if type(r).__name__ == "SymList":
        n = int(ev(r.n)) if isinstance(r.n, Term) else r.n
        return [value(r.get(k), ev, v) for k in range(n)]
    return r


def same(a, b):
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, (np.ndarray, list, tuple)) or isinstance(a, (np.ndarray, list, tuple)):
        if not (isinstance(b, (np.ndarray, list, tuple)) and isinstance(a, (np.ndarray, list, tuple))):
            return False
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
            return False
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and list(map(str, a)) == list(map(str, b)) and all(same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(b, (int, float, np.number)):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if math.isnan(b) or math.isnan(a):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= 1e-9 * (1 + abs(b))
    return a == b


def run_case(f, rng, samples=40):
    sig = (f.__doc__ or "").split()
    spec = Spec(f.__name__, None)
    stack, paths = [[]], []
    while stack and len(paths) < 300:
        dec = stack.pop()
        ctx = Ctx(dec)
        v = V(ctx, spec)
        try:
            args = symbolic(v, sig)
            res = ("ok", v.call(f, *args))
        except Infeasible:
            res = None
        except PyRaise as e:
            res = ("raise", e.etype)
        except Unsupported as e:
            res = ("unsupported", str(e))
        stack.extend(ctx.pending)
        if res:
            paths.append((ctx, v, res))
    bad, checked, skipped, uns = [], 0, 0, [r[1] for _, _, r in paths if r[0] == "unsupported"]
    for _ in range(samples):
        args, env, funcs = sample(rng, sig)
        import copy
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                want = ("ok", f(*copy.deepcopy(args)))
        except Exception as e:
            want = ("raise", type(e))
        hit = 0
        hits = []
        vague = False

        def ev(t):
            return evaluate(t, env, funcs)
        for ctx, v, res in paths:
            try:
                ok = True
                for h in ctx.hyps:
                    try:
                        ok = ok and ev(h)
                    except (Fresh, Undefined, KeyError):
                        vague = True
                if not ok:
                    continue
            except (ZeroDivisionError, OverflowError):
                vague = True
                continue
            hits.append((ctx, v, res))
        for ctx, v, res in (hits if len(hits) == 1 or not vague else []):
            hit += 1
            if res[0] == "unsupported":
                skipped += 1
                continue
            if res[0] == "raise" or want[0] == "raise":
                if not (res[0] == want[0] and (issubclass(want[1], res[1]) or issubclass(res[1], want[1]))):
                    bad.append((args, "verifier %r, CPython %r" % (res, want)))
                else:
                    checked += 1
                continue
            try:
                got = value(res[1], ev, v)
            except (Fresh, Undefined, KeyError):
                skipped += 1
                continue
            items = list(zip(got, want[1])) if isinstance(want[1], tuple) and isinstance(got, tuple) and len(got) == len(want[1]) else [(got, want[1])]
            for q, (g, w) in enumerate(items):
                if not same(g, w):
                    bad.append((args, "item %d: verifier %r, CPython %r" % (q, g, w)))
            checked += 1
        if hit == 0 and not vague:
            bad.append((args, "no path of the verifier covers this input (CPython %r)" % (want,)))
        if hit > 1:
            bad.append((args, "%d paths cover this input" % hit))
    return bad, checked, skipped, uns


def prover_checks():
    """-> list of failures"""
    x, y, z = (T.var(n) for n in "xyz")
    n = T.var("n", "I")
    c, i = T.const, T.PI
    sq = lambda t: T.mul(t, t)
    f = T.app("f", (n,), "R")
    false = [
        ([], T.le(x, y)), ([T.le(x, y)], T.lt(x, y)), ([], T.lt(c(0), sq(x))), ([], T.eq(T.sqrt(sq(x)), x)),
        ([], T.eq(T.cos(x), c(1))), ([T.lt(c(0), x)], T.eq(T.asin(T.sin(x)), x)), ([], T.eq(T.atan2(T.sin(x), T.cos(x)), x)),
        ([], T.eq(T.div(x, x), c(1))), ([], T.eq(T.mul(T.div(x, y), y), x)), ([], T.le(T.mul(x, y), T.div(sq(T.add(x, y)), c(5)))),
        ([T.le(c(0), x), T.le(x, i)], T.eq(T.sin(x), T.cos(x))), ([], T.eq(f, T.app("f", (T.iadd(n, 1),), "R"))),
        ([T.le(1, n)], T.le(2, n)), ([], T.eq(T.absv(x), x)), ([], T.eq(T.floor(x), x)), ([T.le(x, c(3))], T.le(sq(x), c(9))),
        ([T.le(c(-1), x), T.le(x, c(1))], T.lt(T.acos(x), i)), ([T.lt(c(0), x), T.lt(c(0), y)], T.le(T.mul(x, y), T.add(x, y))),
        ([], T.eq(T.tan(x), T.div(T.sin(x), T.cos(x)))) if False else ([], T.eq(T.exp(x), T.add(c(1), x))),
        ([], T.FALSE), ([T.eq(sq(x), c(2))], T.eq(x, T.sqrt(c(2)))), ([T.eq(T.add(sq(x), sq(y)), c(1))], T.le(T.add(x, y), c(1))),
    ]
    true = [
        ([], T.eq(T.add(sq(T.sin(x)), sq(T.cos(x))), c(1))), ([T.le(c(0), x)], T.eq(T.sqrt(sq(x)), x)),
        ([T.le(x, y), T.le(y, z)], T.le(x, z)), ([], T.le(T.mul(c(2), T.mul(x, y)), T.add(sq(x), sq(y)))),
        ([T.lnot(T.eq(y, c(0)))], T.eq(T.mul(T.div(x, y), y), x)), ([], T.eq(T.cos(T.neg(x)), T.cos(x))),
    ]
    out = []
    for h, g in false:
        r = P.Prover(budget=6, z3_timeout=1500).prove(list(h), T.tobool(g))
        if r.status == "proved":
            out.append("FALSE STATEMENT PROVED: %s |- %s" % (h, g))
    for h, g in true:
        r = P.Prover(budget=20, z3_timeout=4000).prove(list(h), T.tobool(g))
        if r.status != "proved":
            out.append("true statement not proved: %s |- %s" % (h, g))
    return out


def main(only=None, verbose=False):
    fails = tot = unsup = 0
    for name, f in vars(C).items():
        if not inspect.isfunction(f) or f.__module__ != C.__name__ or (only and name != only):
            continue
        rng = random.Random(hash(name) % 1000 if False else sum(map(ord, name)))
        try:
            bad, ok, sk, uns = run_case(f, rng)
        except Exception as e:
            bad, ok, sk, uns = [((), "engine: %s %s" % (type(e).__name__, e))], 0, 0, []
            if verbose:
                traceback.print_exc()
        tot += ok
        unsup += bool(uns)
        if bad:
            fails += 1
            print("DIFFERS %s (%d times): %s on %s" % (name, len(bad), bad[0][1][:600], str(bad[0][0])[:200]))
        elif uns or not ok:
            print("not compared: %s %s (%d compared)" % (name, sorted(set(uns))[:2], ok))
        elif verbose:
            print("agrees", name, ok, sk)
    pv = [] if only else prover_checks()
    for p in pv:
        print(p[:400])
    print("selftest: %d comparisons with CPython agree, %d programs differ, %d partly outside the subset, %d prover checks failed"
          % (tot, fails, unsup, len(pv)))
    return 1 if fails or any(p.startswith("FALSE") for p in pv) else 0


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    sys.exit(main(a[0] if a else None, "-v" in sys.argv))
