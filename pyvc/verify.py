"""Running specifications: path enumeration, obligations, verdicts."""
import ast
import importlib
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import numpy as np
from . import terms as T
from .terms import Term
from .arrays import SArr, SymList, Unsupported, PyRaise, as_arr, dim_eq, from_numpy, getitem
from .interp import Ctx, Interp, SObj, Fn, Bound, Model, Infeasible, is_repo
from . import prove as P

MAXPATHS = 400
HOLDS = {}


class Spec:
    def __init__(self, name, fn, budget=60, replay=None, z3=8000, bounded=None, depth=40):
        self.name, self.fn, self.budget, self.replay, self.z3 = name, fn, budget, replay, z3
        self.bounded = bounded
        self.depth = depth


class V:
    """the interface a specification uses (one instance per path)"""
    def __init__(self, ctx, spec):
        self.ctx = ctx
        self.spec = spec
        self.I = Interp(ctx)
        self.inputs = {}
        self.assumed_contracts = set()

    # ---- declaring inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        x = T.var(name)
        self.inputs[name] = "real"
        if lo is not None:
            self.ctx.assume(T.le(lo, x))
        if hi is not None:
            self.ctx.assume(T.le(x, hi))
        if gt is not None:
            self.ctx.assume(T.lt(gt, x))
        if lt is not None:
            self.ctx.assume(T.lt(x, lt))
        return x

    def int(self, name, lo=None, hi=None):
        x = T.var(name, "I")
        self.inputs[name] = "int"
        if lo is not None:
            self.ctx.assume(T.le(lo, x))
        if hi is not None:
            self.ctx.assume(T.le(x, hi))
        return x

    def bool(self, name):
        self.inputs[name] = "bool"
        return T.var(name, "B")

    def arr(self, name, *shape, kind="f"):
        """array of arbitrary contents"""
        self.inputs[name] = ("arr", shape)
        sort = {"f": "R", "i": "I", "b": "B"}[kind]
        conc = all(not isinstance(d, Term) for d in shape)
        if conc:
            return SArr(shape, lambda idx: T.app(name, idx, sort) if any(isinstance(i, Term) for i in idx)
                        else T.var(name + "_" + "_".join(map(str, idx)), sort), kind)
        return SArr(shape, lambda idx: T.app(name, idx, sort), kind)

    def table(self, shape, f, kind="f"):
        """array given by its elements"""
        return SArr(shape, lambda idx: f(*idx), kind)

    def idx(self, n, name="k", lo=0):
        """an arbitrary index lo <= k < n"""
        k = self.ctx.fresh(name, "I")
        self.ctx.assume(T.le(lo, k))
        self.ctx.assume(T.lt(k, n))
        return k

    def obj(self, path, **attrs):
        o = SObj(resolve(path))
        object.__setattr__(o, "partial", True)
        o.attrs.update(attrs)
        return o

    # ---- hypotheses / obligations
    def assume(self, *cs):
        for c in cs:
            self.ctx.assume(c)

    def forall(self, n, f):
        """hypothesis: f(i) for all 0 <= i < n (instantiated on demand)"""
        self.ctx.quant.append((n, f))

    def ensure(self, label, goal):
        self.ctx.obligs.append(Oblig(label, list(self.ctx.hyps), T.tobool(goal), list(self.ctx.quant)))

    def cut(self, label, goal):
        """prove, then use"""
        self.ensure(label, goal)
        self.ctx.assume(goal)

    def sos(self, label, expr, squares):
        """expr == sum of w*e^2 (w > 0), hence expr >= 0"""
        s = T.const(0)
        for w, e in squares:
            assert w > 0
            s = T.add(s, T.mul(T.const(w), T.power(e, 2)))
        self.ensure(label + " (sum of squares)", T.eq(expr, s))
        self.ctx.assume(T.le(0, expr))

    def ensure_eq(self, label, a, b):
        self.ensure(label, self.eq(a, b))

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return T.land(*([T.TRUE if len(a) == len(b) else T.FALSE] + [self.eq(x, y) for x, y in zip(a, b)]))
        if isinstance(a, SArr) or isinstance(b, SArr):
            a, b = as_arr(a), as_arr(b)
            if a.ndim != b.ndim:
                return T.FALSE
            out = []
            for x, y in zip(a.shape, b.shape):
                out.append(T.eq(x, y))
            if any(o is T.FALSE for o in out):
                return T.FALSE
            import itertools
            dims = [[self.idx(d)] if isinstance(d, Term) else range(d) for d in a.shape]
            for idx in itertools.product(*dims):
                out.append(self.eq(a.at(idx), b.at(idx)))
            return T.land(*out)
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return T.TRUE if a == b else T.FALSE
        return T.eq(a, b)

    # ---- running the code
    def fn(self, path):
        return resolve(path)

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = resolve(f)
        return self.I.call(f, a, k)

    def method(self, o, name, *a, **k):
        return self.I.call(self.I.getattr(o, name), a, k)

    def get(self, o, name):
        return self.I.getattr(o, name)

    def raises(self, f, *a, **k):
        """-> exception type or None"""
        try:
            self.call(f, *a, **k)
        except PyRaise as e:
            return e.etype
        return None

    def contract(self, path, model):
        self.I.contracts[path] = model
        self.assumed_contracts.add(path)

    def external(self, path, m):
        """assumed contract of a function or class outside the repository"""
        self.I.models = dict(self.I.models)
        self.I.models[resolve(path)] = m
        self.assumed_contracts.add(path + " (external)")

    def loop(self, qual, k, handler):
        self.I.loops[(qual, k)] = handler

    def at(self, a, *idx):
        if isinstance(a, (list, tuple)) and all(isinstance(i, int) for i in idx):
            for i in idx:
                a = a[i] if isinstance(a, (list, tuple)) else getitem(a, (i,), self.ctx.decide)
            return a
        return getitem(as_arr(a) if isinstance(a, (list, tuple)) else a, tuple(idx), self.ctx.decide)

    def branch(self, c):
        return self.ctx.branch(c)

    def same(self, a, b, budget=3, hyps=None):
        """are two terms provably equal here? (a proof hint, never a verdict)"""
        return True if a is b else self.holds(T.eq(a, b), budget, hyps)

    def holds(self, c, budget=3, hyps=None):
        """is a condition provable here? (a proof hint, never a verdict); hyps: a fixed subset of the hypotheses (remembered)"""
        c = T.tobool(c)
        hyps = tuple(self.ctx.hyps if hyps is None else hyps)
        key = (c, hyps)
        if key not in HOLDS:
            try:
                HOLDS[key] = P.Prover(budget=budget, z3_timeout=1500).prove(list(hyps), c).status == "proved"
            except Exception:
                HOLDS[key] = False
        return HOLDS[key]

    def angles(self, ts, d, name):
        """substitution replacing every trigonometric argument in ts provably equal to d by a fresh variable (generalisation)"""
        f = {}
        x = T.var(name)
        if isinstance(d, Term) and d.op not in ("var", "const"):
            f[d] = x
        for t in T.subterms(ts):
            if t.op in ("sin", "cos", "tan") and t.args[0] is not d and t.args[0].op not in ("var", "const") and self.same(t.args[0], d):
                f[t.args[0]] = x
        return f


class Oblig:
    __slots__ = ("label", "hyps", "goal", "quant", "status", "backend", "model", "note", "time", "sample")

    def __init__(self, label, hyps, goal, quant=()):
        self.label, self.hyps, self.goal, self.quant = label, hyps, goal, list(quant)
        self.status = None
        self.backend = self.note = ""
        self.model = self.sample = None
        self.time = 0.0


def resolve(path):
    parts = path.split(".")
    for k in range(len(parts), 0, -1):
        try:
            m = importlib.import_module(".".join(parts[:k]))
        except ImportError:
            continue
        o = m
        for p in parts[k:]:
            if isinstance(o, type):
                d = o.__dict__.get(p)
                if isinstance(d, staticmethod):
                    o = d.__func__
                    continue
            o = getattr(o, p)
        return o
    raise AttributeError(path)


def instantiate_quant(ob):
    """instances of universally quantified facts at the index terms in play"""
    if not ob.quant:
        return ob.hyps
    hyps = list(ob.hyps)
    for _ in range(2):
        idx = set()
        for t in T.subterms([ob.goal] + hyps):
            if t.op == "app":
                for a in t.args[1:]:
                    idx.add(a if a.op != "iconst" else a.args[0])
            if t.op in ("ieq0", "ige0"):
                pass
        idx = sorted(idx, key=lambda x: (isinstance(x, Term), x.id if isinstance(x, Term) else x))[:24]
        new = []
        for n, f in ob.quant:
            for i in idx:
                rng = T.land(T.le(0, i), T.lt(i, n))
                if rng is T.FALSE:
                    continue
                try:
                    h = T.implies(rng, f(i))
                except Exception:
                    continue
                if h is not T.TRUE and h not in hyps and h not in new:
                    # detach the range guard where it is known
                    if P.lia_entails(tuple(x for x in hyps if x.op in ("ige0", "ieq0")), rng):
                        h = f(i)
                    if h not in hyps and h is not T.TRUE:
                        new.append(h)
        if not new:
            break
        hyps += new
        if len(hyps) > 400:
            break
    return hyps


def explore(spec, emit=None, maxpaths=MAXPATHS):
    """all paths of a specification -> (obligs, info)"""
    stack = [[]]
    obligs = []
    info = {"paths": 0, "functions": set(), "externals": set(), "contracts": set(), "unsupported": [], "inputs": {}}
    t0 = time.time()
    while stack:
        dec = stack.pop()
        if info["paths"] >= maxpaths or time.time() - t0 > spec.budget * 2:
            info["unsupported"].append("path limit")
            break
        ctx = Ctx(dec)
        v = V(ctx, spec)
        info["paths"] += 1
        try:
            spec.fn(v)
        except Infeasible:
            pass
        except Unsupported as e:
            info["unsupported"].append("%s" % (e,))
        except PyRaise as e:
            ctx.obligs.append(Oblig("no unexpected %s%r" % (e.etype.__name__, tuple(str(a)[:80] for a in e.eargs[:1])),
                                    list(ctx.hyps), T.FALSE, ctx.quant))
        except RecursionError:
            info["unsupported"].append("recursion")
        except Exception as e:      # an engine failure is never a verdict
            tb = traceback.extract_tb(e.__traceback__)[-1]
            info["unsupported"].append("engine: %s: %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc()
        stack.extend(ctx.pending)
        obligs.extend(ctx.obligs)
        info["functions"] |= v.I.called
        info["externals"] |= v.I.externals
        info["contracts"] |= v.assumed_contracts
        info["inputs"].update(v.inputs)
    info["explore_s"] = time.time() - t0
    return obligs, info


def discharge(ob, spec, budget=None, boost=1):
    t0 = time.time()
    try:
        hyps = instantiate_quant(ob)
        pr = P.Prover(budget=(budget or spec.budget) * boost, z3_timeout=spec.z3 * boost, depth=spec.depth)
        if boost > 1:
            pr.seed = 7
        r = pr.prove(hyps, ob.goal)
        ob.status = "proved" if r.status == "proved" else ("refuted?" if r.status.startswith("refuted") else "unknown")
        ob.backend = r.backend
        ob.note = r.note
        ob.model = r.model
        st = pr.stats
    except RecursionError:
        ob.status, ob.note, st = "unknown", "recursion", {}
    ob.time = time.time() - t0
    return st


def falsify(ob, seed=0, tries=300):
    """numeric search for a sample in which the obligation is false"""
    rng = random.Random(seed)
    hyps = instantiate_quant(ob)
    s = P.sample_model(hyps, ob.goal, rng, tries=tries)
    if s is None:
        s = linear_models(hyps, ob.goal, rng)
    return s


def linear_models(hyps, goal, rng, tries=40):
    """points satisfying the (linear view of the) path condition, then checked numerically"""
    import z3
    from . import numeric
    enc = P.LinEnc()
    try:
        fs = [enc.b(h) for h in hyps]
    except Exception:
        return None
    fr = set()
    for t in list(hyps) + [goal]:
        fr |= T.free(t)
    vs = [x for x in fr if isinstance(x, Term)]
    apps = [t for t in T.subterms(list(hyps) + [goal]) if t.op == "app"]
    for k in range(tries):
        s = z3.Solver()
        s.set("timeout", 500)
        for f in fs + enc.cons:
            s.add(f)
        # random preferences
        pref = []
        for v in vs:
            if v.sort == "R":
                c = rng.choice([rng.uniform(-1, 1), rng.uniform(0, 3), rng.uniform(-7, 7), rng.uniform(0, 500)])
                w = abs(c) * 0.2 + 0.05
                x = enc.x(v)
                pref.append(z3.And(x > c - w, x < c + w))
        for a in apps:
            if a.sort == "R":
                c = rng.choice([rng.uniform(-1, 1), rng.uniform(0, 3), rng.uniform(0, 500)])
                x = enc.x(a)
                pref.append(z3.And(x > c - 0.3 - abs(c) * .2, x < c + 0.3 + abs(c) * .2))
        rng.shuffle(pref)
        if s.check() != z3.sat:
            return None
        for p in pref:
            s.push()
            s.add(p)
            if s.check() != z3.sat:
                s.pop()
        if s.check() != z3.sat:
            continue
        m = s.model()

        def val(x):
            v = m.eval(x, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_true(v) or z3.is_false(v):
                return z3.is_true(v)
            return 0.0
        env = {v.args[0]: val(enc.x(v) if v.sort != "B" else enc.b(v)) for v in vs}
        tab = {}
        for a in apps:
            if any(y.op == "psum" or True for y in [a]):
                try:
                    ix = tuple(val(enc.x(i)) for i in a.args[1:])
                    tab[(a.args[0], ix)] = val(enc.x(a) if a.sort != "B" else enc.b(a))
                except Exception:
                    pass

        def mkf(name):
            def f(*idx):
                key = (name, tuple(idx))
                if key not in tab:
                    tab[key] = rng.uniform(0, 2)
                return tab[key]
            return f
        funcs = {n: mkf(n) for n in fr if isinstance(n, str)}
        try:
            if not all(numeric.evaluate(h, env, funcs) for h in hyps):
                continue
            if P.goal_false(goal, env, funcs):
                return env, tab
        except Exception:
            continue
    return None


# ------------------------------------------------------------------ workers
def _job(spec, conn, seed, only=None, boost=1):
    t0 = time.time()
    try:
        sys.setrecursionlimit(20000)
        P.LIA_SCALE = boost
        obligs, info = explore(spec)
        conn.send(("info", {k: (sorted(map(str, v)) if isinstance(v, set) else v) for k, v in info.items() if k != "inputs"},
                   len(obligs)))
        seen = {}
        for i, ob in enumerate(obligs):
            if only is not None and ob.label not in only:
                continue
            key = (tuple(ob.hyps), ob.goal)
            if key in seen and not ob.quant:
                o = seen[key]
                st = {}
                ob.status, ob.backend, ob.note, ob.model, ob.time = o.status, o.backend + "(dup)" if o.backend else "", o.note, o.model, 0.0
                dup = True
            else:
                st = discharge(ob, spec, boost=boost)
                seen[key] = ob
                dup = False
            rec = dict(label=ob.label, status=ob.status, backend=ob.backend, note=ob.note, time=ob.time, stats=st, dup=dup,
                       feasible=None)
            if ob.status != "proved":
                s = None
                try:
                    s = falsify(ob, seed)
                except Exception:
                    s = None
                rec["sample"] = None if s is None else {"vars": s[0], "apps": [[n, list(ix), v] for (n, ix), v in s[1].items()]}
                rec["hyps"] = [T.show(h)[:400] for h in ob.hyps[:60]]
                rec["goal"] = T.show(ob.goal)[:2000]
                if ob.model:
                    rec["model"] = {"vars": ob.model[0], "apps": [[n, list(ix), v] for (n, ix), v in ob.model[1].items()]}
            conn.send(("ob", i, rec))
        # vacuity: the hypotheses of some obligation must be satisfiable
        conn.send(("vac", vacuity(obligs, seed)))
        conn.send(("done", time.time() - t0, dict(P.STATS)))
    except Exception as e:
        conn.send(("error", "%s: %s" % (type(e).__name__, e), traceback.format_exc()))
    finally:
        conn.close()


def vacuity(obligs, seed):
    """is there a concrete point satisfying the hypotheses of some obligation?"""
    rng = random.Random(seed + 7)
    for ob in obligs[:6]:
        if ob.goal is T.FALSE:
            continue
        try:
            s = P.sample_model(ob.hyps, T.FALSE, rng, tries=300)
            if s is None:
                s = linear_models(ob.hyps, T.FALSE, rng, tries=6)
            if s is not None:
                return True
        except Exception:
            pass
    # fall back: not refuted by z3
    for ob in obligs[:3]:
        if ob.goal is not T.FALSE and not P.lia_entails(tuple(ob.hyps), T.FALSE, 2000):
            return "not refuted"
    return False


def run_specs(specs, seed=1, jobs=None, deadline=None, progress=None, only=None, boost=1):
    """run specs in parallel worker processes; returns {name: report}

    only: {spec name: labels} restricts the obligations discharged (a second,
    longer attempt at those a solver gave no answer to)"""
    jobs = jobs or max(1, min(8, os.cpu_count() or 4))
    ctx = mp.get_context("fork")
    pending = list(specs)
    running = {}
    out = {}
    while pending or running:
        while pending and len(running) < jobs:
            sp = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_job, args=(sp, b, seed, only and only.get(sp.name), boost), daemon=True)
            p.start()
            b.close()
            out[sp.name] = dict(spec=sp.name, obligs=[], info=None, total=0, state="running", wall=0, vac=None, err=None, stats={})
            running[sp.name] = (sp, p, a, time.time(), time.time())
        import multiprocessing.connection as mpc
        conns = {r[2]: n for n, r in running.items()}
        ready = mpc.wait(list(conns), timeout=0.5)
        for c in ready:
            n = conns[c]
            sp, p, a, t0, last = running[n]
            rep = out[n]
            try:
                m = c.recv()
            except EOFError:
                if rep["state"] == "running":
                    rep["state"] = "died"
                p.join(1)
                rep["wall"] = time.time() - t0
                del running[n]
                continue
            running[n] = (sp, p, a, t0, time.time())
            if m[0] == "info":
                rep["info"], rep["total"] = m[1], m[2]
            elif m[0] == "ob":
                rep["obligs"].append(m[2])
            elif m[0] == "vac":
                rep["vac"] = m[1]
            elif m[0] == "done":
                rep["state"], rep["wall"], rep["stats"] = "done", m[1], m[2]
            elif m[0] == "error":
                rep["state"], rep["err"] = "error", m[1] + "\n" + m[2]
        now = time.time()
        for n in list(running):
            sp, p, a, t0, last = running[n]
            stall = now - last > sp.budget * 3 * boost + 60
            over = deadline is not None and now > deadline
            if stall or over:
                p.kill()
                p.join(2)
                out[n]["state"] = "timeout"
                out[n]["wall"] = now - t0
                a.close()
                del running[n]
        if deadline is not None and now > deadline:
            for sp in pending:
                out[sp.name] = dict(spec=sp.name, obligs=[], info=None, total=0, state="not run", wall=0, vac=None, err=None, stats={})
            pending = []
    return out
