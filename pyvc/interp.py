"""Symbolic interpreter for the Python source in /repo.

The AST is parsed from the file that defines each function on every run.
Paths are enumerated by re-execution; repo functions without a contract are
inlined, functions with a contract are replaced by it.
"""
import ast
import builtins
import copy as _copy
import functools
import inspect
import itertools
import math
import operator
import types
import numpy as np
from . import terms as T
from .terms import Term
from .symloop import AccList
from .arrays import (SArr, Masked, IdxSet, SymRange, SymList, Unsupported, PyRaise, as_arr, scalar_arr,
                     elementwise, getitem, setitem, kind_of, norm_scalar, from_numpy, join_kind, full,
                     conv_elem, bshape, bget, concrete_mask, dim_eq, CUR)
from . import prove as P


_gen_counter = itertools.count(1)


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ context
class Ctx:
    """one path: decisions, hypotheses, obligations"""
    def __init__(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.hyps = []
        self.trace = []       # (cond, taken)
        self.fresh_n = 0
        self.quant = []       # (n, f: idx -> Bool) facts for all 0<=idx<n
        self.obligs = []
        self.pending = []
        self.steps = 0
        self.notes = []
        self.writes = {}      # cell id -> description of protected arrays
        self.gen = next(_gen_counter)

    def fresh(self, name, sort="R"):
        self.fresh_n += 1
        return T.var("%s#%d" % (name, self.fresh_n), sort)

    def assume(self, c):
        c = T.tobool(c)
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise Infeasible()
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        if c not in self.hyps:
            if T.lnot(c) in self.hyps:
                raise Infeasible()
            self.hyps.append(c)

    def decide(self, c):
        """True/False if settled by the hypotheses, else None"""
        c = T.tobool(c)
        b = T.bval(c)
        if b is not None:
            return b
        if c in self.hyps:
            return True
        n = T.lnot(c)
        if n in self.hyps:
            return False
        rel = P._relevant(tuple(self.hyps), c)
        if P.lia_entails(rel, c):
            return True
        if P.lia_entails(rel, n):
            return False
        return None

    def branch(self, c):
        c = T.tobool(c)
        b = self.decide(c)
        if b is not None:
            return b
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = True
            self.pending.append(self.decisions[:self.pos] + [False])
            self.decisions.append(True)
        self.pos += 1
        self.trace.append((c, v))
        self.assume(c if v else T.lnot(c))
        return v


# ------------------------------------------------------------------ values
class SObj:
    """instance of a repo class"""
    def __init__(self, cls):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "attrs", {})
        # built by a contract with only the attributes it needs: code that reads another one is
        # outside the contract (Unsupported), it has not gone wrong (AttributeError)
        object.__setattr__(self, "partial", False)

    def __repr__(self):
        return "<%s %s>" % (self.cls.__name__, sorted(self.attrs))


class Fn:
    """function whose body is interpreted"""
    def __init__(self, node, glob, closure, qual, defaults, kwdefaults, cls=None):
        self.node, self.glob, self.closure, self.qual = node, glob, closure, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Model:
    """python-level model of an external callable"""
    def __init__(self, f, name=""):
        self.f, self.name = f, name


class SuperObj:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Opaque:
    """a value only passed around (strings built from symbols, ...)"""
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<opaque %s>" % self.what


class Frame:
    __slots__ = ("vars", "glob", "closure", "fn", "nonlocals", "globals_decl")

    def __init__(self, glob, closure, fn):
        self.vars, self.glob, self.closure, self.fn = {}, glob, closure, fn
        self.nonlocals = set()
        self.globals_decl = set()


_src = {}


def file_ast(path):
    if path not in _src:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        idx = {}

        def walk(node, pre):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    q = pre + ch.name
                    idx.setdefault(q, []).append(ch)
                    walk(ch, q + ("." if isinstance(ch, ast.ClassDef) else ".<locals>."))
                elif isinstance(ch, ast.Lambda):
                    idx.setdefault(("lambda", ch.lineno), []).append(ch)
                    walk(ch, pre)
                else:
                    walk(ch, pre)
        walk(tree, "")
        _src[path] = (tree, idx)
    return _src[path]


def func_node(f):
    code = f.__code__
    tree, idx = file_ast(code.co_filename)
    if f.__name__ == "<lambda>":
        c = idx.get(("lambda", code.co_firstlineno), [])
        if len(c) == 1:
            return c[0]
        raise Unsupported("cannot locate lambda at %s:%d" % (code.co_filename, code.co_firstlineno))
    for node in idx.get(f.__qualname__, []):
        lines = [node.lineno] + [d.lineno for d in node.decorator_list]
        if code.co_firstlineno in lines:
            return node
    raise Unsupported("source of %s not found" % f.__qualname__)


REPO_PREFIX = "welleng"


def is_repo(x):
    m = getattr(x, "__module__", None)
    return isinstance(m, str) and (m == REPO_PREFIX or m.startswith(REPO_PREFIX + ".") or m == "pyvc.selftest_cases")


class Interp:
    def __init__(self, ctx, contracts=None, loops=None, maxsteps=400000):
        self.set_ctx(ctx)
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.maxsteps = maxsteps
        self.called = set()
        self.externals = set()
        self.attr_stores = 0
        self.handling = []
        self.shared = {}
        self.depth = 0
        from . import npmodels
        self.models = npmodels.MODELS
        self.nm = npmodels

    def set_ctx(self, c):
        self.ctx = c
        CUR["decide"] = c.decide
        CUR["gen"] = c.gen

    # -------------------------------------------------------- lifting
    def lift(self, v):
        """host value -> interpreter value"""
        if isinstance(v, float):
            return T.const(v)
        if isinstance(v, np.generic):
            return norm_scalar(v)
        if isinstance(v, np.ndarray):
            return from_numpy(v)
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.lift(x) for x in v)
        if isinstance(v, list):
            return [self.lift(x) for x in v]
        return v

    def lower(self, v):
        """interpreter value -> host value, or raise Unsupported"""
        if isinstance(v, Term):
            c = T.cval(v)
            if c is not None:
                return float(c) if v.sort == "R" else int(c)
            if v.op == "special":
                return float(v.args[0])
            if v is T.TRUE or v is T.FALSE:
                return v is T.TRUE
            if not T.free(v):
                from .numeric import evaluate
                return evaluate(v, {})
            raise Unsupported("symbolic value passed to an external function")
        if isinstance(v, SArr):
            if not v.concrete_shape():
                raise Unsupported("symbolic array passed to an external function")
            out = np.empty(v.shape, dtype={"f": float, "i": int, "b": bool, "o": object}[v.kind])
            for idx in v.indices():
                out[idx] = self.lower(v.at(idx))
            return out
        if isinstance(v, tuple):
            return tuple(self.lower(x) for x in v)
        if isinstance(v, list):
            return [self.lower(x) for x in v]
        if isinstance(v, dict):
            return {self.lower(k): self.lower(x) for k, x in v.items()}
        if isinstance(v, (SObj, Fn, Bound, Masked, IdxSet, SymRange, SymList, Opaque)):
            raise Unsupported("interpreted value passed to an external function")
        return v

    def concrete(self, v):
        try:
            self.lower(v)
            return True
        except Unsupported:
            return False

    # -------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported("recursion depth")
        try:
            return self._call(f, list(args), dict(kw))
        finally:
            self.depth -= 1

    def _call(self, f, args, kw):
        if isinstance(f, Model):
            return f.f(self, *args, **kw)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            return self._call(f.fn, [f.obj] + args, kw)
        if isinstance(f, functools.partial):
            return self._call(f.func, [self.lift(a) for a in f.args] + args, {**f.keywords, **kw})
        if isinstance(f, types.MethodType):
            if is_repo(f.__func__) or isinstance(f.__self__, type):
                return self._call(f.__func__, [f.__self__] + args, kw)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            self.externals.add(getattr(f, "__name__", str(f)))
            return m(self, *args, **kw)
        if isinstance(f, types.FunctionType) and is_repo(f):
            return self.call_fn(self.wrap(f), args, kw)
        if isinstance(f, type) and (is_repo(f)):
            return self.instantiate(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            try:
                return f(*[a if isinstance(a, str) else str(a) for a in args])
            except Exception:
                return f()
        if isinstance(f, (types.MethodType, types.BuiltinMethodType)) and not callable(None):
            pass
        # host methods of containers may hold interpreter values
        if isinstance(f, types.BuiltinMethodType):
            s = f.__self__
            if isinstance(s, (list, dict, set)) or isinstance(s, tuple):
                return self.container_method(f, s, args, kw)
            if isinstance(s, str):
                if f.__name__ in ("format", "join") and not all(self.concrete(a) for a in args):
                    return Opaque("str")
        if f is getattr(builtins, "print", None):
            return None
        # plain host call on concrete values
        largs = [self.lower(a) for a in args]
        lkw = {k: self.lower(v) for k, v in kw.items()}
        self.externals.add(getattr(f, "__qualname__", getattr(f, "__name__", repr(f)))[:60])
        try:
            return self.lift(f(*largs, **lkw))
        except (Unsupported, PyRaise):
            raise
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def container_method(self, f, s, args, kw):
        if args and f.__name__ in ("extend", "update", "union", "difference", "intersection") and not all(isinstance(a, (list, tuple, dict, set, str)) for a in args):
            # the elements, whatever holds them
            args = [a if isinstance(a, (list, tuple, dict, set, str)) else self.iterate(a) for a in args]
            if not all(isinstance(a, (list, tuple, dict, set, str, range)) for a in args):
                raise Unsupported("a container extended by a symbolic sequence")
        try:
            return f(*args, **kw)
        except TypeError as e:
            if "symbolic" in str(e):
                raise Unsupported("container operation on symbolic keys")
            raise PyRaise(type(e), e.args)
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def wrap(self, f):
        w = getattr(f, "__wrapped__", None)
        if w is not None and isinstance(w, types.FunctionType):
            f = w
        node = func_node(f)
        clo = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    clo[n] = c.cell_contents
                except ValueError:
                    pass
        d = tuple(self.lift_default(x) for x in (f.__defaults__ or ()))
        kd = {k: self.lift_default(v) for k, v in (f.__kwdefaults__ or {}).items()}
        qual = f.__module__ + "." + f.__qualname__
        return Fn(node, f.__globals__, [clo] if clo else [], qual, d, kd)

    def lift_default(self, v):
        # default values are shared by all calls
        if isinstance(v, (list, dict, set)):
            if id(v) not in self.shared:
                self.shared[id(v)] = self.lift(v)
            return self.shared[id(v)]
        return self.lift(v)

    def instantiate(self, cls, args, kw):
        q = cls.__module__ + "." + cls.__qualname__
        c = self.contracts.get(q)
        if c is not None:
            self.called.add(q + " [contract]")
            return c(self, *args, **kw)
        if issubclass(cls, BaseException):
            return cls(*[str(a) for a in args])
        if hasattr(cls, "__dataclass_fields__"):
            return self.dataclass(cls, args, kw)
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            o = SObj(cls)
            for n, v in zip(cls._fields, args):
                o.attrs[n] = v
            o.attrs.update(kw)
            return o
        import enum
        if issubclass(cls, enum.Enum):
            return cls(*args)
        o = SObj(cls)
        init = getattr(cls, "__init__", None)
        if isinstance(init, types.FunctionType):
            self.call(init, [o] + list(args), kw)
        elif args or kw:
            raise PyRaise(TypeError, ("takes no arguments",))
        return o

    def dataclass(self, cls, args, kw):
        import dataclasses
        o = SObj(cls)
        fs = [f for f in dataclasses.fields(cls) if f.init]
        for f, v in zip(fs, args):
            o.attrs[f.name] = v
        for f in fs[len(args):]:
            if f.name in kw:
                o.attrs[f.name] = kw.pop(f.name)
            elif f.default is not dataclasses.MISSING:
                o.attrs[f.name] = self.lift(f.default)
            elif f.default_factory is not dataclasses.MISSING:
                o.attrs[f.name] = self.call(f.default_factory)
            else:
                raise PyRaise(TypeError, ("missing argument " + f.name,))
        if kw:
            raise PyRaise(TypeError, ("unexpected arguments",))
        post = getattr(cls, "__post_init__", None)
        if post is not None:
            self.call(post, [o])
        return o

    def call_fn(self, fn, args, kw):
        c = self.contracts.get(fn.qual)
        if c is not None:
            self.called.add(fn.qual + " [contract]")
            return c(self, *args, **kw)
        self.called.add(fn.qual)
        return self.exec_fn(fn, args, kw)

    def exec_fn(self, fn, args, kw):
        fr = Frame(fn.glob, fn.closure, fn)
        self.bind(fn, fr, args, kw)
        node = fn.node
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, fr)
        if _is_gen(node):
            return self.run_generator(node, fr)
        try:
            self.block(node.body, fr)
        except _Return as r:
            return r.v
        return None

    def run_generator(self, node, fr):
        # eager: collect the yields (finite generators only)
        out = []
        fr.vars["!yield"] = out
        try:
            self.block(node.body, fr)
        except _Return:
            pass
        return iter(out)

    def bind(self, fn, fr, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        V = fr.vars
        nd = len(fn.defaults)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError, ("too many positional arguments",))
            V[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            V[a.vararg.arg] = ()
        for n, v in zip(names, args):
            V[n] = v
        for i, n in enumerate(names[len(args):], len(args)):
            if n in kw:
                V[n] = kw.pop(n)
            else:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise(TypeError, ("missing argument %s" % n,))
                V[n] = fn.defaults[j]
        for x in a.kwonlyargs:
            n = x.arg
            if n in kw:
                V[n] = kw.pop(n)
            elif n in fn.kwdefaults:
                V[n] = fn.kwdefaults[n]
            else:
                raise PyRaise(TypeError, ("missing keyword %s" % n,))
        if a.kwarg is not None:
            V[a.kwarg.arg] = dict(kw)
        elif kw:
            raise PyRaise(TypeError, ("unexpected keyword argument %s" % sorted(kw),))

    # -------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.ctx.steps += 1
        if self.ctx.steps > self.maxsteps:
            raise Unsupported("step limit")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, (ast.Yield,)):
            fr.vars["!yield"].append(self.ev(s.value.value, fr) if s.value.value else None)
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            new = self.aug(s.op, old, self.ev(s.value, fr))
            self.setname(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            old = self.subscript(o, k)
            new = self.binop(s.op, old, self.ev(s.value, fr))
            self.store(o, k, new)
        else:
            raise Unsupported("augmented target")

    def aug(self, op, old, val):
        if isinstance(old, SArr) and old.ndim:
            new = self.binop(op, old, val)
            if isinstance(new, SArr) and len(new.shape) == len(old.shape):
                # in place, as numpy does
                if isinstance(op, ast.Div) and old.kind == "i":
                    raise PyRaise(TypeError, ("cannot cast in-place",))
                g = new.snapshot()
                k = old.kind
                old.store(lambda v: T.TRUE, lambda v: conv_elem(g(v), k) if k != "o" else g(v))
                return old
            raise Unsupported("in-place broadcast")
        if isinstance(old, list) and isinstance(op, ast.Add):
            if isinstance(val, (list, tuple)):
                old.extend(val)
                return old
        return self.binop(op, old, val)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(AssertionError, ())

    def s_Raise(self, s, fr):
        if s.exc is None:
            if self.handling:
                raise self.handling[-1]
            raise PyRaise(RuntimeError, ("no active exception to reraise",))
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            raise PyRaise(e, ())
        if isinstance(e, BaseException):
            raise PyRaise(type(e), e.args)
        raise PyRaise(Exception, ())

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ty = self.ev(h.type, fr)
                        match = issubclass(e.etype, ty)
                    if match:
                        if h.name:
                            try:
                                ex = e.etype(*e.eargs)
                            except Exception:
                                ex = e.etype.__new__(e.etype)
                            fr.vars[h.name] = ex
                        self.handling.append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling.pop()
                        return
                raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        sup = []
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            import contextlib
            if isinstance(v, contextlib.suppress):
                sup.extend(v._exceptions)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            if sup and issubclass(e.etype, tuple(sup)):
                return
            raise

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.vars[a.asname or a.name.split(".")[0]] = m if a.asname else importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.glob.get("__package__") or fr.glob.get("__name__", "").rpartition(".")[0]
        m = importlib.import_module("." * s.level + (s.module or ""), pkg if s.level else None)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                try:
                    v = importlib.import_module(m.__name__ + "." + a.name)
                except ImportError as e:
                    raise PyRaise(ImportError, e.args)
            fr.vars[a.asname or a.name] = v

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if isinstance(o, (list, dict)):
                    del o[k]
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                o.attrs.pop(t.attr, None)

    def s_FunctionDef(self, s, fr):
        fr.vars[s.name] = self.make_fn(s, fr, s.name)
        for d in reversed(s.decorator_list):
            raise Unsupported("decorated inner function")

    def s_ClassDef(self, s, fr):
        raise Unsupported("local class")

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def make_fn(self, node, fr, name):
        a = node.args
        d = tuple(self.ev(x, fr) for x in a.defaults)
        kd = {x.arg: self.ev(v, fr) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        q = (fr.fn.qual if fr.fn else "?") + ".<locals>." + name
        return Fn(node, fr.glob, [fr.vars] + list(fr.closure), q, d, kd)

    def s_While(self, s, fr):
        spec = self.loopspec(s, fr)
        if spec is not None:
            return spec(self, s, fr)
        n = 0
        while self.truth(self.ev(s.test, fr)):
            n += 1
            if n > 200:
                raise Unsupported("while loop without an invariant")
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue
            if self.ctx.pos > 60:
                raise Unsupported("while loop without an invariant")
        self.block(s.orelse, fr)

    def loopspec(self, s, fr):
        if not self.loops or fr.fn is None:
            return None
        loops = _loops_of(fr.fn.node)
        try:
            k = loops.index(s)
        except ValueError:
            return None
        return self.loops.get((fr.fn.qual, k))

    def s_For(self, s, fr):
        spec = self.loopspec(s, fr)
        if spec is not None:
            return spec(self, s, fr)
        it = self.ev(s.iter, fr)
        seq = self.iterate(it)
        if isinstance(seq, SymList):
            return self.symloop(s, seq, fr)
        for v in seq:
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, fr)

    def symloop(self, s, seq, fr):
        """for-loop over a sequence of symbolic length whose iterations are
        independent: element stores a[i] = v and list appends become maps"""
        from .symloop import run
        return run(self, s, seq, fr)

    # -------------------------------------------------------- names
    def name(self, n, fr):
        if n in fr.vars:
            return fr.vars[n]
        for c in fr.closure:
            if n in c:
                return c[n]
        if n in fr.glob:
            return self.globval(fr.glob, n)
        if hasattr(builtins, n):
            return getattr(builtins, n)
        if _assigned_in(fr.fn, n):
            raise PyRaise(UnboundLocalError, (n,))
        raise PyRaise(NameError, (n,))

    def globval(self, glob, n):
        v = glob[n]
        if isinstance(v, (float, np.generic, np.ndarray)):
            return self.lift(v)
        return v

    def setname(self, n, v, fr):
        if n in fr.nonlocals:
            for c in fr.closure:
                if n in c:
                    c[n] = v
                    return
        fr.vars[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.store(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def unpack(self, t, v, fr):
        seq = self.iterate(v)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(seq, SymList):
            # unpacking a sequence of symbolic length fixes the length
            k = len(t.elts)
            if star:
                raise Unsupported("starred unpacking of symbolic length")
            if not self.ctx.branch(T.eq(seq.n, k)):
                raise PyRaise(ValueError, ("unpack",))
            seq = [seq.get(i) for i in range(k)]
        seq = list(seq)
        if not star:
            if len(seq) != len(t.elts):
                raise PyRaise(ValueError, ("not enough/too many values to unpack",))
            for e, x in zip(t.elts, seq):
                self.assign(e, x, fr)
            return
        i = star[0]
        after = len(t.elts) - i - 1
        if len(seq) < len(t.elts) - 1:
            raise PyRaise(ValueError, ("unpack",))
        for e, x in zip(t.elts[:i], seq[:i]):
            self.assign(e, x, fr)
        self.assign(t.elts[i].value, seq[i:len(seq) - after], fr)
        for e, x in zip(t.elts[i + 1:], seq[len(seq) - after:]):
            self.assign(e, x, fr)

    # -------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, float):
            return T.const(e.value)
        if isinstance(e.value, complex):
            raise Unsupported("complex literal")
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                seq = self.iterate(self.ev(x.value, fr))
                if isinstance(seq, SymList):
                    raise Unsupported("star of symbolic length")
                out.extend(seq)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                try:
                    x = self.lower(x)
                    spec = ""
                    if v.format_spec is not None:
                        spec = self.e_JoinedStr(v.format_spec, fr)
                        if isinstance(spec, Opaque):
                            return spec
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    parts.append(format(x, spec))
                except Unsupported:
                    parts = None
                    break
        return Opaque("fstring") if parts is None else "".join(parts)

    def e_FormattedValue(self, e, fr):
        return Opaque("fstring")

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.subscript(self.ev(e.value, fr), self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Lambda(self, e, fr):
        return self.make_fn(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        c = self.truthval(self.ev(e.test, fr))
        b = self.ctx.decide(c)
        if b is None:
            # merge simple scalars instead of splitting the path
            if _simple(e.body) and _simple(e.orelse):
                x, y = self.ev(e.body, fr), self.ev(e.orelse, fr)
                if self.is_scalar(x) and self.is_scalar(y):
                    return T.ite(c, x, y)
            b = self.ctx.branch(c)
        return self.ev(e.body if b else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def is_scalar(self, x):
        return isinstance(x, (Term, int, float, bool)) or isinstance(x, np.generic)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, Term) and v.sort == "B" and all(_pure(y) for y in e.values[i + 1:]):
                b = self.ctx.decide(v)
                if b is None:
                    # no side effects: combine into one condition
                    try:
                        w = self.boolop_rest(e.op, e.values[i + 1:], fr)
                    except (PyRaise, Unsupported):
                        w = NotImplemented
                    if w is not NotImplemented:
                        return T.land(v, w) if isand else T.lor(v, w)
                else:
                    if b != isand:
                        return b
                    continue
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def boolop_rest(self, op, vals, fr):
        out = []
        for x in vals:
            w = self.ev(x, fr)
            if isinstance(w, bool) or isinstance(w, Term) and w.sort == "B":
                out.append(w)
            else:
                return NotImplemented
        return T.land(*out) if isinstance(op, ast.And) else T.lor(*out)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            c = self.truthval(v)
            b = T.bval(c)
            return T.lnot(c) if b is None else (not b)
        if isinstance(e.op, ast.USub):
            return self.unary(T.neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            k = kind_of(v)
            if k == "b":
                return self.map1(T.lnot, v, "b")
            return self.unary(lambda x: T.sub(T.neg(x), 1), v)
        raise Unsupported("unary")

    def unary(self, f, v):
        return self.map1(f, v, kind_of(v))

    def map1(self, f, v, kind):
        if isinstance(v, (SArr, Masked)):
            return elementwise(f, kind, v)
        if self.is_scalar(v):
            return _unwrap(f(norm_scalar(v)))
        if isinstance(v, (list, tuple)):
            return elementwise(f, kind, as_arr(v))
        if isinstance(v, SObj):
            raise Unsupported("operator on an object")
        raise PyRaise(TypeError, ("bad operand",))

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, SObj) or isinstance(b, SObj):
            return self.obj_binop(op, a, b)
        seqs = (list, tuple, str, set, dict)
        sa, sb = isinstance(a, seqs), isinstance(b, seqs)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        if isinstance(op, ast.Add) and sa and sb:
            if type(a) is not type(b):
                raise PyRaise(TypeError, ("concatenate",))
            return a + b
        if isinstance(op, ast.Mult) and (sa or sb) and not isinstance(a, SArr) and not isinstance(b, SArr):
            s, n = (a, b) if sa else (b, a)
            if isinstance(n, Term):
                if isinstance(s, list) and len(s) == 1 and n.sort == "I":
                    v = s[0]
                    return SymList(n, lambda i: v)
                raise Unsupported("sequence repeated a symbolic number of times")
            return s * n
        if isinstance(op, ast.Mod) and isinstance(a, str):
            try:
                return a % self.lower(b)
            except Unsupported:
                return Opaque("str")
        if isinstance(a, set) and isinstance(b, set):
            return {ast.BitOr: a.__or__, ast.BitAnd: a.__and__, ast.Sub: a.__sub__}[type(op)](b)
        if isinstance(a, dict) and isinstance(b, dict) and isinstance(op, ast.BitOr):
            return {**a, **b}
        if isinstance(op, ast.MatMult):
            return self.nm.matmul(self, a, b)
        if isinstance(a, SymRange):
            a = as_arr(a)
        if isinstance(b, SymRange):
            b = as_arr(b)
        ka, kb = kind_of(a) if not sa else as_arr(a).kind, kind_of(b) if not sb else as_arr(b).kind
        if (sa or sb) and (isinstance(a, Term) and a.sort == "R" or isinstance(b, Term) and b.sort == "R") and (
                isinstance(a, (list, tuple)) or isinstance(b, (list, tuple))):
            # a numpy scalar (results of numpy reductions are not told apart from Python floats) converts the sequence
            a, b = as_arr(a), as_arr(b)
            sa = sb = False
        if (sa or sb) and not isinstance(a, (SArr, Masked)) and not isinstance(b, (SArr, Masked)):
            raise PyRaise(TypeError, ("unsupported operand types",))
        if a is None or b is None:
            raise PyRaise(TypeError, ("unsupported operand type NoneType",))
        if "o" in (ka, kb) and not (isinstance(a, SArr) or isinstance(b, SArr)):
            # host objects (pint quantities, ...)
            return self.host_binop(op, a, b)
        f, kind = self.opfun(op, ka, kb)
        arr = isinstance(a, (SArr, Masked)) or isinstance(b, (SArr, Masked))
        if not arr and isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            # scalar division by zero raises in Python (numpy scalars do not)
            if T.cval(b) == 0:
                raise PyRaise(ZeroDivisionError, ())
        if arr:
            return elementwise(f, kind, a, b)
        return _unwrap(f(norm_scalar(a), norm_scalar(b)))

    def host_binop(self, op, a, b):
        fn = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
              ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_}.get(type(op))
        if fn is None:
            raise Unsupported("operator on host objects")
        try:
            return self.lift(fn(self.lower(a), self.lower(b)))
        except (Unsupported, PyRaise):
            raise
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def obj_binop(self, op, a, b):
        nm = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv"}.get(type(op))
        if nm is None:
            raise Unsupported("object operator")
        if isinstance(a, SObj) and hasattr(a.cls, "__%s__" % nm):
            return self.call(self.getattr(a, "__%s__" % nm), [b])
        if isinstance(b, SObj) and hasattr(b.cls, "__r%s__" % nm):
            return self.call(self.getattr(b, "__r%s__" % nm), [a])
        raise PyRaise(TypeError, ("unsupported operand",))

    def opfun(self, op, ka, kb):
        k = join_kind(ka, kb)
        if k == "o":
            k = "f"
        num = "i" if k == "b" else k

        def ari(f):
            def g(x, y):
                if x is None or y is None:
                    raise PyRaise(TypeError, ("NoneType",))
                if isinstance(x, bool):
                    x = int(x)
                if isinstance(y, bool):
                    y = int(y)
                if isinstance(x, Term) and x.sort == "B":
                    x = T.ite(x, 1, 0)
                if isinstance(y, Term) and y.sort == "B":
                    y = T.ite(y, 1, 0)
                if num == "f":
                    x, y = T.toreal(x), T.toreal(y)
                return f(x, y)
            return g
        if isinstance(op, ast.Add):
            if k == "b":
                return (lambda x, y: T.lor(x, y)), "b"
            return ari(T.add), num
        if isinstance(op, ast.Sub):
            return ari(T.sub), num
        if isinstance(op, ast.Mult):
            if k == "b":
                return (lambda x, y: T.land(x, y)), "b"
            return ari(T.mul), num
        if isinstance(op, ast.Div):
            return ari(lambda x, y: T.div(x, y)), "f"
        if isinstance(op, ast.Pow):
            return ari(T.power), num
        if isinstance(op, ast.Mod):
            def fm(x, y):
                r = T.fmod(x, y)
                if isinstance(r, Term) and r.op not in ("imod",) and T.cval(y) is not None or (isinstance(y, Term) and not T.free(y)):
                    if isinstance(x, Term) and x.sort == "R" and not any(t.op == "app" and len(t.args) > 1 for t in [x]):
                        if self.ctx.decide(T.land(T.le(0, x), T.lt(x, y))) is True:
                            return T.toreal(x)
                return r
            return ari(fm), num
        if isinstance(op, ast.FloorDiv):
            def fd(x, y):
                if T.isint(x) and T.isint(y):
                    if not isinstance(x, Term) and not isinstance(y, Term):
                        return x // y
                    if T.cval(y) is None or T.cval(y) == 0:
                        raise Unsupported("symbolic integer division")
                    return T.floor(T.div(T.toreal(x), T.toreal(y)))
                return T.toreal(T.floor(T.div(x, y)))
            return ari(fd), num
        if isinstance(op, ast.BitAnd):
            if k == "b":
                return (lambda x, y: T.land(x, y)), "b"
        if isinstance(op, ast.BitOr):
            if k == "b":
                return (lambda x, y: T.lor(x, y)), "b"
        if isinstance(op, ast.BitXor):
            if k == "b":
                return (lambda x, y: T.lnot(T.eq(T.tobool(x), T.tobool(y)))), "b"
        if k == "i" or k == "b":
            fn = {ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
                  ast.LShift: operator.lshift, ast.RShift: operator.rshift}.get(type(op))
            if fn:
                def h(x, y):
                    if isinstance(x, Term) or isinstance(y, Term):
                        raise Unsupported("symbolic bit operation")
                    return fn(x, y)
                return h, "i"
        raise Unsupported("operator %s" % type(op).__name__)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            c = self.truthval(c)
            res = c if res is None else T.land(res, c)
            if res is T.FALSE:
                return False
            left = right
        b = T.bval(res)
        return res if b is None else b

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b or (isinstance(a, Term) and a.sort == "B" and isinstance(b, bool) and T.bval(a) == b)
            if isinstance(a, (bool, np.bool_)) and isinstance(b, bool):
                r = bool(a) == b
            if isinstance(a, Term) and a.sort == "B" and T.bval(a) is None and isinstance(b, bool):
                r = a if b else T.lnot(a)
                return r if isinstance(op, ast.Is) else T.lnot(r)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                if isinstance(r, Term):
                    return T.lnot(r)
                return not r
            return r
        if isinstance(a, (SArr, Masked)) or isinstance(b, (SArr, Masked)):
            if a is None or b is None:
                return isinstance(op, ast.NotEq)
            if isinstance(a, str) or isinstance(b, str):
                return isinstance(op, ast.NotEq)
            f = self.cmpfun(op)
            return elementwise(f, "b", a, b)
        sc = self.is_scalar
        if sc(a) and sc(b):
            r = self.cmpfun(op)(norm_scalar(a), norm_scalar(b))
            v = T.bval(r)
            return r if v is None else v
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.py_eq(a, b)
            if isinstance(op, ast.NotEq):
                return T.lnot(r) if isinstance(r, Term) else (not r)
            return r
        if a is None or b is None:
            raise PyRaise(TypeError, ("'<' not supported",))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) or isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)](
                self.lower(a), self.lower(b))
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            raise PyRaise(TypeError, ("ordering",))
        raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))

    def py_eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            r = T.TRUE
            for x, y in zip(a, b):
                c = self.compare(ast.Eq(), x, y)
                r = T.land(r, self.truthval(c))
            v = T.bval(r)
            return r if v is None else v
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            r = T.TRUE
            for k in a:
                r = T.land(r, self.truthval(self.compare(ast.Eq(), a[k], b[k])))
            v = T.bval(r)
            return r if v is None else v
        if isinstance(a, SObj) or isinstance(b, SObj):
            if a is b:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj) and x.cls.__eq__ is not object.__eq__:
                    if "__dataclass_fields__" in vars(x.cls):
                        if not isinstance(y, SObj) or y.cls is not x.cls:
                            return False
                        return self.py_eq([x.attrs.get(f) for f in x.cls.__dataclass_fields__],
                                          [y.attrs.get(f) for f in x.cls.__dataclass_fields__])
                    if is_repo(x.cls.__eq__):
                        return self.call(self.getattr(x, "__eq__"), [y])
            return False
        if isinstance(a, Term) or isinstance(b, Term):
            return False
        if isinstance(a, (SymList,)) or isinstance(b, SymList):
            raise Unsupported("equality of symbolic lists")
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported("host equality")

    def cmpfun(self, op):
        f = {ast.Eq: T.eq, ast.NotEq: T.ne, ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge}[type(op)]

        def g(x, y):
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if isinstance(op, ast.Eq):
                    return T.tobool(x == y) if not isinstance(x, Term) and not isinstance(y, Term) else T.FALSE
                if isinstance(op, ast.NotEq):
                    return T.tobool(x != y) if not isinstance(x, Term) and not isinstance(y, Term) else T.TRUE
                raise PyRaise(TypeError, ("ordering",))
            if isinstance(x, bool) and not (isinstance(y, bool) or isinstance(y, Term) and y.sort == "B"):
                x = int(x)
            if isinstance(y, bool) and not (isinstance(x, bool) or isinstance(x, Term) and x.sort == "B"):
                y = int(y)
            return T.tobool(f(x, y))
        return g

    def contains(self, c, x):
        if isinstance(c, (dict, set, str)) or isinstance(c, (type({}.keys()), type({}.values()))):
            if isinstance(x, Term):
                if T.cval(x) is not None and isinstance(c, (dict, set)):
                    v = T.cval(x)
                    return any((isinstance(k, (int, float)) and k == v) or k is x for k in c)
                raise Unsupported("symbolic membership")
            if isinstance(c, str) and not isinstance(x, str):
                raise PyRaise(TypeError, ("in <string>",))
            try:
                return x in c
            except TypeError as e:
                raise PyRaise(TypeError, e.args)
        if isinstance(c, range) and not isinstance(x, Term):
            return x in c
        if isinstance(c, Opaque):
            raise Unsupported("membership in an opaque value")
        seq = self.iterate(c)
        if isinstance(seq, SymList):
            raise Unsupported("membership in symbolic sequence")
        r = T.FALSE
        for y in seq:
            if y is x:
                return True
            e = self.compare(ast.Eq(), x, y)
            if isinstance(e, SArr):
                e = self.nm.m_any(self, e)
            r = T.lor(r, self.truthval(e))
            if r is T.TRUE:
                return True
        v = T.bval(r)
        return r if v is None else v

    # -------------------------------------------------------- truth
    def truthval(self, v):
        """-> Bool term"""
        if isinstance(v, Term):
            return T.tobool(v)
        if isinstance(v, SArr):
            if v.ndim == 0:
                return self.truthval(v.at(()))
            if all(not isinstance(d, Term) and d == 1 for d in v.shape):
                return self.truthval(v.at((0,) * v.ndim))
            raise PyRaise(ValueError, ("truth value of an array is ambiguous",))
        if isinstance(v, SymList):
            return T.lt(0, v.n)
        if isinstance(v, SymRange):
            return T.lt(0, v.n)
        if isinstance(v, (SObj, Fn, Bound, Model)):
            if isinstance(v, SObj):
                if hasattr(v.cls, "__bool__") or hasattr(v.cls, "__len__"):
                    raise Unsupported("object truth")
            return T.TRUE
        if isinstance(v, (Opaque, Masked, IdxSet, AccList)):
            raise Unsupported("truth of %r" % (v,))
        return T.TRUE if v else T.FALSE

    def truth(self, v):
        c = self.truthval(v)
        return self.ctx.branch(c)

    # -------------------------------------------------------- iteration
    def iterate(self, v):
        """-> list, or SymList"""
        if isinstance(v, AccList):
            raise Unsupported("iteration over a list that grows in a loop of symbolic length")
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise PyRaise(TypeError, ("iteration over a 0-d array",))
            n = v.shape[0]
            if isinstance(n, Term):
                d = self.ctx
                return SymList(n, lambda i: getitem(v, i, d.decide))
            return [getitem(v, i, self.ctx.decide) for i in range(n)]
        if isinstance(v, SymList):
            return v
        if isinstance(v, SymRange):
            return SymList(v.n, lambda i: T.iadd(v.start, T.imul(i, v.step)))
        if isinstance(v, (list, tuple, range, set, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, np.ndarray):
            return self.iterate(from_numpy(v))
        if isinstance(v, SObj):
            if issubclass(v.cls, tuple) and hasattr(v.cls, "_fields"):
                return [v.attrs[f] for f in v.cls._fields]
            if hasattr(v.cls, "__iter__"):
                return self.iterate(self.call(self.getattr(v, "__iter__")))
            raise PyRaise(TypeError, ("not iterable",))
        if v is None or isinstance(v, (Term, int, float, bool)):
            raise PyRaise(TypeError, ("not iterable",))
        if isinstance(v, (Masked, IdxSet, Opaque)):
            raise Unsupported("iteration over %s" % type(v).__name__)
        try:
            return [self.lift(x) for x in v]
        except TypeError as e:
            raise PyRaise(TypeError, e.args)

    def _comp(self, gens, k, fr, emit):
        if k == len(gens):
            emit(fr)
            return
        g = gens[k]
        seq = self.iterate(self.ev(g.iter, fr))
        if isinstance(seq, SymList):
            raise _SymComp(seq)
        for v in seq:
            self.assign(g.target, v, fr)
            if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                self._comp(gens, k + 1, fr, emit)

    def comp_frame(self, fr):
        f2 = Frame(fr.glob, [fr.vars] + list(fr.closure), fr.fn)
        return f2

    def e_ListComp(self, e, fr):
        g0 = e.generators[0]
        seq = self.iterate(self.ev(g0.iter, fr))
        f2 = self.comp_frame(fr)
        if isinstance(seq, SymList):
            if len(e.generators) > 1 or g0.ifs:
                raise Unsupported("filtered comprehension over a symbolic length")
            return self.symmap(seq, lambda v: self._comp_elem(e.elt, g0.target, v, fr))
        out = []

        def emit(fr2):
            out.append(self.ev(e.elt, fr2))
        for v in seq:
            self.assign(g0.target, v, f2)
            if all(self.truth(self.ev(c, f2)) for c in g0.ifs):
                self._comp(e.generators, 1, f2, emit)
        return out

    def _comp_elem(self, elt, target, v, fr):
        f2 = self.comp_frame(fr)
        self.assign(target, v, f2)
        return self.ev(elt, f2)

    def symmap(self, seq, f):
        memo = {}
        snap = seq.get

        def get(i):
            k = (CUR["gen"], i)
            if k not in memo:
                memo[k] = self.summarise(lambda: f(snap(i)))
            return memo[k]
        return SymList(seq.n, get)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        return set(self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        f2 = self.comp_frame(fr)
        d = {}

        def emit(fr2):
            d[self.ev(e.key, fr2)] = self.ev(e.value, fr2)
        try:
            self._comp(e.generators, 0, f2, emit)
        except _SymComp:
            raise Unsupported("dict comprehension over symbolic length")
        return d

    def summarise(self, f):
        """run f on all its sub-paths and merge the results with ite"""
        outer = self.ctx
        results = []
        stack = [[]]
        n = 0
        while stack:
            dec = stack.pop()
            n += 1
            if n > 64:
                raise Unsupported("too many paths in a summarised expression")
            c = Ctx(dec)
            c.hyps = list(outer.hyps)
            nh = len(c.hyps)
            c.fresh_n = outer.fresh_n + 1000 * n
            c.quant = outer.quant
            c.steps = outer.steps
            self.set_ctx(c)
            try:
                v = f()
                cond = T.land(*[x if t else T.lnot(x) for x, t in c.trace])
                results.append((cond, v))
                extra = [h for h in c.hyps[nh:] if h not in [x if t else T.lnot(x) for x, t in c.trace]]
                for h in extra:
                    outer.hyps.append(T.implies(cond, h)) if T.implies(cond, h) is not T.TRUE else None
                outer.obligs.extend(c.obligs)
            except Infeasible:
                pass
            finally:
                self.set_ctx(outer)
                outer.steps = max(outer.steps, c.steps)
            stack.extend(c.pending)
        if not results:
            raise Infeasible()
        v = results[-1][1]
        for cond, w in reversed(results[:-1]):
            v = merge(cond, w, v)
        return v

    # -------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, SObj):
            return self.obj_getattr(o, name)
        if isinstance(o, SuperObj):
            for c in o.obj.cls.__mro__[o.obj.cls.__mro__.index(o.cls) + 1:]:
                if name in c.__dict__:
                    v = c.__dict__[name]
                    if isinstance(v, types.FunctionType):
                        if is_repo(v):
                            return Bound(v, o.obj)
                    if c is object and name == "__init__":
                        return Model(lambda I, *a, **k: None)
                    raise Unsupported("super().%s" % name)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, (SArr, Masked, SymRange, IdxSet)):
            return self.nm.arr_attr(self, o, name)
        if isinstance(o, SymList):
            return self.nm.symlist_attr(self, o, name)
        if isinstance(o, Term):
            return self.nm.scalar_attr(self, o, name)
        if isinstance(o, Opaque):
            return Model(lambda I, *a, **k: Opaque("call"))
        if isinstance(o, self.nm.RotBatch):
            if name == "apply":
                return Model(lambda I, v, inverse=False: self.nm.rotb_apply(o, I, v, inverse))
            raise Unsupported("Rotation.%s" % name)
        if isinstance(o, self.nm.RotObj):
            if name == "apply":
                return Model(lambda I, v, inverse=False: self.nm.rot_apply(o, I, v, inverse))
            if name == "as_matrix":
                return Model(lambda I: self.nm.rot_matrix(o))
            if name == "inv":
                return Model(lambda I: self.nm.RotObj([[o.m[j][i] for j in range(3)] for i in range(3)]))
            raise Unsupported("Rotation.%s" % name)
        if isinstance(o, Fn):
            if name == "__name__":
                return getattr(o.node, "name", "<lambda>")
            raise Unsupported("function attribute %s" % name)
        if isinstance(o, AccList):
            if name != "append":
                raise Unsupported("list.%s in a loop of symbolic length" % name)
            return Model(lambda I, v, o=o: o.added.append(v))
        if isinstance(o, list) and name == "append":
            return Model(lambda I, v, o=o: o.append(v))
        if isinstance(o, (int, float)) and not isinstance(o, bool) and name in ("real", "imag", "shape", "ndim", "size"):
            return self.nm.scalar_attr(self, o, name)
        try:
            v = getattr(o, name)
        except AttributeError as e:
            raise PyRaise(AttributeError, e.args)
        if isinstance(v, (float, np.generic, np.ndarray)):
            return self.lift(v)
        return v

    asked = False       # the lookup comes from hasattr(o, name) or getattr(o, name, default)

    def obj_getattr(self, o, name):
        asked, self.asked = self.asked, False
        cls = o.cls
        v = _MISSING
        for c in cls.__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                break
        if isinstance(v, property):
            return self.call(v.fget, [o])
        if name in o.attrs:
            return o.attrs[name]
        if name == "__dict__":
            return o.attrs
        if name == "__class__":
            return cls
        if v is _MISSING:
            ga = getattr(cls, "__getattr__", None)
            if ga is not None and isinstance(ga, types.FunctionType):
                return self.call(ga, [o, name])
            if o.partial and not asked:
                raise Unsupported("attribute %s of %s is not given by the contract" % (name, cls.__name__))
            raise PyRaise(AttributeError, ("%s has no attribute %s" % (cls.__name__, name),))
        if isinstance(v, types.FunctionType):
            return Bound(v, o)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return Bound(v.__func__, cls)
        if isinstance(v, functools.cached_property):
            r = self.call(v.func, [o])
            o.attrs[name] = r
            return r
        return self.lift(v)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            p = None
            for c in o.cls.__mro__:
                if name in c.__dict__:
                    p = c.__dict__[name]
                    break
            if isinstance(p, property):
                if p.fset is None:
                    raise PyRaise(AttributeError, ("no setter",))
                self.call(p.fset, [o, v])
                return
            self.attr_stores += 1
            o.attrs[name] = v
            log = o.attrs.get("!log")
            if log is not None:
                log.append((name, v))
            return
        if isinstance(o, SArr) and name == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported("attribute store on %s" % type(o).__name__)

    # -------------------------------------------------------- subscripts
    def subscript(self, o, k):
        if isinstance(o, SArr):
            return getitem(o, self.key(k), self.ctx.decide)
        if isinstance(o, Masked):
            return self.nm.masked_getitem(self, o, k)
        if isinstance(o, IdxSet):
            return self.nm.idxset_getitem(self, o, k)
        if isinstance(o, (SymList, SymRange)):
            return self.nm.symlist_getitem(self, o, k)
        if isinstance(o, dict):
            if isinstance(k, Term):
                try:
                    k = self.lower(k)
                except Unsupported:
                    raise Unsupported("symbolic dict key")
            if k in o:
                return o[k]
            d = getattr(type(o), "__missing__", None)
            if d is not None:
                return o[k]
            raise PyRaise(KeyError, (k,))
        if isinstance(o, AccList):
            if isinstance(k, Term) or k != -1:
                raise Unsupported("list element in a loop of symbolic length")
            return o.last()
        if isinstance(o, (list, tuple)):
            if isinstance(k, SArr) and k.ndim == 0:
                k = k.at(())
            if isinstance(k, Term):
                c = T.cval(k)
                if c is not None and k.sort == "I":
                    k = int(c)
                elif k.sort == "I":
                    # in-range symbolic index into a concrete list
                    if not o or not self.ctx.branch(T.land(T.le(-len(o), k), T.lt(k, len(o)))):
                        raise PyRaise(IndexError, ("list index out of range",))
                    r = o[-1]
                    for j in range(len(o) - 2, -1, -1):
                        r = merge(T.lor(T.eq(k, j), T.eq(k, j - len(o))), o[j], r)
                    return r
                else:
                    raise PyRaise(TypeError, ("list indices must be integers",))
            if isinstance(k, slice):
                k = slice(*[int(T.cval(x)) if isinstance(x, Term) and T.cval(x) is not None else x
                            for x in (k.start, k.stop, k.step)])
                if any(isinstance(x, Term) for x in (k.start, k.stop, k.step)):
                    raise Unsupported("symbolic slice of a list")
            try:
                return o[k]
            except (IndexError, TypeError) as e:
                raise PyRaise(type(e), e.args)
        if isinstance(o, SObj):
            if hasattr(o.cls, "__getitem__"):
                if issubclass(o.cls, tuple):
                    return [o.attrs[f] for f in o.cls._fields][k]
                return self.call(self.getattr(o, "__getitem__"), [k])
            raise PyRaise(TypeError, ("not subscriptable",))
        if isinstance(o, Term) or o is None or isinstance(o, (int, float)):
            if isinstance(o, Term) and isinstance(k, tuple) and not k:
                return o
            raise PyRaise((IndexError if isinstance(o, Term) else TypeError), ("not subscriptable",))
        if isinstance(o, (Fn, Bound, Opaque, Model)):
            raise Unsupported("subscript")
        try:
            return self.lift(o[self.lower(k) if not isinstance(k, slice) else k])
        except Unsupported:
            raise
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def key(self, k):
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Term):
            if k.sort == "I":
                c = T.cval(k)
                return int(c) if c is not None else k
            if k.sort == "B":
                raise Unsupported("boolean scalar index")
            raise PyRaise(IndexError, ("only integers are valid indices",))
        if isinstance(k, list):
            a = as_arr(k)
            return a
        if isinstance(k, SymList):
            return k.to_arr()
        if isinstance(k, SArr) and k.kind == "f" and k.shape != (0,):
            raise PyRaise(IndexError, ("arrays used as indices must be of integer type",))
        return k

    def store(self, o, k, v):
        if isinstance(o, SArr):
            self.nm.note_write(self, o)
            return setitem(o, self.key(k), v, self.ctx.decide)
        if isinstance(o, dict):
            if isinstance(k, Term):
                try:
                    k = self.lower(k)
                except Unsupported:
                    raise Unsupported("symbolic dict key")
            o[k] = v
            return
        if isinstance(o, list):
            if isinstance(k, Term):
                c = T.cval(k)
                if c is None:
                    raise Unsupported("store at symbolic index of a list")
                k = int(c)
            try:
                o[k] = v
            except (IndexError, TypeError) as e:
                raise PyRaise(type(e), e.args)
            return
        if isinstance(o, SymList):
            raise Unsupported("store into a symbolic list")
        if isinstance(o, SObj) and hasattr(o.cls, "__setitem__"):
            self.call(self.getattr(o, "__setitem__"), [k, v])
            return
        raise PyRaise(TypeError, ("does not support item assignment",))

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fn = fr.fn
            selfname = fn.node.args.args[0].arg
            o = fr.vars[selfname]
            owner = None
            cname = fn.qual.rsplit(".", 2)[-2]
            for c in o.cls.__mro__:
                if c.__name__ == cname:
                    owner = c
            return SuperObj(o, owner)
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                seq = self.iterate(self.ev(a.value, fr))
                if isinstance(seq, SymList):
                    raise Unsupported("star-args of symbolic length")
                args.extend(seq)
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, dict):
                    raise Unsupported("** of a non-dict")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if f is builtins.locals:
            return dict(fr.vars)
        return self.call(f, args, kw)


class _SymComp(Exception):
    def __init__(self, seq):
        self.seq = seq


_MISSING = object()


def _unwrap(r):
    if isinstance(r, Term) and r.sort == "B":
        b = T.bval(r)
        if b is not None:
            return b
    return r


def merge(c, a, b):
    """if c then a else b"""
    if a is b:
        return a
    sc = (Term, int, float, bool, np.generic)
    if isinstance(a, sc) and isinstance(b, sc):
        return T.ite(c, norm_scalar(a), norm_scalar(b))
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim and all(
            dim_eq(x, y) is True for x, y in zip(a.shape, b.shape)):
        ga, gb = a.snapshot(), b.snapshot()
        return SArr(a.shape, lambda i: T.ite(c, ga(i), gb(i)), join_kind(a.kind, b.kind))
    if isinstance(a, SArr) and isinstance(b, sc) or isinstance(b, SArr) and isinstance(a, sc):
        a1, b1 = as_arr(a), as_arr(b)
        if a1.ndim == b1.ndim == 0:
            return T.ite(c, a1.at(()), b1.at(()))
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        return {k: merge(c, a[k], b[k]) for k in a}
    if type(a) is type(b) and isinstance(a, (str, type(None))) and a == b:
        return a
    if isinstance(a, SObj) and isinstance(b, SObj) and a.cls is b.cls and set(a.attrs) == set(b.attrs):
        o = SObj(a.cls)
        object.__setattr__(o, "partial", a.partial or b.partial)
        for k in a.attrs:
            o.attrs[k] = merge(c, a.attrs[k], b.attrs[k])
        return o
    raise Unsupported("merging %s with %s" % (type(a).__name__, type(b).__name__))


def _simple(e):
    return all(isinstance(n, (ast.Name, ast.Constant, ast.Attribute, ast.Load, ast.BinOp, ast.UnaryOp, ast.operator,
                              ast.unaryop)) for n in ast.walk(e))


def _pure(e):
    return all(not isinstance(n, (ast.Call, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Subscript))
               for n in ast.walk(e))


_gen = {}


def _is_gen(node):
    r = _gen.get(id(node))
    if r is None:
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    return True
                if walk(c):
                    return True
            return False
        r = _gen[id(node)] = walk(node)
    return r


def _loops_of(node):
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            walk(c)
    walk(node)
    return out


def _assigned_in(fn, n):
    if fn is None:
        return False
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store):
            return True
    return False
