"""mechanical behaviour-preserving rewrites: python refac.py TREE seed kinds..."""
import ast, sys, os, random, copy, builtins
tree, seed, kinds = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
R = random.Random(seed)
P = .6
cnt = {}
def hit(k):
    ok = k in kinds and R.random() < P
    if ok: cnt[k] = cnt.get(k, 0) + 1
    return ok
N = [0]
def new(p):
    N[0] += 1
    return "%s_%d" % (p, N[0])
def L(n): return ast.Name(n, ast.Load())
def S(n): return ast.Name(n, ast.Store())
def has(node, *ts): return any(isinstance(x, ts) for x in ast.walk(node))
def names(node, ctx=None): return [x.id for x in ast.walk(node) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]

class Fn(ast.NodeTransformer):
    def __init__(self, helpers): self.helpers = helpers; self.locals = set()
    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out
    def stmt(self, s):
        for f in ("body", "orelse", "finalbody"):
            if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                setattr(s, f, self.body(getattr(s, f)))
        if isinstance(s, ast.Try):
            for h in s.handlers: h.body = self.body(h.body)
        if isinstance(s, ast.If) and s.orelse and hit("neg") and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and hit("elif"):
            return s
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and isinstance(s.value, ast.IfExp) and hit("ifexp"):
            v = s.value
            return ast.If(v.test, [ast.Assign([s.targets[0]], v.body)], [ast.Assign([copy.deepcopy(s.targets[0])], v.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp) and hit("ifexp"):
            v = s.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and not s.value.generators[0].is_async and hit("comp"):
            g = s.value.generators[0]
            n = new("items")
            inner = [ast.Expr(ast.Call(ast.Attribute(L(n), "append", ast.Load()), [s.value.elt], []))]
            for t in reversed(g.ifs): inner = [ast.If(t, inner, [])]
            tn = [x for x in names(g.target)]
            if not set(tn) & self.locals and not has(s.value.elt, ast.Lambda):
                return [ast.Assign([S(n)], ast.List([], ast.Load())), ast.For(g.target, g.iter, inner, []), ast.Assign(s.targets, L(n))]
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name) and hit("ret"):
            n = new("result")
            return [ast.Assign([S(n)], s.value), ast.Return(L(n))]
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant,)) and hit("aug"):
            return ast.Assign([s.target], ast.BinOp(L(s.target.id), s.op, s.value))
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and not s.orelse and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and hit("enum") and not has(s, ast.Continue, ast.Yield):
            i = s.target.elts[0].id
            if i not in [x for b in s.body for x in names(b, ast.Store)] and not has(ast.Module(s.body, []), ast.Lambda):
                return [ast.Assign([S(i)], ast.Constant(0)), ast.For(s.target.elts[1], s.iter.args[0], s.body + [ast.AugAssign(S(i), ast.Add(), ast.Constant(1))], [])]
        if isinstance(s, (ast.Assign, ast.Return)) and hit("tmp"):
            v = s.value
            if isinstance(v, ast.BinOp) and not has(v, ast.Lambda, ast.NamedExpr):
                a, b = new("lhs"), new("rhs")
                o = [ast.Assign([S(a)], v.left), ast.Assign([S(b)], v.right)]
                s.value = ast.BinOp(L(a), v.op, L(b))
                return o + [s]
            if isinstance(v, ast.Call) and v.args and not has(v, ast.Lambda, ast.Starred, ast.NamedExpr, ast.GeneratorExp) and not any(isinstance(x, (ast.Constant, ast.Name)) for x in v.args) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "np":
                o = []
                for j, x in enumerate(v.args):
                    n = new("arg"); o.append(ast.Assign([S(n)], x)); v.args[j] = L(n)
                return o + [s]
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and hit("helper"):
            v = s.value
            if isinstance(v, (ast.BinOp, ast.Call, ast.Subscript)) and not has(v, ast.Lambda, ast.Yield, ast.Await, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp) and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals", "vars") for x in ast.walk(v)) and len(list(ast.walk(v))) > 8:
                fr = []
                for x in names(v):
                    if x in self.locals and x not in fr: fr.append(x)
                if all(x in self.bound for x in fr):
                    n = new("_helper")
                    self.helpers.append(ast.FunctionDef(n, ast.arguments([], [ast.arg(x) for x in fr], None, [], [], None, []), [ast.Return(v)], [], type_params=[]))
                    s.value = ast.Call(L(n), [L(x) for x in fr], [])
                    return s
        return s
class Ex(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)) and hit("sq"):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value == 2 and hit("half"):
            return ast.BinOp(n.left, ast.Mult(), ast.Constant(0.5))
        if isinstance(n.op, ast.Mult) and hit("comm") and not has(n, ast.Call, ast.List, ast.Tuple, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) or isinstance(n.right, ast.Constant)):
            return ast.BinOp(n.right, n.op, n.left)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
            a = n.func.attr
            if a in ("radians", "degrees") and hit("deg"): n.func.attr = {"radians": "deg2rad", "degrees": "rad2deg"}[a]
            elif a in ("deg2rad", "rad2deg") and hit("deg"): n.func.attr = {"deg2rad": "radians", "rad2deg": "degrees"}[a]
            elif a == "dot" and len(n.args) == 2 and hit("dot"): return ast.Call(ast.Attribute(n.args[0], "dot", ast.Load()), [n.args[1]], []) if False else n
            elif a == "absolute" and hit("deg"): n.func.attr = "abs"
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and hit("cmp") and not has(n, ast.Call):
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()
            return ast.Compare(n.comparators[0], [o], [n.left])
        return n
class Ren(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id); return n
def scopes(fn):
    return has(ast.Module(fn.body, []), ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)
def do(path):
    src = open(path, newline='').read()
    m = ast.parse(src.replace('\r\n', '\n'))
    helpers = []
    def go(node):
        for ch in node.body:
            if isinstance(ch, ast.ClassDef): go(ch)
            if isinstance(ch, ast.FunctionDef):
                if any(isinstance(d, ast.Name) and d.id in ('njit',) for d in ch.decorator_list): continue
                if any('njit' in ast.unparse(d) or 'jit' in ast.unparse(d) for d in ch.decorator_list): continue
                a = ch.args
                args = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
                f = Fn(helpers)
                f.locals = args | set(names(ch, ast.Store)) | {"self"}
                # only names always bound: arguments never rebound, or used in straight line code
                f.bound = f.locals
                if not scopes(ch) and 'locals()' not in ast.unparse(ch) and hit("ren"):
                    glob = {x for s in ast.walk(ch) if isinstance(s, (ast.Import, ast.ImportFrom)) for x in []}
                    mp = {x: x + "_v" for x in f.locals - args - {"self"}}
                    Ren(mp).visit(ch)
                    f.locals = args | set(names(ch, ast.Store)) | {"self"}; f.bound = f.locals
                doc = ch.body[:1] if ast.get_docstring(ch) is not None else []
                rest = ch.body[len(doc):]
                Ex().visit(ast.Module(rest, []))
                nested = [x for x in ast.walk(ast.Module(rest, [])) if isinstance(x, (ast.FunctionDef, ast.ClassDef))]
                nn = {x.name for x in nested}
                if nn:
                    f.bound = set(); f.locals = f.locals | nn
                ch.body = doc + f.body(rest)
    go(m)
    m.body += helpers
    ast.fix_missing_locations(m)
    out = ast.unparse(m) + "\n"
    compile(out, path, 'exec')
    open(path, 'w').write(out)
for base, ds, fs in os.walk(os.path.join(tree, 'welleng')):
    for f in sorted(fs):
        if f.endswith('.py') and f not in ('__init__.py', 'version.py'):
            do(os.path.join(base, f))
print(cnt)
