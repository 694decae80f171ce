"""refactor.py KIND DEST: a copy of /repo in DEST whose functions are rewritten without changing what they do.
Used to see that the checks stay quiet (no check and no part of the registered commands).
"""
import warnings; warnings.simplefilter("ignore")
import ast, copy, os, shutil, sys

KINDS = "rename hoist while impl numpy invert flip commute keyword positional helper reorder augment mix".split()
SRC = os.environ.get("MUT_SRC", "/repo")
SIGS = {}


def sigs(root):
    for d, _, fs in os.walk(root + "/PyFHD"):
        for f in fs:
            if f.endswith(".py"):
                for n in ast.parse(open(f"{d}/{f}").read()).body:
                    if isinstance(n, ast.FunctionDef) and not n.args.vararg and not n.args.posonlyargs:
                        SIGS[n.name] = [a.arg for a in n.args.args]


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def bodies(n):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(n, "handlers", []):
        yield h.body


def has_str(n):
    return any(isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in [n, *(ast.iter_child_nodes(n) if isinstance(n, ast.BinOp) else [])])


def is_np(c, *nm):
    return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "np" and c.func.attr in nm


class Tmp:
    k = 0

    @classmethod
    def new(cls):
        cls.k += 1
        return f"_tmp{cls.k}"


def rename(fn):
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for x in ast.walk(fn) if x is not fn):
        return
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    loc = names(fn, ast.Store) - args
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in loc:
            x.id = "the_" + x.id


def hoist(fn):
    def blk(b):
        out = []
        for s in b:
            for c in bodies(s):
                blk(c)
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                v = s.value
                if isinstance(v, ast.BinOp) and not isinstance(v.left, (ast.Constant, ast.Name)):
                    t = Tmp.new()
                    out.append(ast.Assign([ast.Name(t, ast.Store())], v.left)); v.left = ast.Name(t, ast.Load())
                elif isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) and isinstance(v.func, (ast.Name, ast.Attribute)) and (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)):
                    for i, a in enumerate(v.args):
                        if not isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp)):
                            t = Tmp.new()
                            out.append(ast.Assign([ast.Name(t, ast.Store())], a)); v.args[i] = ast.Name(t, ast.Load())
            if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                t = Tmp.new()
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.test)); s.test = ast.Name(t, ast.Load())
            out.append(s)
        b[:] = out
    blk(fn.body)


def while_(fn):
    def blk(b):
        out = []
        for s in b:
            for c in bodies(s):
                blk(c)
            if isinstance(s, ast.For) and not s.orelse:
                l, k = Tmp.new(), Tmp.new()
                out += ast.parse(f"{l} = list(X)\n{k} = 0").body
                out[-2].value.args = [s.iter]
                w = ast.parse(f"while {k} < len({l}):\n    X = {l}[{k}]\n    {k} += 1").body[0]
                w.body[0].targets = [s.target]
                w.body += s.body
                out.append(w)
            else:
                out.append(s)
        b[:] = out
    blk(fn.body)


class Numpy(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        kw = {k.arg for k in n.keywords}
        if is_np(n, "zeros", "ones") and len(n.args) == 1 and kw <= {"dtype"}:
            one = n.func.attr == "ones"
            n.func.attr = "full"
            n.args.append(ast.Constant(1 if kw and one else 0 if kw else 1.0 if one else 0.0))
        elif is_np(n, "where") and len(n.args) == 1:
            n.func.attr = "nonzero"
        elif is_np(n, "abs"):
            n.func.attr = "absolute"
        elif is_np(n, "conj"):
            n.func.attr = "conjugate"
        elif is_np(n, "sum", "mean", "max", "min", "prod", "any", "all") and len(n.args) == 1 and kw <= {"axis"} and not isinstance(n.args[0], ast.GeneratorExp):
            return ast.Call(ast.Attribute(ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "asarray", ast.Load()), n.args, []), n.func.attr, ast.Load()), [], n.keywords)
        elif is_np(n, "logical_and") and len(n.args) == 2 and not kw:
            f = lambda *a: ast.Call(ast.Attribute(ast.Name("np", ast.Load()), a[0], ast.Load()), list(a[1:]), [])
            return f("logical_not", f("logical_or", f("logical_not", n.args[0]), f("logical_not", n.args[1])))
        elif is_np(n, "exp", "sqrt", "cos", "sin") and len(n.args) == 1 and not kw:
            pass
        elif is_np(n, "copy") and len(n.args) == 1 and not kw:
            n.func.attr = "array"
        elif is_np(n, "zeros_like", "ones_like", "full_like", "empty_like"):
            pass
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Sub) and not isinstance(n.left, ast.Constant) and not isinstance(n.right, ast.Constant) and not any(isinstance(x, (ast.Compare, ast.Set)) for x in ast.walk(n)):
            f = ast.Attribute(ast.Name("np", ast.Load()), "subtract", ast.Load())
            return ast.Call(f, [n.left, n.right], [])
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "T" and isinstance(n.ctx, ast.Load):
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "transpose", ast.Load()), [n.value], [])
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse or [ast.Pass()], n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [self.M[type(n.ops[0])]()]
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        if any(isinstance(x, ast.Subscript) for x in ast.walk(n)) or True:
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.values]))


class Commute(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) or isinstance(n.op, ast.Add) and not any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) or isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("str", "list") for x in (n.left, n.right)) and not isinstance(n.left, ast.BinOp):
            n.left, n.right = n.right, n.left
        return n


class Keyword(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        s = SIGS.get(getattr(n.func, "id", None))
        if s and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(s) and not any(k.arg is None for k in n.keywords):
            n.keywords = [ast.keyword(s[i], a) for i, a in enumerate(n.args)] + n.keywords
            n.args = []
        return n


class Positional(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        s = SIGS.get(getattr(n.func, "id", None))
        if s and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
            kw = {k.arg: k for k in n.keywords}
            while len(n.args) < len(s) and s[len(n.args)] in kw:
                k = kw.pop(s[len(n.args)]); n.args.append(k.value); n.keywords.remove(k)
        return n


def helper(fn, extra, deco):
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
        return
    loc = names(fn, ast.Store) | {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call)) and len(list(ast.walk(s.value))) > 8 and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Lambda)) for x in ast.walk(s.value)):
            comp = set()
            for x in ast.walk(s.value):
                if isinstance(x, ast.comprehension):
                    comp |= names(x.target)
            a = sorted((names(s.value) & loc) - comp)
            nm = Tmp.new() + "_helper"
            h = ast.parse(f"def {nm}({', '.join(a)}):\n    return 0").body[0]
            h.body[0].value = s.value
            h.decorator_list = copy.deepcopy(deco)
            extra.append(h)
            s.value = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in a], [])


def pure(v):
    return all(not isinstance(x, ast.Call) or isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "np" for x in ast.walk(v))


def reorder(fn):
    def blk(b):
        i = 0
        for s in b:
            for c in bodies(s):
                blk(c)
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) for s in (p, q)) and p.targets[0].id not in names(q) and q.targets[0].id not in names(p):
                b[i], b[i + 1] = q, p
                i += 1
            i += 1
    blk(fn.body)


class Augment(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Subscript) and pure(n.target):
            l = copy.deepcopy(n.target); l.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
        return n


def impl(tree):
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and not n.args.vararg and not n.args.kwarg:
            m = copy.deepcopy(n)
            m.name = n.name + "_impl"
            doc = n.body[:1] if ast.get_docstring(n) else []
            n.body = doc + [ast.Return(ast.Call(ast.Name(m.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in n.args.args], [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in n.args.kwonlyargs]))]
            out.append(m)
        out.append(n)
    tree.body = out


def apply(tree, kind):
    fns = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef)]
    if kind == "mix":
        for k in ("augment", "reorder", "hoist", "numpy", "flip", "invert", "rename"):
            apply(tree, k)
        return
    if kind == "impl":
        return impl(tree)
    tr = {"numpy": Numpy, "invert": Invert, "flip": Flip, "commute": Commute, "keyword": Keyword, "positional": Positional, "augment": Augment}.get(kind)
    extra = []
    for f in fns:
        if tr:
            f.body = [tr().visit(s) for s in f.body]
        elif kind == "helper":
            helper(f, extra, [] if f not in tree.body else f.decorator_list)
        else:
            {"rename": rename, "hoist": hoist, "while": while_, "reorder": reorder}[kind](f)
    if extra:
        k = next(i for i, s in enumerate(tree.body) if isinstance(s, ast.FunctionDef))
        tree.body[k:k] = extra


if __name__ == "__main__":
    kind, dest = sys.argv[1:3]
    if not os.path.exists(dest):
        shutil.copytree(SRC, dest, ignore=shutil.ignore_patterns(".git"))
    sigs(SRC)
    for d, _, fs in os.walk(SRC + "/PyFHD"):
        for f in fs:
            if f.endswith(".py"):
                t = ast.parse(open(f"{d}/{f}").read())
                apply(t, kind)
                ast.fix_missing_locations(t)
                open(f"{dest}/{os.path.relpath(d, SRC)}/{f}", "w").write(ast.unparse(t) + "\n")
