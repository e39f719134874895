"""behaviour-preserving rewriting of a copy of the repository: refactor.py DIR MODE...   (used to find checks that depend on how the code is written)
modes: unparse, returns, negate, locals, split, comps, noop, private, walrus, elif"""
import ast
import builtins
import os
import sys


class Returns(ast.NodeTransformer):
    """return expr -> value = expr; return value"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("value_to_return", ast.Store())], n.value), ast.Return(ast.Name("value_to_return", ast.Load()))]


class Negate(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, ast.parse("_ = None").body[0])
        return n


class Comps(ast.NodeTransformer):
    """name = [e for t in it if c] -> a loop"""
    def visit_Assign(self, n):
        v = n.value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
            g = v.generators[0]
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            t = n.targets[0].id
            if t in {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} or self.depth == 0 or names & self.used:
                return n
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        return n
    depth = 0
    used = set()

    def visit_FunctionDef(self, n):
        old = self.depth, self.used
        self.depth = 1
        inner = {id(x) for c in ast.walk(n) if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for x in ast.walk(c)}
        self.used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and id(x) not in inner} | {a.arg for a in n.args.args}
        self.generic_visit(n)
        self.depth, self.used = old
        return n


def local_names(fn):
    if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(fn) if x is not fn):
        return set()
    if any(isinstance(x, ast.Name) and x.id in ("locals", "eval", "exec", "vars") for x in ast.walk(fn)):
        return set()
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    stores = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    imports = {a.asname or a.name for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    hand = {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name}
    return stores - args - imports - hand


class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        names = local_names(n)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = "loc_" + x.id
        return n


class Split(ast.NodeTransformer):
    """the second half of a straight function body moves into a helper of the module (extract method)"""
    def __init__(self):
        self.extra, self.n, self.cls = [], 0, None

    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n.name
        self.generic_visit(n)
        self.cls = old
        return n

    def visit_FunctionDef(self, n):
        src = list(ast.walk(n))
        if (n.decorator_list and self.cls is None) or any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Await)) for x in src if x is not n):
            return n
        if any(isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__", "eval", "exec", "log") and x.id != "log" for x in src):
            return n
        if self.cls and any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in src):
            return n      # name mangling
        if self.cls and any(isinstance(x, ast.Name) and x.id.startswith("__") and not x.id.endswith("__") for x in src):
            return n
        args = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        body = n.body
        k = len(body) // 2
        if k == 0 or len(body) - k < 1:
            return n
        first, second = body[:k], body[k:]
        if any(isinstance(x, ast.Return) for s in first for x in ast.walk(s)):
            return n
        comp = set()
        stored1 = {x.id for s in first for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                  {a.asname or a.name.split(".")[0] for s in first for x in ast.walk(s) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        # only names that are certainly bound after the first half may be passed on
        sure = {x.id for s in first if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
               {a.asname or a.name.split(".")[0] for s in first if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
        used2 = {x.id for s in second for x in ast.walk(s) if isinstance(x, ast.Name)}
        need = sorted((args | stored1) & used2)
        if any(x in stored1 and x not in sure and x not in args for x in need):
            return n
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del) for s in second for x in ast.walk(s)):
            return n
        self.n += 1
        name = f"_part_{self.n}_of_{n.name.strip('_')}"
        helper = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in need], None, [], [], None, []), second, [])
        self.extra.append(helper)
        n.body = first + [ast.Return(ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in need], []))]
        return n


class Elif(ast.NodeTransformer):
    """for x in y -> for _i, x in enumerate(y) in functions (loop rewritten)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        n.target = ast.Tuple([ast.Name("_position", ast.Store()), n.target], ast.Store())
        return n


def private(trees):
    """module level names that start with one underscore get other names, consistently in the whole package"""
    names = set()
    for t in trees.values():
        for s in t.body:
            if isinstance(s, ast.FunctionDef) and s.name.startswith("_") and not s.name.startswith("__"):
                names.add(s.name)
            if isinstance(s, ast.ClassDef):
                for m in s.body:
                    if isinstance(m, ast.FunctionDef) and m.name.startswith("_") and not m.name.startswith("__"):
                        names.add(m.name)
    for t in trees.values():
        for x in ast.walk(t):
            if isinstance(x, ast.FunctionDef) and x.name in names:
                x.name = x.name + "_renamed"
            elif isinstance(x, ast.Name) and x.id in names:
                x.id += "_renamed"
            elif isinstance(x, ast.Attribute) and x.attr in names:
                x.attr += "_renamed"
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    if a.name in names:
                        a.asname = a.asname and a.asname + "_renamed"
                        a.name += "_renamed"


def main(root, modes):
    trees = {}
    for d, _, fs in os.walk(os.path.join(root, "pibronic")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8") as fh:
                    trees[p] = ast.parse(fh.read())
    if "private" in modes:
        private(trees)
    for p, t in trees.items():
        for m in modes:
            if m == "returns":
                t = Returns().visit(t)
            elif m == "negate":
                t = Negate().visit(t)
            elif m == "noop":
                t = Noop().visit(t)
            elif m == "comps":
                t = Comps().visit(t)
            elif m == "locals":
                t = Locals().visit(t)
            elif m == "loops":
                t = Elif().visit(t)
            elif m == "split":
                s = Split()
                t = s.visit(t)
                k = max([i for i, x in enumerate(t.body) if isinstance(x, (ast.FunctionDef, ast.ClassDef))] + [-1]) + 1
                t.body[k:k] = s.extra
        ast.fix_missing_locations(t)
        with open(p, "w", encoding="utf-8") as fh:
            fh.write(ast.unparse(t) + "\n")


main(sys.argv[1], sys.argv[2:])
