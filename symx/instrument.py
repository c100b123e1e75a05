"""Load /repo/coral from source, instrumented or plain, in fresh modules."""

import ast
import os
import sys
import types

from . import shims

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "coral"


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.cls = []
        self.qual = []

    def call(self, name, args, node):
        n = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[])
        return ast.copy_location(n, node)

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.qual.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.qual.pop()
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        q = "%s.%s" % (self.mod, ".".join(self.qual))
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = [self.visit(s) for s in node.body]
        at = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                   and isinstance(body[0].value.value, str)) else 0
        enter = ast.Expr(self.call("__sx_enter__", [ast.Constant(q)], node))
        ast.copy_location(enter, node)
        body.insert(at, enter)
        node.body = body
        self.qual.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _loop(self, node):
        self.generic_visit(node)
        t = ast.Expr(self.call("__sx_tick__", [], node))
        ast.copy_location(t, node)
        node.body.insert(0, t)
        return node

    visit_While = _loop
    visit_For = _loop

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name(id="Exception", ctx=ast.Load()), node)
        elif isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            node.type.id = "Exception"
        return node

    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return "_%s%s" % (c, name)
        return name

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            n = ast.Call(func=ast.Name(id="__sx_meth__", ctx=ast.Load()),
                         args=[f.value, ast.Constant(self.mangle(f.attr))] + node.args,
                         keywords=node.keywords)
            return ast.copy_location(n, node)
        return node

    OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in"}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = self.OPS.get(type(node.ops[0]))
            if op:
                return self.call("__sx_cmp__", [ast.Constant(op), node.left, node.comparators[0]], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            k = node.slice
            if isinstance(k, ast.Slice):
                none = lambda x: x if x is not None else ast.Constant(None)
                k = self.call("__sx_slice__", [none(k.lower), none(k.upper), none(k.step)], node)
            elif isinstance(k, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in k.elts):
                return node
            return self.call("__sx_item__", [node.value, k], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call("__sx_mod__", [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self.call("__sx_fstr__", [ast.List(elts=parts, ctx=ast.Load())], node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


_code_cache = {}


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def source_path(name):
    if name.startswith("harness."):
        return os.path.join(VERIF, "harness", name.split(".")[1] + ".py")
    if name == PKG:
        return os.path.join(REPO, PKG, "__init__.py")
    sub = name.split(".")[1:]
    return os.path.join(REPO, PKG, *sub) + ".py"


def get_code(name, instrumented):
    key = (name, instrumented)
    if key not in _code_cache:
        p = source_path(name)
        if not os.path.exists(p):
            q = p[:-3] + "/__init__.py"
            if not os.path.exists(q):
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            p = q
        src = open(p, "rb").read()
        tree = ast.parse(src, p)
        if instrumented:
            tree = Rewriter(name if name.startswith("harness.") else name.split(".")[-1]).visit(tree)
            ast.fix_missing_locations(tree)
        _code_cache[key] = (compile(tree, p, "exec"), p)
    return _code_cache[key]


NOCASES = types.ModuleType("symx.cases")
NOCASES.case = lambda *a, **k: (lambda f: f)


class Loader:
    """One fresh instance of the coral package (per explored path)."""

    def __init__(self, env):
        self.mods = {}
        self.shim = shims.make_modules(env)
        self.builtins = shims.make_builtins(env, self.importer)
        self.builtins["__sx_meth__"] = shims.meth
        self.builtins["__sx_cmp__"] = shims.rt_cmp
        self.builtins["__sx_item__"] = shims.rt_item
        self.builtins["__sx_slice__"] = slice
        self.builtins["__sx_mod__"] = shims.rt_mod
        self.builtins["__sx_fstr__"] = shims.rt_fstr
        self.builtins["__sx_tick__"] = shims.rt_tick
        self.builtins["__sx_enter__"] = shims.rt_enter

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        code, path = get_code(name, True)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name.split(".")[0]
        if name == PKG:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        exec(code, m.__dict__)
        if name.startswith("harness."):
            return m
        if name != PKG:
            pkg = self.load(PKG)
            setattr(pkg, name.split(".")[-1], m)
        return m

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            name = PKG + ("." + name if name else "")
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(PKG)
            if name != PKG:
                sub = self.load(name)
                if fromlist:
                    return sub
                return m
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(PKG + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name.startswith("harness."):
            return self.load(name)
        if name == "symx.cases":
            return NOCASES
        if name in self.shim:
            if "." in name and not fromlist:
                return self.shim[name.split(".")[0]]
            return self.shim[name]
        return __import__(name, globals, locals, fromlist, level)
