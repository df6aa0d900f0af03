"""Import hook: loads the project's modules from the current source tree with
calls, `in`, `not`, `%`, f-strings and set displays routed through hooks."""
import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}
ENCODED = {"modules": {}, "functions": 0}


_NEG = {"eq": "ne", "ne": "eq", "in": "ni", "ni": "in"}
_OPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.In: "in", ast.NotIn: "ni"}


def _plain(e, name):
    """an expression that names the same value for every element"""
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            if n.id == name:
                return False
        elif isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset", "list", "tuple")):
                return False
        elif not isinstance(n, (ast.Attribute, ast.Constant, ast.Load, ast.Set, ast.Tuple, ast.List)):
            return False
    return True


def _cond_ops(c, name):
    if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And):
        parts = [_cond_ops(x, name) for x in c.values]
        return None if None in parts else [o for p in parts for o in p]
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        r = _cond_ops(c.operand, name)
        return [(_NEG[r[0][0]], r[0][1])] if r is not None and len(r) == 1 else None
    if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in _OPS:
        op, a, b = _OPS[type(c.ops[0])], c.left, c.comparators[0]
        if isinstance(a, ast.Name) and a.id == name and _plain(b, name):
            return [(op, b)]
        if op in ("eq", "ne") and isinstance(b, ast.Name) and b.id == name and _plain(a, name):
            return [(op, a)]
    return None


def _filter_ops(node):
    """{x for x in it if x != a and x not in b}: the comparisons, or None if it is not of that shape"""
    if len(node.generators) != 1:
        return None
    g = node.generators[0]
    if g.is_async or not isinstance(g.target, ast.Name) or not g.ifs:
        return None
    if not (isinstance(node.elt, ast.Name) and node.elt.id == g.target.id):
        return None
    out = []
    for c in g.ifs:
        r = _cond_ops(c, g.target.id)
        if r is None:
            return None
        out += r
    return out


class T(ast.NodeTransformer):
    def _call(self, name, args, src):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), src)

    def visit_FunctionDef(self, node):
        ENCODED["functions"] += 1
        self.fstack.append(node.name)
        node.body = [self.visit(x) for x in node.body]
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(x) for x in a.defaults]
        a.kw_defaults = [x and self.visit(x) for x in a.kw_defaults]
        self.fstack.pop()
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def __init__(self):
        self.fstack = []

    def visit_Return(self, node):
        # the interpreter demands native results from these
        self.generic_visit(node)
        if node.value is not None and self.fstack and self.fstack[-1] in ("__hash__", "__bool__"):
            node.value = self._call("_sx_native", [node.value], node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _filter(self, node, ops):
        g = node.generators[0]
        arg = ast.arguments(posonlyargs=[], args=[ast.arg(arg="_sx_it")], kwonlyargs=[], kw_defaults=[], defaults=[])
        none = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        plain = ast.ListComp(elt=node.elt, generators=[ast.comprehension(
            target=g.target, iter=ast.Name(id="_sx_it", ctx=ast.Load()), ifs=g.ifs, is_async=0)])
        what = ast.Tuple(elts=[ast.Tuple(elts=[ast.Constant(value=o), self.visit(e)], ctx=ast.Load())
                               for o, e in ops], ctx=ast.Load())
        return self._call("_sx_setf", [g.iter, ast.Lambda(args=none, body=what), ast.Lambda(args=arg, body=plain)], node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == "set" and len(node.args) == 1 and not node.keywords \
                and isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and _filter_ops(node.args[0]) is not None:
            comp = node.args[0]
            return self.visit_SetComp(ast.copy_location(ast.SetComp(elt=comp.elt, generators=comp.generators), node))
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_sx_c", ctx=ast.Load()), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.In):
            return self._call("_sx_in", [node.left, node.comparators[0]], node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.NotIn):
            return self._call("_sx_ni", [node.left, node.comparators[0]], node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._call("_sx_not", [node.operand], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("_sx_mod", [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(self._call("_sx_fmt", [val, ast.Constant(value=conv), spec], v))
            else:
                parts.append(v)
        return self._call("_sx_fstr", parts, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("_sx_setd", node.elts, node)

    def visit_SetComp(self, node):
        ops = copy.deepcopy(_filter_ops(node))
        self.generic_visit(node)
        if ops is not None:
            return self._filter(node, ops)
        lc = ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)
        return self._call("_sx_set", [lc], node)


def transform(source, path):
    tree = ast.parse(source, path)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path = path
        self.name = name

    def create_module(self, spec):
        return None

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def get_filename(self, name=None):
        return self.path

    def get_source(self, name=None):
        return self.get_data(self.path).decode("utf-8")

    def exec_module(self, module):
        code = _code_cache.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                src = f.read()
            code = _code_cache[self.path] = transform(src, self.path)
            import hashlib
            ENCODED["modules"][self.name] = hashlib.sha256(src).hexdigest()[:16]
        exec(code, module.__dict__)


_code_cache = {}
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        rel = fullname.split(".")
        if rel[0] == "mahjong":
            base = os.path.join(REPO, *rel)
        elif rel[0] == "props" and len(rel) > 1:
            base = os.path.join(VERIF, *rel)
        else:
            return None
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(fullname, Loader(p, fullname), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + ".py"):
            p = base + ".py"
            spec = importlib.machinery.ModuleSpec(fullname, Loader(p, fullname), origin=p)
        elif os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        else:
            return None
        spec.has_location = True
        return spec


class _NoCache(dict):
    """a memo table keyed by text would force the text to be enumerated"""

    def get(self, k, d=None):
        return d

    def __setitem__(self, k, v):
        pass

    def __contains__(self, k):
        return False


_libs = {}


def library(name):
    """an instrumented copy of a pure Python library module, used for calls with symbolic arguments"""
    m = _libs.get(name)
    if m is None:
        import types
        orig = importlib.import_module(name)
        m = types.ModuleType("symlib." + name)
        m.__dict__["__builtins__"] = __import__("builtins")
        with open(orig.__file__, "rb") as f:
            exec(transform(f.read(), orig.__file__), m.__dict__)
        for k, v in list(m.__dict__.items()):
            if k.endswith("_cache") and isinstance(v, dict):
                m.__dict__[k] = _NoCache()
        _libs[name] = m
    return m


LIBRARIES = ("urllib.parse",)


def install():
    from . import hooks
    hooks.install()
    sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True


def install_native():
    """uninstrumented modules of the same tree, for replay"""
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def purge(*names):
    """forget modules so that the next import executes them afresh"""
    for n in list(sys.modules):
        for p in names:
            if n == p or n.startswith(p + "."):
                del sys.modules[n]
                break
