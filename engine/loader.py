"""Loads Python modules from their current source, rewritten so that symbolic proxies survive.

Rewriting is semantic-preserving on native values: calls, subscripts, `in`, `%` and f-strings go through
helpers; builtins and a few stdlib modules are replaced (runtime.py); everything else is the module's own code.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import sys
import types

from . import runtime as R

NOWRAP = {"super", "locals", "globals", "vars", "dir", "isinstance", "__vp__"}
SIMPLE = {"len", "type", "issubclass", "hasattr", "str", "int", "bytes", "bytearray", "repr", "range", "ord", "chr",
          "float", "bool", "divmod", "pow", "round", "sum", "abs", "hash", "format", "print", "getattr", "sorted",
          "list", "tuple", "enumerate", "zip", "min", "max", "any", "all", "iter", "next", "reversed", "property",
          "staticmethod", "classmethod"}
OPS = {"Add": "iadd", "Sub": "isub", "Mult": "imul", "FloorDiv": "ifloordiv", "Mod": "imod", "BitOr": "ior",
       "BitAnd": "iand", "BitXor": "ixor", "LShift": "ilshift", "RShift": "irshift", "Pow": "ipow", "Div": "itruediv"}


class Rewrite(ast.NodeTransformer):
    def vp(self, name):
        return ast.Attribute(value=ast.Name(id="__vp__", ctx=ast.Load()), attr=name, ctx=ast.Load())

    def mk(self, name, args, keywords=(), node=None):
        c = ast.Call(func=self.vp(name), args=list(args), keywords=list(keywords))
        return ast.copy_location(c, node) if node is not None else c

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOWRAP | SIMPLE:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr.startswith("__") and not f.attr.endswith("__"):
                return self.mk("call", [f] + node.args, node.keywords, node)
            return self.mk("mcall", [f.value, ast.Constant(value=f.attr)] + node.args, node.keywords, node)
        return self.mk("call", [f] + node.args, node.keywords, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self.mk("v_in" if isinstance(node.ops[0], ast.In) else "v_notin",
                           [node.left, node.comparators[0]], (), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.mk("getitem", [node.value, self.idx(node.slice)], (), node)
        return node

    def idx(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=ast.Name(id="slice", ctx=ast.Load()),
                            args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self.mk("setitem", [t.value, self.idx(t.slice), node.value], (), node)), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            opn = OPS.get(type(node.op).__name__)
            if opn:
                t = node.target
                return ast.copy_location(ast.Expr(self.mk(
                    "augitem", [t.value, self.idx(t.slice), self.vp("op_" + opn), node.value], (), node)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(self.mk("delitem", [t.value, self.idx(t.slice)], (), node)), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.mk("mkset", [ast.List(elts=node.elts, ctx=ast.Load())], (), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.mk("mkset", [ast.ListComp(elt=node.elt, generators=node.generators)], (), node)

    def visit_Dict(self, node):
        if all(isinstance(k, ast.Constant) for k in node.keys):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        pairs = [ast.Tuple(elts=[ast.Constant(value=None), v, ast.Constant(value=True)] if k is None else [k, v], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return self.mk("mkdict", [ast.List(elts=pairs, ctx=ast.Load())], (), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self.mk("mkdict", [ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)],
                       (), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.mk("mod", [node.left, node.right], (), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return self.mk("fstr", parts, (), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException"):
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node

    def visit_AnnAssign(self, node):
        # annotations are not evaluated
        if node.value is not None:
            node.value = self.visit(node.value)
        node.annotation = ast.Constant(value=None)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def _func(self, node):
        node.returns = None
        self.generic_visit(node)
        if node.name == "__bool__":
            node.decorator_list.append(self.vp("boolret"))
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_match_case(self, node):
        return node


for _n in OPS.values():
    setattr(R.VP, "op_" + _n, staticmethod(getattr(operator, _n)))


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


_real_import = builtins.__import__
STUB_TOP = {}


def v_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in ("_heapq", "_bisect"):
            raise ImportError(name)  # the Python versions are instrumented
        if name in R.EXTRA_STUBS:
            return R.EXTRA_STUBS[name]
        if name in R.STUBS:
            return R.STUBS[name]
    return _real_import(name, globals, locals, fromlist, level)


R.BUILTINS["__import__"] = v_import


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        R._INSTR_MODULES.add(module.__name__)
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__["__builtins__"] = R.BUILTINS
        module.__dict__["__vp__"] = R.VP
        exec(rewrite(src, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Instruments the packages in `roots`: {top-level name: directory that contains it}."""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f), submodule_search_locations=[base])
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py"))
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
