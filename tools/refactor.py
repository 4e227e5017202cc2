"""refactor.py DIR SEED [RATE]: rewrites DIR/tfchain in ways that keep its behaviour (checks have to stay quiet on the result)."""
import ast
import os
import random
import sys

R = random.Random(int(sys.argv[2]))
RATE = float(sys.argv[3]) if len(sys.argv) > 3 else 0.5
COUNT = {}


def hit(kind):
    if R.random() < RATE:
        COUNT[kind] = COUNT.get(kind, 0) + 1
        return True
    return False


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def assign(i, v):
    return ast.Assign(targets=[name(i, ast.Store())], value=v)


def free_of(node, *kinds):
    return not any(isinstance(n, kinds) for n in ast.walk(node))


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.depth = 0
        self.gen = [False]
        self.cls = 0

    def tmp(self, base):
        self.n += 1
        return "_%s_%d" % (base, self.n)

    # ---------------------------------------------------------------- functions
    def visit_FunctionDef(self, f):
        self.depth += 1
        incls, self.cls = self.cls, 0
        f.body = self.block(f.body)
        self.cls = incls
        self.depth -= 1
        doc = ast.get_docstring(f) is not None
        if hit("noop"):
            f.body.insert(1 if doc else 0, ast.Pass())
        # a helper around the whole body
        body = f.body[1:] if doc else f.body
        if (self.depth == 0 and body and free_of(ast.Module(body=body, type_ignores=[]), ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)
                and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") for n in ast.walk(f))
                and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and hit("inner")):
            inner = self.tmp("impl")
            params = [a.arg for a in f.args.args]
            g = ast.FunctionDef(name=inner, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], vararg=None,
                                                               kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                                body=body, decorator_list=[], returns=None, type_params=[])
            f.body = ([f.body[0]] if doc else []) + [g, ast.Return(value=ast.Call(func=name(inner), args=[name(p) for p in params], keywords=[]))]
        return f

    def visit_ClassDef(self, c):
        incls, self.cls = self.cls, 1
        d, self.depth = self.depth, 0
        out = []
        for x in c.body:
            r = self.visit(x)
            out.extend(r if isinstance(r, list) else [r])
        c.body = out
        self.cls, self.depth = incls, d
        return c

    def visit_Lambda(self, x):
        return x

    # ---------------------------------------------------------------- statements
    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return self.shape(out)

    def shape(self, body):
        """Reorder and reshape a list of statements."""
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            # if c: ...return;  rest   ->   if c: ... else: rest
            if (isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body)
                    and self.depth and hit("else")):
                rest = self.shape(body[i + 1:])
                out.append(ast.If(test=s.test, body=s.body, orelse=rest))
                return out
            # two assignments of constants swap
            if (i + 1 < len(body) and plain(s) and plain(body[i + 1]) and ast.dump(s.targets[0]) != ast.dump(body[i + 1].targets[0]) and hit("swap")):
                out.extend([body[i + 1], s])
                i += 2
                continue
            out.append(s)
            i += 1
        return out

    def generic_blocks(self, s):
        for f in ("body", "orelse", "finalbody"):
            if getattr(s, f, None):
                setattr(s, f, self.block(getattr(s, f)))
        for h in getattr(s, "handlers", []) or []:
            h.body = self.block(h.body)

    def visit_If(self, s):
        s.test = self.visit(s.test)
        self.generic_blocks(s)
        if not self.depth:
            return s
        k = R.randrange(3)
        if k == 0 and s.orelse and hit("invert"):
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse, orelse=s.body)
        if k == 1 and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse and hit("nest"):
            b = s.body
            for c in reversed(s.test.values):
                b = [ast.If(test=c, body=b, orelse=[])]
            return b[0]
        if k == 2 and hit("cond"):
            t = self.tmp("cond")
            return [assign(t, s.test), ast.If(test=name(t), body=s.body, orelse=s.orelse)]
        return s

    def visit_For(self, s):
        s.iter = self.visit(s.iter)
        self.generic_blocks(s)
        if not self.depth or s.orelse:
            return s
        k = R.randrange(3)
        if k == 0 and hit("iter"):
            it, x = self.tmp("iter"), self.tmp("next")
            # while True: try: x = next(it) except StopIteration: break
            return [assign(it, ast.Call(func=name("iter"), args=[s.iter], keywords=[])),
                    ast.While(test=ast.Constant(True), body=[
                        ast.Try(body=[assign(x, ast.Call(func=name("next"), args=[name(it)], keywords=[]))],
                                handlers=[ast.ExceptHandler(type=name("StopIteration"), name=None, body=[ast.Break()])], orelse=[], finalbody=[]),
                        ast.Assign(targets=[s.target], value=name(x))] + s.body, orelse=[])]
        if k == 1 and hit("enumerate") and isinstance(s.target, ast.Name):
            return ast.For(target=ast.Tuple(elts=[name(self.tmp("i"), ast.Store()), s.target], ctx=ast.Store()),
                           iter=ast.Call(func=name("enumerate"), args=[s.iter], keywords=[]), body=s.body, orelse=[])
        if k == 2 and isinstance(s.iter, (ast.Name, ast.Attribute)) and hit("seq"):
            t = self.tmp("seq")
            return [assign(t, s.iter), ast.For(target=s.target, iter=name(t), body=s.body, orelse=[])]
        return s

    def visit_While(self, s):
        s.test = self.visit(s.test)
        self.generic_blocks(s)
        if self.depth and not s.orelse and not isinstance(s.test, ast.Constant) and hit("while"):
            return ast.While(test=ast.Constant(True), body=[ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Break()], orelse=[])] + s.body, orelse=[])
        return s

    def visit_Try(self, s):
        self.generic_blocks(s)
        return s

    def visit_With(self, s):
        s.items = [self.visit(x) for x in s.items]
        self.generic_blocks(s)
        return s

    def visit_Return(self, s):
        if s.value is None:
            return s
        v = s.value
        if self.depth and isinstance(v, ast.IfExp) and hit("ifexp"):
            return ast.If(test=self.visit(v.test), body=[ast.Return(value=self.visit(v.body))], orelse=[ast.Return(value=self.visit(v.orelse))])
        if self.depth and isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async and hit("comploop"):
            t = self.tmp("out")
            pre = self.loop(t, v)
            return pre + [ast.Return(value=name(t))]
        s.value = self.visit(v)
        if self.depth and hit("result"):
            t = self.tmp("result")
            return [assign(t, s.value), ast.Return(value=name(t))]
        return s

    def loop(self, t, v):
        g = v.generators[0]
        ren = {}
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                ren[n.id] = self.tmp(n.id)

        class Ren(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.Name(id=ren.get(n.id, n.id), ctx=n.ctx)
        body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name(t), attr="append", ctx=ast.Load()), args=[Ren().visit(v.elt)], keywords=[]))]
        for c in reversed(g.ifs):
            body = [ast.If(test=Ren().visit(c), body=body, orelse=[])]
        return [assign(t, ast.List(elts=[], ctx=ast.Load())), ast.For(target=Ren().visit(g.target), iter=g.iter, body=body, orelse=[])]

    def visit_Assign(self, s):
        v = s.value
        if (self.depth and isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                and hit("comploop")):
            t = self.tmp("out")
            return self.loop(t, v) + [ast.Assign(targets=s.targets, value=name(t))]
        if self.depth and isinstance(v, ast.IfExp) and hit("ifexp"):
            return ast.If(test=self.visit(v.test), body=[ast.Assign(targets=s.targets, value=self.visit(v.body))],
                          orelse=[ast.Assign(targets=s.targets, value=self.visit(v.orelse))])
        s.value = self.visit(v)
        return s

    def visit_AugAssign(self, s):
        s.value = self.visit(s.value)
        if isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant,)) and hit("aug"):
            return ast.Assign(targets=[ast.Name(id=s.target.id, ctx=ast.Store())],
                              value=ast.BinOp(left=name(s.target.id), op=s.op, right=s.value))
        return s

    def visit_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return s
        s.value = self.visit(s.value)
        return s

    # ---------------------------------------------------------------- expressions
    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) != 1:
            return e
        op, a, b = e.ops[0], e.left, e.comparators[0]
        k = R.randrange(2)
        if k == 0 and hit("notcmp"):
            inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            if type(op) in inv:
                return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=a, ops=[inv[type(op)]()], comparators=[b]))
        if k == 1 and simple(a) and simple(b) and isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and hit("flip"):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            return ast.Compare(left=b, ops=[flip[type(op)]()], comparators=[a])
        return e

    def visit_ListComp(self, e):
        self.generic_visit(e)
        if hit("list()"):
            return ast.Call(func=name("list"), args=[ast.GeneratorExp(elt=e.elt, generators=e.generators)], keywords=[])
        return e

    def visit_Call(self, e):
        self.generic_visit(e)
        # "..{}..".format(a, b) -> f-string
        if (isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str)
                and not e.keywords and e.func.value.value.count("{}") == len(e.args) and e.func.value.value.count("{") == len(e.args)
                and not any(isinstance(a, ast.Starred) for a in e.args) and hit("fstring")):
            parts = e.func.value.value.split("{}")
            vals = []
            for i, p in enumerate(parts):
                if p:
                    vals.append(ast.Constant(p))
                if i < len(e.args):
                    vals.append(ast.FormattedValue(value=e.args[i], conversion=-1, format_spec=None))
            return ast.JoinedStr(values=vals)
        if isinstance(e.func, ast.Name) and e.func.id == "isinstance" and isinstance(e.args[1], ast.Tuple) and len(e.args[1].elts) > 1 and simple(e.args[0]) and hit("isinstance"):
            return ast.BoolOp(op=ast.Or(), values=[ast.Call(func=name("isinstance"), args=[e.args[0], t], keywords=[]) for t in e.args[1].elts])
        return e

    def visit_UnaryOp(self, e):
        self.generic_visit(e)
        return e

    def visit_BoolOp(self, e):
        self.generic_visit(e)
        # de Morgan, only where the value is a condition: conservatively never the value itself
        return e

    def visit_Dict(self, e):
        self.generic_visit(e)
        if not e.keys and hit("dict()"):
            return ast.Call(func=name("dict"), args=[], keywords=[])
        return e

    def visit_List(self, e):
        self.generic_visit(e)
        if not e.elts and isinstance(e.ctx, ast.Load) and hit("list0"):
            return ast.Call(func=name("list"), args=[], keywords=[])
        return e


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name)


def plain(s):
    """self._x = constant"""
    return (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute))
            and (isinstance(s.value, ast.Constant) or isinstance(s.value, (ast.List, ast.Dict)) and free_of(s.value, ast.Name, ast.Call))
            and (isinstance(s.targets[0], ast.Name) or s.targets[0].attr.startswith("_")))


def main():
    root = os.path.join(sys.argv[1], "tfchain")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(".py") or "test" in f.lower():
                continue
            tree = ast.parse(open(p).read())
            tree = ast.fix_missing_locations(T().visit(tree))
            open(p, "w").write(ast.unparse(tree) + "\n")
    print(COUNT)


main()
