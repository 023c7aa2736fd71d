#!/usr/bin/env python3
"""Stress the checks with machine-made refactorings: every transform below keeps behaviour; each is applied to the whole
Python tree (or --file F / --func NAME) of a scratch copy, and all checks must stay quiet.

usage: autoref.py [-t T1,T2] [--file SUBSTR] [--func NAME] [--props C01,C02] [--keep]
"""
import argparse, ast, copy, glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ALL = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(VERIF + "/sa/rules/c[0-9][0-9].py"))
ARGS = None


def N(i):
    return ast.Name(i, ast.Load())


def S(i):
    return ast.Name(i, ast.Store())


class Fresh:
    n = 0

    def __call__(self, p="tmp"):
        Fresh.n += 1
        return f"_{p}{Fresh.n}"


fresh = Fresh()


def assign(n, v):
    return ast.Assign([S(n)], v)


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant))


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


class Blocks(ast.NodeTransformer):
    """rewrite statement lists inside functions"""

    def __init__(self):
        self.fn = []
        self.cls = []

    def active(self):
        return self.fn and (ARGS.func is None or any(f.name == ARGS.func for f in self.fn))

    def visit_ClassDef(self, n):
        self.cls.append(n)
        self.generic_visit(n)
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        if self.active():
            n.body = self.block(n.body)
        self.fn.pop()
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if self.active():
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if self.active():
            n.body = self.block(n.body)
        return n

    visit_While = visit_For

    def visit_With(self, n):
        return self.visit_For(n)

    def visit_Try(self, n):
        self.generic_visit(n)
        if self.active():
            n.body = self.block(n.body)
        return n

    def block(self, b):
        out = []
        for s in b:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, s):
        return s


class RetTemp(Blocks):
    "return E -> r = E; return r"

    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
            t = fresh("ret")
            return [assign(t, s.value), ast.Return(N(t))]
        return s


class ArgTemp(Blocks):
    "f(E1, k=E2) -> a = E1; b = E2; f(a, k=b) for the outermost call of a statement"

    def stmt(self, s):
        c = None
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call):
            c = s.value
        if c is None or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return s
        if isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, (ast.Name, ast.Attribute)):
            return s
        if isinstance(c.func, ast.Name) and c.func.id in ("super", "cast", "TypeVar", "locals"):
            return s
        pre = []
        for i, a in enumerate(c.args):
            if not simple(a):
                t = fresh("arg")
                pre.append(assign(t, a))
                c.args[i] = N(t)
        for k in c.keywords:
            if not simple(k.value):
                t = fresh("arg")
                pre.append(assign(t, k.value))
                k.value = N(t)
        return pre + [s]


class Invert(Blocks):
    "if c: A else: B -> if not c: B else: A"

    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


class GuardElse(Blocks):
    "if c: return/raise; rest -> if c: return/raise else: rest"

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:]:
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1:]))]
        return b


class GuardInvert(Blocks):
    "if c: return/raise; rest -> if not c: rest else: return/raise"

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:]:
                return b[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), self.block(b[i + 1:]), s.body)]
        return b


class CondTemp(Blocks):
    "if E: -> c = E; if c:"

    def stmt(self, s):
        if isinstance(s, ast.If) and not simple(s.test):
            t = fresh("cond")
            return [assign(t, s.test), ast.If(N(t), s.body, s.orelse)]
        return s


class CompLoop(Blocks):
    "x = [E for v in I if c] -> loop with append"

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
            g = s.value.generators[0]
            t = fresh("acc")
            ren = {n: fresh(n) for n in names(g.target, ast.Store)}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(ren.get(n.id, n.id), n.ctx)
            tgt = R().visit(g.target)
            ifs = [R().visit(c) for c in g.ifs]
            if isinstance(s.value, ast.ListComp):
                init = ast.List([], ast.Load())
                body = [ast.Expr(ast.Call(ast.Attribute(N(t), "append", ast.Load()), [R().visit(s.value.elt)], []))]
            else:
                init = ast.Dict([], [])
                body = [ast.Assign([ast.Subscript(N(t), R().visit(s.value.key), ast.Store())], R().visit(s.value.value))]
            for c in reversed(ifs):
                body = [ast.If(c, body, [])]
            s.value = N(t)
            return [assign(t, init), ast.For(tgt, g.iter, body, []), s]
        return s


class LoopComp(Blocks):
    "x = []; for v in I: x.append(E) -> x = [E for v in I]"

    def block(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if (i + 1 < len(b) and isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.List) and not s.value.elts
                    and isinstance(b[i + 1], ast.For) and len(b[i + 1].body) == 1):
                tg = s.targets[0] if isinstance(s, ast.Assign) else s.target
                e = b[i + 1].body[0]
                if (isinstance(tg, ast.Name) and isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute)
                        and e.value.func.attr == "append" and isinstance(e.value.func.value, ast.Name) and e.value.func.value.id == tg.id):
                    s.value = ast.ListComp(e.value.args[0], [ast.comprehension(b[i + 1].target, b[i + 1].iter, [], 0)])
                    out.append(s)
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class RangeWhile(Blocks):
    "for i in range(n) -> while"

    def stmt(self, s):
        if (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range"
                and len(s.iter.args) < 3 and isinstance(s.target, ast.Name) and not s.orelse
                and not any(isinstance(x, ast.Continue) for x in ast.walk(s))):
            a = s.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
            k, h = fresh("k"), fresh("end")
            return [assign(k, lo), assign(h, hi),
                    ast.While(ast.Compare(N(k), [ast.Lt()], [N(h)]),
                              [assign(s.target.id, N(k))] + s.body + [ast.AugAssign(S(k), ast.Add(), ast.Constant(1))], [])]
        return s


class Unpack(Blocks):
    "a, b = E -> t = E; a = t[0]; b = t[1]"

    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) \
                and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
            t = fresh("tup")
            return [assign(t, s.value)] + [ast.Assign([e], ast.Subscript(N(t), ast.Constant(i), ast.Load()))
                                           for i, e in enumerate(s.targets[0].elts)]
        return s


class IfExp(Blocks):
    "x = a if c else b -> if/else; return likewise"

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return s


class ToIfExp(Blocks):
    "if c: x = a else: x = b -> x = a if c else b"

    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and len(a.targets) == len(b.targets) == 1:
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
        return s


class Dead(Blocks):
    "no-op statements"

    def block(self, b):
        out = []
        for i, s in enumerate(b):
            if not (i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append(assign(fresh("noop"), ast.Constant(None)))
            out.append(s)
        return out


class CmpFlip(ast.NodeTransformer):
    "a < b -> b > a; a == b -> b == a; not (a is None)"
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        return n


class DeMorgan(ast.NodeTransformer):
    "a and b -> not (not a or not b) in if/while/assert tests"

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class KwReverse(ast.NodeTransformer):
    "keyword order reversed"

    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords):
            n.keywords = n.keywords[::-1]
        return n


class KeyLoop(Blocks):
    "for k, v in d.items() -> for k in d: v = d[k]"

    def stmt(self, s):
        if (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items"
                and isinstance(s.iter.func.value, ast.Name) and isinstance(s.target, ast.Tuple)):
            k, v = s.target.elts
            if isinstance(k, ast.Name):
                return ast.For(k, s.iter.func.value, [ast.Assign([v], ast.Subscript(s.iter.func.value, N(k.id), ast.Load()))] + s.body, s.orelse)
        return s


class Enumerate(Blocks):
    "for i, x in enumerate(I) -> counter"

    def stmt(self, s):
        if (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate"
                and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name)
                and not any(isinstance(x, ast.Continue) for x in ast.walk(s))):
            k = fresh("cnt")
            return [assign(k, ast.Constant(0)),
                    ast.For(s.target.elts[1], s.iter.args[0],
                            [assign(s.target.elts[0].id, N(k))] + s.body + [ast.AugAssign(S(k), ast.Add(), ast.Constant(1))], [])]
        return s


class Impl(ast.NodeTransformer):
    "def f(args): body -> def f(args): return f_impl(args), the body moving to a helper"

    def __init__(self):
        self.top = []

    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                nb = []
                for x in s.body:
                    nb += self.split(x, True) if isinstance(x, ast.FunctionDef) else [x]
                s.body = nb
                out.append(s)
            elif isinstance(s, ast.FunctionDef):
                out += self.split(s, False)
            else:
                out.append(s)
        m.body = out
        return m

    def split(self, f, meth):
        deco = [ast.unparse(d) for d in f.decorator_list]
        if any("overload" in d or "abstract" in d or "contextmanager" in d or "hk." in d for d in deco):
            return [f]
        if ARGS.func is not None and f.name != ARGS.func:
            return [f]
        a = f.args
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return [f]
        if len(f.body) <= 1 or (f.name.startswith("__") and f.name != "__init__"):
            return [f]
        static = "staticmethod" in deco
        clsm = "classmethod" in deco
        impl = copy.deepcopy(f)
        impl.name = f"_{f.name.strip('_')}_impl"
        impl.decorator_list = [d for d in impl.decorator_list if ast.unparse(d) in ("staticmethod", "classmethod")]
        if static:
            return [f]
        pos = [x.arg for x in a.posonlyargs + a.args]
        if meth:
            recv = pos[0]
            fn = ast.Attribute(N(recv), impl.name, ast.Load())
            pos = pos[1:]
        else:
            fn = N(impl.name)
        call = ast.Call(fn, [N(p) for p in pos] + ([ast.Starred(N(a.vararg.arg), ast.Load())] if a.vararg else []),
                        [ast.keyword(k.arg, N(k.arg)) for k in a.kwonlyargs] + ([ast.keyword(None, N(a.kwarg.arg))] if a.kwarg else []))
        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        if meth:
            # a subclass overriding f and calling super().f must not clash: name by class is not needed, f_impl is reached only from f
            pass
        f.body = doc + [ast.Return(call)]
        return [impl, f]


class ImplCls(Impl):
    "the same with a class-qualified helper name (no override between classes)"

    def visit_Module(self, m):
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                nb = []
                for x in s.body:
                    r = self.split(x, True) if isinstance(x, ast.FunctionDef) else [x]
                    if len(r) == 2:
                        nn = f"_{s.name.lower()}_{r[0].name}"
                        old = r[0].name
                        r[0].name = nn
                        for y in ast.walk(r[1]):
                            if isinstance(y, ast.Attribute) and y.attr == old:
                                y.attr = nn
                    nb += r
                s.body = nb
        return m


class Tail(ast.NodeTransformer):
    "the second half of a function body moves to a module-level helper taking the live locals"

    def visit_Module(self, m):
        out = []
        for s in m.body:
            fs = [s] if isinstance(s, ast.FunctionDef) else [x for x in s.body if isinstance(x, ast.FunctionDef)] if isinstance(s, ast.ClassDef) else []
            pre = []
            for f in fs:
                h = self.cut(f)
                if h:
                    pre.append(h)
            out += [s] + pre
        m.body = out
        return m

    def cut(self, f):
        if ARGS.func is not None and f.name != ARGS.func:
            return None
        b = f.body
        if len(b) < 4 or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(f)):
            return None
        k = len(b) // 2
        pre, suf = b[:k], b[k:]
        if any(isinstance(x, ast.Name) and x.id in ("super", "locals") for s in suf for x in ast.walk(s)):
            return None
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom)) for s in b for x in ast.walk(s)):
            return None
        if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for s in suf for x in ast.walk(s)):
            return None
        params = [x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs] + [x.arg for x in (f.args.vararg, f.args.kwarg) if x]
        sure = set(params)
        maybe = set(params)
        for s in pre:
            maybe |= names(s, ast.Store)
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                if not (isinstance(s, ast.AnnAssign) and s.value is None):
                    sure |= {n.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if isinstance(s, ast.If):
                l = [set().union(*[names(x, ast.Store) for x in br]) if br else set() for br in (s.body, s.orelse)]
                sure |= l[0] & l[1]
                if s.body and isinstance(s.body[-1], ast.Raise):
                    sure |= l[1]
        need = sorted(set().union(*[names(s) for s in suf]) & maybe)
        if set(need) - sure:
            return None
        h = f"_{f.name.strip('_')}_tail{fresh('')}"
        anns = {x.arg: x.annotation for x in f.args.args}
        fn = ast.FunctionDef(h, ast.arguments([], [ast.arg(n, copy.deepcopy(anns.get(n))) for n in need], None, [], [], None, []), suf, [], None, type_params=[])
        f.body = pre + [ast.Return(ast.Call(N(h), [N(n) for n in need], []))]
        return fn


class Head(Tail):
    "the last compound statement's or expression's value: each 'self.x = E' with E non-trivial goes through a local"

    def visit_Module(self, m):
        class T(Blocks):
            def stmt(self, s):
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and not simple(s.value):
                    t = fresh("val")
                    return [assign(t, s.value), ast.Assign(s.targets, N(t))]
                return s
        return T().visit(m)


class Rename(ast.NodeTransformer):
    "locals (not parameters) renamed"

    def visit_FunctionDef(self, n):
        if ARGS.func is not None and n.name != ARGS.func:
            self.generic_visit(n)
            return n
        params = {x.arg for f in ast.walk(n) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(f.args) if isinstance(x, ast.arg)}
        glob_ = {y for x in ast.walk(n) if isinstance(x, (ast.Global,)) for y in x.names}
        loc = names(n, ast.Store) - params - glob_
        ex = {h.name for h in ast.walk(n) if isinstance(h, ast.ExceptHandler) and h.name}
        imp = {(a.asname or a.name).split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        loc -= ex | imp | {f.name for f in ast.walk(n) if isinstance(f, (ast.FunctionDef, ast.ClassDef))}
        fstr = set()

        class R(ast.NodeTransformer):
            def visit_Name(self, x):
                if x.id in loc:
                    x.id = x.id + "_v"
                return x

            def visit_Nonlocal(self, x):
                x.names = [y + "_v" if y in loc else y for y in x.names]
                return x
        return R().visit(n)


class SelfLocal(Blocks):
    "X = self.X_all read once into a local at first use of a statement: self.a used in a Return"

    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None:
            pre = []
            seen = {}

            class R(ast.NodeTransformer):
                def visit_Lambda(self, x):
                    return x
                visit_ListComp = visit_GeneratorExp = visit_DictComp = visit_IfExp = visit_BoolOp = visit_Lambda

                def visit_Call(self, x):
                    if isinstance(x.func, ast.Attribute):
                        x.func.value = self.visit(x.func.value) if not (isinstance(x.func.value, ast.Name)) else x.func.value
                    x.args = [self.visit(a) for a in x.args]
                    for k in x.keywords:
                        k.value = self.visit(k.value)
                    return x

                def visit_Attribute(self, x):
                    if isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
                        if x.attr not in seen:
                            seen[x.attr] = fresh(x.attr)
                            pre.append(assign(seen[x.attr], x))
                        return N(seen[x.attr])
                    self.generic_visit(x)
                    return x
            s.value = R().visit(s.value)
            return pre + [s]
        return s


class AndNest(Blocks):
    "if a and b: X -> if a: if b: X"

    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for c in reversed(s.test.values):
                body = [ast.If(c, body, [])]
            return body
        return s


class OrChain(Blocks):
    "if a or b: raise -> if a: raise; if b: raise"

    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and isinstance(s.body[-1], (ast.Raise, ast.Return)):
            return [ast.If(c, copy.deepcopy(s.body), []) for c in s.test.values]
        return s


class SingleExit(Blocks):
    "if c: return A; return B -> if c: r = A else: r = B; return r"

    def block(self, b):
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and b[-1].value is not None and isinstance(b[-2], ast.If) and not b[-2].orelse \
                and isinstance(b[-2].body[-1], ast.Return) and b[-2].body[-1].value is not None:
            r = fresh("res")
            return b[:-2] + [ast.If(b[-2].test, b[-2].body[:-1] + [assign(r, b[-2].body[-1].value)], [assign(r, b[-1].value)]), ast.Return(N(r))]
        return b


class Sel(Blocks):
    "matmul operator / dot method swap:  a.dot(b) <-> a @ b"

    def __init__(self):
        super().__init__()

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.active() and isinstance(n.func, ast.Attribute) and n.func.attr == "dot" and len(n.args) == 1 and not n.keywords:
            return ast.BinOp(n.func.value, ast.MatMult(), n.args[0])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.active() and isinstance(n.op, ast.MatMult):
            return ast.Call(ast.Attribute(n.left, "dot", ast.Load()), [n.right], [])
        return n


class Commute(ast.NodeTransformer):
    "a + b / a * b with a numeric constant on one side swapped"

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Add, ast.Mult)) and any(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in (n.left, n.right)):
            if not any(isinstance(x, (ast.List, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                n.left, n.right = n.right, n.left
        return n


class PosKw(ast.NodeTransformer):
    "positional arguments of project functions/constructors become keywords (unique module-level names only)"
    SIG = None

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.SIG and not any(isinstance(a, ast.Starred) for a in n.args):
            ps = self.SIG[n.func.id]
            if len(n.args) <= len(ps):
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []
        return n


class WithStmtOrder(Blocks):
    "two adjacent independent assignments 'a = E; b = F' of plain names without calls are swapped"

    def block(self, b):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, t = out[i], out[i + 1]
            ok = all(isinstance(x, ast.Assign) and len(x.targets) == 1 and (isinstance(x.targets[0], ast.Name) or isinstance(x.targets[0], ast.Attribute))
                     and not any(isinstance(y, (ast.Call, ast.Await, ast.NamedExpr)) for y in ast.walk(x)) for x in (s, t))
            if ok:
                def wr(x):
                    g = x.targets[0]
                    return ast.unparse(g)

                def rd(x):
                    return {ast.unparse(y) for y in ast.walk(x.value) if isinstance(y, (ast.Name, ast.Attribute))}
                if wr(s) not in rd(t) and wr(t) not in rd(s) and wr(s) != wr(t):
                    out[i], out[i + 1] = t, s
                    i += 2
                    continue
            i += 1
        return out


class Transpose(ast.NodeTransformer):
    "A.T -> A.transpose()"

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "T" and isinstance(n.ctx, ast.Load):
            return ast.Call(ast.Attribute(n.value, "transpose", ast.Load()), [], [])
        return n


class ShapeUnpack(Blocks):
    "x = E.shape[0] -> x, _ = E.shape; x = E.shape[1] -> _, x = E.shape"

    def stmt(self, s):
        if (isinstance(s, ast.Assign) and isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Attribute) and s.value.value.attr == "shape"
                and isinstance(s.value.slice, ast.Constant) and isinstance(s.targets[0], (ast.Name, ast.Attribute))
                and any(w in ast.unparse(s.value.value.value).lower() for w in ("x_train", "interaction", "ground_truth"))):
            d = S(fresh("dim"))
            e = [s.targets[0], d] if s.value.slice.value == 0 else [d, s.targets[0]]
            return ast.Assign([ast.Tuple(e, ast.Store())], s.value.value)
        return s


class NonzeroPair(Blocks):
    "X[m.nonzero()] = v -> r, c = m.nonzero(); X[r, c] = v"

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].slice, ast.Call) \
                and isinstance(s.targets[0].slice.func, ast.Attribute) and s.targets[0].slice.func.attr == "nonzero":
            r, c = fresh("rows"), fresh("cols")
            t = s.targets[0]
            return [ast.Assign([ast.Tuple([S(r), S(c)], ast.Store())], t.slice),
                    ast.Assign([ast.Subscript(t.value, ast.Tuple([N(r), N(c)], ast.Load()), ast.Store())], s.value)]
        return s


class InfFloat(ast.NodeTransformer):
    "-np.inf -> float('-inf')"

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.USub) and ast.unparse(n.operand) in ("np.inf", "numpy.inf"):
            return ast.Call(N("float"), [ast.Constant("-inf")], [])
        return n


class IsInst(ast.NodeTransformer):
    "isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], t], []) for t in n.args[1].elts])
        return n


class MinMax(ast.NodeTransformer):
    "min(a, b) -> a if a <= b else b"

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("min", "max") and len(n.args) == 2 and not n.keywords and all(
                not any(isinstance(y, ast.Call) for y in ast.walk(a)) for a in n.args):
            return ast.IfExp(ast.Compare(n.args[0], [ast.LtE() if n.func.id == "min" else ast.GtE()], [n.args[1]]), n.args[0], n.args[1])
        return n


class RaiseTemp(Blocks):
    "raise E(m) -> err = E(m); raise err"

    def stmt(self, s):
        if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call) and s.cause is None:
            t = fresh("err")
            return [assign(t, s.exc), ast.Raise(N(t), None)]
        return s


class NoAnn(Blocks):
    "x: T = v -> x = v (inside functions)"

    def stmt(self, s):
        if isinstance(s, ast.AnnAssign):
            return ast.Assign([s.target], s.value) if s.value is not None else ast.Pass()
        return s


class SliceObj(ast.NodeTransformer):
    "a[b:c] (load) -> a[slice(b, c)]"

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice) and n.slice.step is None and isinstance(n.ctx, ast.Load):
            n.slice = ast.Call(N("slice"), [n.slice.lower or ast.Constant(None), n.slice.upper or ast.Constant(None)], [])
        return n


class DictLit(ast.NodeTransformer):
    "dict(a=1) -> {'a': 1}"

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and n.keywords:
            return ast.Dict([ast.Constant(k.arg) if k.arg else None for k in n.keywords], [k.value for k in n.keywords])
        return n


class LambdaDef(Blocks):
    "f(lambda x: E) in a statement -> def g(x): return E; f(g)"

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
            pre = []

            class R(ast.NodeTransformer):
                def visit_Lambda(self, x):
                    g = fresh("fn")
                    pre.append(ast.FunctionDef(g, x.args, [ast.Return(x.body)], [], None, type_params=[]))
                    return N(g)

                def visit_ListComp(self, x):
                    return x
                visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_ListComp
            s = R().visit(s)
            return pre + [s]
        return s


class ExtractExpr(ast.NodeTransformer):
    "each non-trivial binary/call right-hand side over locals only -> module-level helper of those locals"

    def visit_Module(self, m):
        helpers = []

        class T(Blocks):
            def stmt(self, s):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, (ast.BinOp, ast.Call, ast.Subscript, ast.Compare)):
                    f = self.fn[-1]
                    if len(self.fn) > 1 or any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(s.value)):
                        return s
                    if any(isinstance(x, ast.Name) and x.id in ("super", "locals") for x in ast.walk(s.value)):
                        return s
                    if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(s.value)):
                        return s
                    loc = names(f, ast.Store) | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
                    loc |= {y for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for y in [(a.asname or a.name).split(".")[0] for a in x.names]}
                    loc |= {x.name for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f}
                    need = sorted(names(s.value, ast.Load) & loc)
                    h = fresh("expr")
                    anns = {x.arg: x.annotation for x in f.args.args}
                    helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(n, copy.deepcopy(anns.get(n))) for n in need], None, [], [], None, []),
                                                   [ast.Return(s.value)], [], None, type_params=[]))
                    s.value = ast.Call(N(h), [N(n) for n in need], [])
                return s
        m = T().visit(m)
        m.body += helpers
        return m


class ToMethodCond(ast.NodeTransformer):
    "each if test over self -> private method returning bool"

    def visit_Module(self, m):
        for c in m.body:
            if not isinstance(c, ast.ClassDef):
                continue
            add_ = []
            for f in c.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != "self":
                    continue
                if ARGS.func is not None and f.name != ARGS.func:
                    continue
                loc = names(f, ast.Store) | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
                inner = {id(x) for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f for x in ast.walk(g)}
                for s in ast.walk(f):
                    if isinstance(s, ast.If) and id(s) not in inner and not simple(s.test) and not any(
                            isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.NamedExpr)) or isinstance(x, ast.Attribute) and x.attr.startswith("__") for x in ast.walk(s.test)):
                        need = sorted((names(s.test, ast.Load) & loc) - {"self"})
                        h = fresh("test")
                        add_.append(ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(n) for n in need], None, [], [], None, []),
                                                    [ast.Return(s.test)], [], None, type_params=[]))
                        s.test = ast.Call(ast.Attribute(N("self"), h, ast.Load()), [N(n) for n in need], [])
            c.body += add_
        return m


T = {c.__name__: c for c in (RetTemp, ArgTemp, Invert, GuardElse, GuardInvert, CondTemp, CompLoop, LoopComp, RangeWhile, Unpack, IfExp, ToIfExp,
                             Dead, CmpFlip, DeMorgan, KwReverse, KeyLoop, Enumerate, Impl, ImplCls, Tail, Head, Rename, SelfLocal, AndNest,
                             OrChain, SingleExit, Sel, Commute, PosKw, WithStmtOrder, Transpose, ShapeUnpack, NonzeroPair, InfFloat, IsInst,
                             MinMax, RaiseTemp, NoAnn, SliceObj, DictLit, LambdaDef, ExtractExpr, ToMethodCond)}
SKIP = {"Impl"}          # ImplCls subsumes it; Impl's helper names clash between super() chains


def signatures(d):
    sig, dup = {}, set()
    for p in glob.glob(d + "/src/irspack/**/*.py", recursive=True):
        for s in ast.parse(open(p).read()).body:
            if isinstance(s, ast.FunctionDef):
                if s.name in sig or s.args.vararg or s.decorator_list:
                    dup.add(s.name)
                sig[s.name] = [a.arg for a in s.args.args]
    return {k: v for k, v in sig.items() if k not in dup}


def transform(ts, d):
    PosKw.SIG = signatures(d)
    ch = 0
    for p in sorted(glob.glob(d + "/src/irspack/**/*.py", recursive=True)):
        if ARGS.file and ARGS.file not in p:
            continue
        t = ast.parse(open(p).read())
        before = ast.unparse(t)
        for x in ts:
            t = T[x]().visit(t)
            ast.fix_missing_locations(t)
            t = ast.parse(ast.unparse(t))
        after = ast.unparse(t)
        if after != before:
            ch += 1
            open(p, "w").write(after + "\n")
    return ch


def one(ts):
    d = tempfile.mkdtemp(prefix="aref.")
    try:
        for x in ("src", "pyproject.toml", "cpp_source", "include"):
            s = os.path.join("/repo", x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, x), ignore=shutil.ignore_patterns("*.so", "__pycache__"))
            elif os.path.exists(s):
                shutil.copy(s, d)
        ch = transform(ts, d)

        def chk(p):
            ev = tempfile.mkdtemp(prefix="ev.")
            r = subprocess.run([sys.executable, VERIF + "/check.py", "--property", p], capture_output=True, text=True,
                               env=dict(os.environ, IRSPACK_REPO=d, SA_EVIDENCE=ev))
            shutil.rmtree(ev, ignore_errors=True)
            return p, r.returncode, r.stdout + r.stderr
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(chk, ARGS.props))
        bad = [(p, rc, o) for p, rc, o in res if rc or 'INCOMPLETE' in o]
        print(f"{'+'.join(ts)}: {ch} files changed, {'quiet' if not bad else 'ALARM ' + ' '.join(p for p, _, _ in bad)}", flush=True)
        for p, rc, o in bad:
            ls = [l for l in o.splitlines() if not l.startswith("KNOWN")]
            print("   ", p, rc, *(l.replace(d, "")[:ARGS.width] for l in ls[:ARGS.lines]), sep="\n      ", flush=True)
        if ARGS.keep:
            print(d)
    finally:
        if not ARGS.keep:
            shutil.rmtree(d, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("-t")
ap.add_argument("--file")
ap.add_argument("--func")
ap.add_argument("--props", default=",".join(ALL))
ap.add_argument("--keep", action="store_true")
ap.add_argument("--width", type=int, default=400)
ap.add_argument("--lines", type=int, default=4)
ARGS = ap.parse_args()
ARGS.props = ARGS.props.split(",")
for t in (ARGS.t.split(",") if ARGS.t else [t for t in T if t not in SKIP]):
    one(t.split("+"))
