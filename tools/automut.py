#!/usr/bin/env python3
"""Machine-made bugs: small semantic edits to the Python sources; report the ones no check notices (for manual review).

usage: automut.py FILE-SUBSTR [--ops a,b] [--func NAME] [-n MAX] [--seed S]
"""
import argparse, ast, copy, glob, importlib, io, os, random, shutil, sys, tempfile, time, contextlib, signal
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("--ops")
ap.add_argument("--func")
ap.add_argument("-n", type=int, default=10 ** 9)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("-j", type=int, default=8)
ap.add_argument("--caught", action="store_true")
A = ap.parse_args()


class Collect(ast.NodeVisitor):
    """list of (line, func, op, edit) where edit is text replacement by node positions"""

    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.fn = []
        self.parents = []

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def rep(self, op, n, new):
        old = self.text(n)
        if old == new:
            return
        self.out.append((n.lineno, ".".join(self.fn), op, self.span(n), old, new))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.params = [a.arg for a in n.args.args + n.args.kwonlyargs if a.arg not in ("self", "cls")]
        self.locals = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(self.params))
        self.attrs = sorted({x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"})
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        body = n.body
        for s in body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)
            if isinstance(n.target, ast.Attribute):
                self.dele(n)

    def dele(self, n):
        self.rep("del", n, "pass")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.dele(n)
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and self.fn:
            self.dele(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.dele(n)
        self.generic_visit(n)

    def visit_If(self, n):
        self.rep("negif", n.test, f"(not ({self.text(n.test)}))")
        if not n.orelse:
            self.rep("iffalse", n.test, "False")
            self.rep("iftrue", n.test, "True")
        self.generic_visit(n)

    def visit_Raise(self, n):
        return

    def visit_Assert(self, n):
        return

    def visit_JoinedStr(self, n):
        return

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            self.rep("cmp", n, f"{self.text(n.left)} {m[type(n.ops[0])]} {self.text(n.comparators[0])}")

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        w = " or " if isinstance(n.op, ast.And) else " and "
        self.rep("bool", n, "(" + w.join(self.text(v) for v in n.values) + ")")
        for i in range(len(n.values)):
            r = [v for j, v in enumerate(n.values) if j != i]
            w2 = " and " if isinstance(n.op, ast.And) else " or "
            self.rep("dropcond", n, "(" + w2.join(self.text(v) for v in r) + ")")

    def visit_BinOp(self, n):
        self.generic_visit(n)
        m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
        if type(n.op) in m:
            self.rep("arith", n, f"({self.text(n.left)} {m[type(n.op)]} {self.text(n.right)})")
        if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
            self.rep("swapop", n, f"({self.text(n.right)} {'@' if isinstance(n.op, ast.MatMult) else '-' if isinstance(n.op, ast.Sub) else '/'} {self.text(n.left)})")
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            self.rep("left", n, f"({self.text(n.left)})")

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        self.rep("unary", n, f"({self.text(n.operand)})")

    def visit_IfExp(self, n):
        self.generic_visit(n)
        self.rep("ifexp", n, f"({self.text(n.orelse)} if {self.text(n.test)} else {self.text(n.body)})")

    def visit_Constant(self, n):
        if not self.fn:
            return
        v = n.value
        if isinstance(v, bool):
            self.rep("const", n, str(not v))
        elif isinstance(v, int):
            self.rep("const", n, str(v + 1))
            if v == 1:
                self.rep("const", n, "0")
        elif isinstance(v, float):
            self.rep("const", n, str(v * 2 + 1))
        elif v is None and len(self.fn) > 0:
            pass

    def visit_Name(self, n):
        if not self.fn or not isinstance(n.ctx, ast.Load):
            return
        c = [x for x in getattr(self, "locals", []) if x != n.id]
        if n.id in getattr(self, "locals", []) and c:
            r = random.Random(f"{n.lineno}.{n.col_offset}.{A.seed}")
            # prefer similar names
            best = sorted(c, key=lambda x: (-len(set(x.split("_")) & set(n.id.split("_"))), r.random()))
            self.rep("name", n, best[0])

    def visit_Attribute(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load) and self.fn:
            c = [x for x in self.attrs if x != n.attr]
            if c:
                r = random.Random(f"{n.lineno}.{n.col_offset}.{A.seed}")
                best = sorted(c, key=lambda x: (-len(set(x.split("_")) & set(n.attr.split("_"))), r.random()))
                self.rep("attr", n, "self." + best[0])
        if n.attr == "T":
            self.rep("noT", n, self.text(n.value))
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            lo = self.text(n.slice.lower) if n.slice.lower else ""
            hi = self.text(n.slice.upper) if n.slice.upper else ""
            v = self.text(n.value)
            if lo:
                self.rep("slice", n, f"{v}[:{hi}]")
            if hi:
                self.rep("slice", n, f"{v}[{lo}:]")

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.text(n.func)
        if f.startswith(("logging", "print", "warnings", "self.logger", "logger", "TypeVar", "cast", "get_default_logger")):
            return
        self.generic_visit(n)
        args = [self.text(a) for a in n.args]
        kws = [(k.arg, self.text(k.value)) for k in n.keywords]

        def mk(args, kws):
            return f"{f}({', '.join(args + [(k + '=' + v) if k else '**' + v for k, v in kws])})"
        for i in range(len(args) - 1):
            a2 = args[:]
            a2[i], a2[i + 1] = a2[i + 1], a2[i]
            self.rep("swapargs", n, mk(a2, kws))
        for i, (k, v) in enumerate(kws):
            self.rep("dropkw", n, mk(args, kws[:i] + kws[i + 1:]))
            if i + 1 < len(kws) and k and kws[i + 1][0]:
                k2 = kws[:]
                k2[i], k2[i + 1] = (k, kws[i + 1][1]), (kws[i + 1][0], v)
                self.rep("swapkw", n, mk(args, k2))
        if isinstance(n.func, ast.Attribute):
            if n.func.attr in ("copy", "tocsr", "tocsc", "tocoo", "transpose", "sort_indices", "astype", "toarray", "unique", "sort", "dropna", "reset_index", "tolist", "ravel", "sum", "nonzero", "eliminate_zeros", "sum_duplicates", "strip", "lower"):
                self.rep("dropcall", n, self.text(n.func.value))
            sw = {"floor": "ceil", "ceil": "floor", "minimum": "maximum", "maximum": "minimum", "argsort": "argsort_", "hstack": "vstack", "vstack": "hstack", "index": "columns"}
            if n.func.attr in sw and not sw[n.func.attr].endswith("_"):
                self.rep("fn", n.func, self.text(n.func.value) + "." + sw[n.func.attr])
        elif isinstance(n.func, ast.Name):
            sw = {"min": "max", "max": "min", "any": "all", "all": "any"}
            if n.func.id in sw:
                self.rep("fn", n.func, sw[n.func.id])
            if n.func.id in ("int", "list", "set", "sorted", "float", "abs", "str") and len(args) == 1 and not kws:
                self.rep("dropcall", n, args[0])


FAST = [f"c{i:02d}" for i in range(1, 23)]
from sa import report
mods = {m: importlib.import_module("sa.rules." + m) for m in FAST}
for m in ("c02", "c05", "c10", "c14", "c18"):
    nm = importlib.import_module(f"sa.rules.{m}_native")
    nm.native = lambda *a, **k: None
mods["c09"].native_split = lambda *a, **k: None
mods["c12"].native_refusal = lambda *a, **k: None
NATIVE = None


def run_mutant(d, rel):
    """in a forked child: run every Python rule; returns (caught list)"""
    got = []
    for m in FAST:
        if m in ("c11", "c21") or (m == "c08" and "/split/" not in rel and "utils" not in rel):
            continue
        if m == "c15" and "/dataset/" not in rel:
            continue
        ctx = report.Ctx(m.upper(), "quick", d)
        ctx._native = NATIVE
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                mods[m].check(ctx)
        except BaseException as e:
            pass
        known = [k for k in report.known_findings() if k["property"] == m.upper()]
        new = [v for v in ctx.violations if not any(k["rule"] == v["rule"] and k["construct"] == v["construct"] for k in known)]
        if new:
            got.append(f"{m.upper()}:{new[0]['rule']}")
            break
    return got


def main():
    global NATIVE
    sys.setrecursionlimit(20000)
    from sa.native import Native
    muts = []
    for p in sorted(glob.glob("/repo/src/irspack/**/*.py", recursive=True)):
        rel = p[len("/repo/"):]
        if A.file not in rel:
            continue
        c = Collect(open(p).read())
        c.visit(ast.parse(c.src))
        for m in c.out:
            if A.func and A.func not in m[1]:
                continue
            if A.ops and m[2] not in A.ops.split(","):
                continue
            muts.append((p, rel, c.b, m))
    random.Random(A.seed).shuffle(muts)
    muts = muts[:A.n]
    muts.sort(key=lambda m: (m[1], m[3][0]))
    print(len(muts), "mutants", flush=True)
    NATIVE = Native("/repo")
    tmp = tempfile.mkdtemp(prefix="amut.")
    live = {}
    tot = [0, 0]
    t0 = time.time()

    def reap(block):
        pid, stt = os.waitpid(-1, 0 if block else os.WNOHANG)
        if pid == 0:
            return False
        i, d, m = live.pop(pid)
        out = open(d + ".out").read() if os.path.exists(d + ".out") else "CRASH"
        shutil.rmtree(d, ignore_errors=True)
        tot[0] += 1
        if out and out != "CRASH":
            tot[1] += 1
        if out == "" or out == "CRASH" or A.caught:
            p, rel, b, (line, fn, op, sp, old, new) = m
            print(f"{rel.split('irspack/')[1]}:{line} {fn} [{op}] {old[:110]!r} -> {new[:110]!r} {out}".replace("\\n", " "), flush=True)
        return True

    for i, m in enumerate(muts):
        p, rel, b, (line, fn, op, (a, z), old, new) = m
        nb = b[:a] + new.encode() + b[z:]
        try:
            compile(nb, p, "exec")
        except SyntaxError:
            continue
        d = f"{tmp}/{i}"
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
        os.symlink("/repo/cpp_source", d + "/cpp_source")
        open(os.path.join(d, rel), "wb").write(nb)
        while len(live) >= A.j:
            reap(True)
        pid = os.fork()
        if pid == 0:
            import threading
            signal.alarm(240)
            res = []

            def go():
                res.append(run_mutant(d, rel))
            threading.stack_size(256 * 1024 * 1024)
            t = threading.Thread(target=go)
            t.start()
            t.join()
            open(d + ".out", "w").write(" ".join(res[0]) if res else "CRASH")
            os._exit(0)
        live[pid] = (i, d, m)
    while live:
        reap(True)
    shutil.rmtree(tmp, ignore_errors=True)
    print(f"caught {tot[1]} of {tot[0]}, {time.time() - t0:.0f} s")


import threading
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
