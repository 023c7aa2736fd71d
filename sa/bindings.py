"""What the nanobind modules register: names, parameter lists, targets."""
import re

from .cxx import ALIASES, template_args, tyof

WRAP = {"ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr", "ParenExpr", "CXXStaticCastExpr", "ConstantExpr",
        "CStyleCastExpr", "UnaryExprOrTypeTraitExpr", "SubstNonTypeTemplateParmExpr"}


def peel(n):
    while n.get("kind") in WRAP and n.get("inner"):
        n = n["inner"][-1]
    return n


class Reg:
    """One registered callable, field, enumerator or constant."""

    def __init__(self, module, cls, name, kind, loc):
        self.module, self.cls, self.name, self.kind, self.loc = module, cls, name, kind, loc
        self.params = None        # [(name, has_default, default text)] of the Python-visible parameters
        self.native = None        # [(name, type)] of the native parameters without self
        self.target = None        # native declaration
        self.tname = None         # name of the native target
        self.ret = None
        self.owner = None         # native class declaration name
        self.lam = None

    @property
    def qual(self):
        return ".".join(x for x in (self.module, self.cls, self.name) if x)


class Bindings:
    def __init__(self, unit):
        self.unit, self.module = unit, unit.name
        self.regs = []
        self.classes = {}         # python name -> native type string
        self.enums = {}           # python name -> native type string
        self.incomplete = []      # constructs that could not be read
        self.vars = {}
        ALIASES.clear()
        ALIASES.update(unit.aliases)
        fn = unit.init_fn
        if fn is None:
            self.incomplete.append("no module initialiser")
            return
        for n in fn.decl.get("inner", ()):
            if n.get("kind") == "CompoundStmt":
                for s in n.get("inner", ()):
                    self.stmt(s)

    # -- walking
    def loc(self, n):
        f = n.get("_file") or ""
        return f"{self.unit.rel}:{n.get('_line')}"

    def stmt(self, s):
        if s.get("kind") == "DeclStmt":
            for d in s.get("inner", ()):
                if d.get("kind") == "VarDecl" and d.get("inner"):
                    r = self.expr(d["inner"][-1])
                    if r is not None:
                        self.vars[d.get("id")] = r
            return
        if s.get("kind") == "CompoundStmt":
            for x in s.get("inner", ()):
                self.stmt(x)
            return
        if s.get("kind") in ("ForStmt", "WhileStmt", "IfStmt", "CXXForRangeStmt"):
            self.incomplete.append(f"{self.loc(s)}: registration under control flow")
            return
        self.expr(s)

    def expr(self, n):
        """('module',) | ('class', name) | ('enum', name) | ('attr', name) | None"""
        n = peel(n)
        k = n.get("kind")
        if k == "DeclRefExpr":
            r = n.get("referencedDecl") or {}
            if r.get("id") in self.vars:
                return self.vars[r["id"]]
            if "module_" in (n.get("type") or {}).get("qualType", ""):
                return ("module",)
            return None
        if k in ("CXXTemporaryObjectExpr", "CXXConstructExpr"):
            t = (n.get("type") or {}).get("qualType", "")
            m = re.match(r"(?:const )?(?:nanobind::|nb::)?(class_|enum_)<", t)
            if m:
                ins = n.get("inner", ())
                if len(ins) == 1:
                    return self.expr(ins[0])
                name = next((v for v in map(literal, ins) if v is not None), None)
                if name is None:
                    self.incomplete.append(f"{self.loc(n)}: {t} with a computed name")
                    name = "?" + t
                arg = template_args(t)[0]
                if m.group(1) == "class_":
                    self.classes[name] = arg
                    return ("class", name)
                self.enums[name] = arg
                return ("enum", name)
            return None
        if k == "CXXMemberCallExpr":
            ins = n.get("inner", ())
            me = peel(ins[0])
            base = self.expr(me["inner"][0]) if me.get("inner") else None
            if base is None:
                return None
            return self.member(n, base, me.get("name"), ins[1:])
        if k == "CXXOperatorCallExpr":
            ins = n.get("inner", ())
            if len(ins) == 3:
                base = self.expr(ins[1])
                if base is not None and base[0] == "attr":
                    r = Reg(self.module, None, base[1], "const", self.loc(n))
                    v = peel(ins[2])
                    r.target = v.get("referencedDecl")
                    r.tname = (r.target or {}).get("name")
                    r.owner = (v.get("type") or {}).get("qualType", "")
                    self.regs.append(r)
            return None
        if k == "CallExpr":
            for a in n.get("inner", ())[1:]:
                b = self.expr(a) if peel(a).get("kind") in ("DeclRefExpr",) else None
                if b is not None:
                    self.incomplete.append(f"{self.loc(n)}: registration through a helper")
        return None

    def member(self, n, base, name, args):
        if base[0] == "module" and name == "attr":
            s = literal(args[0])
            return ("attr", s) if s is not None else None
        if base[0] == "enum":
            if name == "value":
                s = literal(args[0])
                r = Reg(self.module, base[1], s, "enum", self.loc(args[0]))
                v = peel(args[1])
                r.target = v.get("referencedDecl")
                r.tname = (r.target or {}).get("name")
                r.owner = (v.get("type") or {}).get("qualType", "")
                self.regs.append(r)
            return base
        if base[0] == "class" and self.unit.class_for(self.classes[base[1]]) is None:
            t = (n.get("type") or {}).get("qualType", "")
            if "class_<" in t and template_args(t):
                self.classes[base[1]] = template_args(t)[0]
        if name in ("def", "def_static", "def_rw", "def_ro", "def_prop_rw", "def_prop_ro"):
            self.define(n, base, name, [a for a in args if a.get("kind") != "CXXDefaultArgExpr"])
            return base
        return base if base[0] != "module" else None

    def define(self, n, base, how, args):
        cls = base[1] if base[0] == "class" else None
        first = peel(args[0])
        t = (first.get("type") or {}).get("qualType", "")
        m = re.match(r"(?:const )?(?:nanobind::|nb::)?init<", t)
        if m:
            r = Reg(self.module, cls, "__init__", "init", self.loc(first))
            want = [x for x in template_args(t) if x.strip()]
            self.ctor(r, cls, want)
            extra = args[1:]
        else:
            s = literal(args[0])
            if s is None:
                self.incomplete.append(f"{self.loc(n)}: a definition with a computed name")
                return
            r = Reg(self.module, cls, s, {"def": "method" if cls else "func", "def_static": "static"}.get(how, "field"), self.loc(args[0]))
            r.how = how
            self.target(r, args[1])
            extra = args[2:]
            if how in ("def_prop_rw",):
                extra = args[3:]
        r.params = []
        known = True
        for a in extra:
            p = peel(a)
            q = (p.get("type") or {}).get("qualType", "")
            if p.get("kind") == "CXXOperatorCallExpr" and "arg_v" in q:
                ins = p.get("inner", ())
                nm = literal_in(ins[1])
                r.params.append((nm, True, value(ins[2])))
            elif re.search(r"\barg\b", q):
                r.params.append((literal_in(p), False, None))
            elif re.search(r"\barg_v\b", q):
                known = False
        if not known:
            r.params = None
        self.regs.append(r)

    def ctor(self, r, cls, want):
        c = self.unit.class_for(self.classes.get(cls, ""))
        r.owner = self.classes.get(cls)
        r.types = want
        if not want:
            r.native = []
        if c is None:
            return
        cands = []
        for f in c.ctors:
            d = getattr(f, "decl", f)
            ps = params(d)
            need = [p for p in ps if not p.get("init")]
            if len(need) <= len(want) <= len(ps):
                cands.append((d, ps[:len(want)]))
        if len(cands) > 1:
            exact = [x for x in cands if [canon(tyof(p)) for p in x[1]] == [canon(w) for w in want]]
            cands = exact or cands
        cands = [x for x in cands if not (len(x[1]) == 1 and canon(tyof(x[1][0])) == canon(r.owner or ""))] or cands
        if len(cands) == 1:
            r.target = cands[0][0]
            r.native = [(p.get("name", ""), tyof(p)) for p in cands[0][1]]

    def target(self, r, a):
        p = peel(a)
        if p.get("kind") == "UnaryOperator" and p.get("inner"):
            p = peel(p["inner"][0])
        if p.get("kind") == "LambdaExpr":
            op = next((x for x in (p.get("inner") or [{}])[0].get("inner", ()) if x.get("name") == "operator()"), None)
            if op is None:
                return
            r.lam = p
            r.target = op
            ps = params(op)
            r.ret = ret(op)
            if r.cls and r.kind == "method":
                ps = ps[1:]
            r.native = [(x.get("name", ""), tyof(x)) for x in ps]
            return
        if p.get("kind") == "DeclRefExpr":
            d = p.get("referencedDecl") or {}
            full = self.unit.decls.get(d.get("id"), d)
            r.target, r.tname = full, d.get("name")
            if full.get("kind") in ("CXXMethodDecl", "FunctionDecl"):
                r.native = [(x.get("name", ""), tyof(x)) for x in params(full)]
                r.ret = ret(full)
            r.ref = self.unit.text(p)
            m = re.search(r"\(([\w:<>, ]+)::\*\)", (peel0(a).get("type") or {}).get("qualType", ""))
            r.of = m.group(1) if m else None
        elif p.get("kind") == "MemberExpr":
            r.tname = p.get("name")


def peel0(n):
    """Down to the member pointer expression."""
    while n.get("kind") != "UnaryOperator" and n.get("inner") and "::*)" not in (n.get("type") or {}).get("qualType", ""):
        n = n["inner"][-1]
    return n


def params(d):
    return [x for x in d.get("inner", ()) if x.get("kind") == "ParmVarDecl"]


def ret(d):
    t = (d.get("type") or {}).get("qualType", "")
    depth = 0
    for i, ch in enumerate(t):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0:
            return t[:i].strip()
    return t


def literal(n):
    n = peel(n)
    if n.get("kind") == "StringLiteral":
        v = n.get("value", "")
        return v[1:-1] if v.startswith('"') else v
    return None


def literal_in(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get("kind") == "StringLiteral":
                return literal(x)
            stack.extend(x.get("inner", ()))
    return None


def value(n):
    n = peel(n)
    k = n.get("kind")
    if k in ("IntegerLiteral", "FloatingLiteral"):
        return float(n.get("value"))
    if k == "CXXBoolLiteralExpr":
        return bool(n.get("value"))
    if k == "UnaryOperator" and n.get("opcode") == "-":
        v = value(n["inner"][0])
        return -v if v is not None else None
    return None


def canon(t):
    t = re.sub(r"\b(struct|class|const|typename|volatile)\b", " ", t or "")
    t = re.sub(r"\b\w+::", "", t)
    t = re.sub(r"\s+", " ", t).replace(" ", "")
    return t.replace("&", "")
