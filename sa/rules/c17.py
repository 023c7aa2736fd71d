"""C17: Python calls, type stubs and native bindings agree."""
import ast
import re

from ..common import *
from ..norm import norm, eqv
from ..bindings import Bindings, template_args
from ..interp import Interp

LEVEL = "proof"
TECHNIQUE = "static analysis: cross-checking of the registrations in the clang syntax tree of each binding module against the native signatures, the parsed type stubs and every typed Python call site"
MIN_OBLIGATIONS = 250
EXPLANATION = ("The registrations of each native module are read from the clang syntax tree of its initialiser: names, parameter names, defaults, targets. Each is compared with the signature of the native function it binds "
               "(number, order, element type, target), with the published stub (both directions), and with every Python call site whose callee is that function, class or method (receivers typed by a field- and "
               "annotation-based flow analysis): the call must bind, keywords must be registered names, and an argument that carries a registered parameter's name must sit at that parameter.")
ASSUMPTIONS = ["nanobind binds registered parameter names to native parameters by position"]

INT = {"size_t", "unsigned long", "long", "int", "unsigned int", "int64_t", "uint64_t", "int32_t", "uint32_t", "long long", "unsigned long long", "unsigned", "StorageIndex", "ptrdiff_t", "Index"}
FLT = {"double": "float64", "float": "float32"}


def words(s):
    return [w for w in re.split(r"[_\W]+", s.lower()) if w]


def same_name(a, b):
    return a.lower().strip("_").rstrip("s") == b.lower().strip("_").rstrip("s")


def fits(reg, nat):
    """reg may be the public name of the native parameter nat."""
    if same_name(reg, nat):
        return True
    a, b = [{w.rstrip("s") for w in words(x)} for x in (reg, nat)]
    return bool(a and b and (a <= b or b <= a))


# ---------------------------------------------------------------- types

def cxx_kind(t, b):
    t = re.sub(r"\b(const|struct|class|typename)\b", " ", t or "").replace("&", " ")
    t = re.sub(r"\s+", " ", t).strip()
    t = re.sub(r"\b(std|irspack|ials|evaluation|sparse_util|Eigen|nanobind|irspack_KNN)::", "", t)
    if not t:
        return None
    if t in INT:
        return "int"
    if t in FLT or t == "Real":
        return "float"
    if t == "bool":
        return "bool"
    if t == "void":
        return "None"
    if t in ("string", "basic_string<char>"):
        return "str"
    head, args = t.split("<")[0].strip(), template_args(t) if "<" in t else []
    if head == "SparseMatrix" and args:
        o = args[1].strip() if len(args) > 1 else "0"
        return "csr" if o in ("1", "RowMajor", "Eigen::RowMajor") else "csc" if o in ("0", "ColMajor", "Eigen::ColMajor") else None
    if head == "Matrix" and len(args) >= 3:
        e = FLT.get(args[0].strip(), None)
        if args[1].strip() == "1" or args[2].strip() == "1":
            return None
        return f"nd:{e}"
    if head == "Ref" and args:
        return cxx_kind(args[0], b)
    if head in ("vector", "list", "unordered_set", "set") and args:
        k = cxx_kind(args[0], b)
        return f"seq({k})" if k else None
    if head in ("pair", "tuple"):
        ks = [cxx_kind(x, b) for x in args]
        return None if None in ks else f"tuple({','.join(ks)})"
    if head == "map" and len(args) >= 2:
        ks = [cxx_kind(x, b) for x in args[:2]]
        return None if None in ks else f"dict({','.join(ks)})"
    if head == "variant":
        ks = [cxx_kind(x, b) for x in args]
        return None if None in ks else "|".join(sorted(ks))
    last = t.split("::")[-1]
    for py, nat in list(b.classes.items()) + list(b.enums.items()):
        n = re.sub(r"\b(irspack|ials|evaluation|irspack_KNN)::", "", nat)
        if n == t or ("::" not in n and "<" not in n and n == last):
            return f"class:{py}"
    al = b.unit.aliases.get(head)
    if al and al != t:
        if args:
            al = re.sub(r"\b(Real|ScoreFloatType|Scalar|T|Float)\b", args[0], al)
        elif re.search(r"\bReal\b", al):
            r = b.unit.aliases.get("Real")
            al = re.sub(r"\bReal\b", r, al) if r else al
        return cxx_kind(al, b)
    return None


def stub_kind(e):
    if e is None:
        return None
    if isinstance(e, ast.Constant):
        return "None" if e.value is None else None
    if isinstance(e, ast.Name):
        return {"int": "int", "float": "float", "bool": "bool", "str": "str", "tuple": None, "dict": None, "list": None, "object": None}.get(e.id, f"class:{e.id}")
    if isinstance(e, ast.Attribute):
        return {"csr_matrix": "csr", "csc_matrix": "csc", "csr_array": "csr", "csc_array": "csc"}.get(e.attr)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        ks = [stub_kind(e.left), stub_kind(e.right)]
        return None if None in ks else "|".join(sorted("|".join(ks).split("|")))
    if isinstance(e, ast.Subscript):
        h = e.value.attr if isinstance(e.value, ast.Attribute) else e.value.id if isinstance(e.value, ast.Name) else ""
        sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if h in ("csr_matrix", "csc_matrix"):
            return h[:3]
        if h == "Annotated":
            return stub_kind(sl[0])
        if h == "NDArray":
            d = sl[0].attr if isinstance(sl[0], ast.Attribute) else None
            return f"nd:{d}"
        ks = [stub_kind(x) for x in sl]
        if None in ks:
            return None
        if h in ("Sequence", "list", "List", "Iterable"):
            return f"seq({ks[0]})"
        if h in ("tuple", "Tuple"):
            return f"tuple({','.join(ks)})"
        if h in ("dict", "Dict", "Mapping"):
            return f"dict({','.join(ks)})"
    return None


def agree(a, b):
    """Do two kinds agree?  None when not comparable."""
    if a is None or b is None or "None" in (a[3:] if a.startswith("nd:") else "", b[3:] if b.startswith("nd:") else ""):
        return None
    return a == b


# ---------------------------------------------------------------- registrations against native signatures

def registrations(ctx, b):
    seen = {}
    for r in b.regs:
        ctx.saw(r.qual)
        if r.kind in ("enum", "const"):
            seen.setdefault((r.cls, r.name), []).append(r)
            enumerator(ctx, b, r)
            continue
        seen.setdefault((r.cls, r.name), []).append(r)
        if r.params is None:
            ctx.ob("parameters", r.qual, None, "parameter names are computed")
            continue
        names = [p[0] for p in r.params]
        if r.native is not None and names:
            ctx.ob("parameters", r.qual, len(names) == len(r.native), f"{len(names)} parameter names are registered for {len(r.native)} native parameters", r.loc)
        ctx.ob("parameters", f"{r.qual} distinct", len(set(names)) == len(names), f"a name is registered twice: {names}", r.loc)
        late = [p[0] for i, p in enumerate(r.params) if not p[1] and any(q[1] for q in r.params[:i])]
        ctx.ob("parameters", f"{r.qual} defaults", not late, f"{late} without a default after parameters with one", r.loc)
        if r.native is not None and len(names) == len(r.native):
            nat = [n for n, _ in r.native]
            for i, nm in enumerate(names):
                bad = None
                if nm and not fits(nm, nat[i]):
                    bad = next((j for j, x in enumerate(nat) if j != i and x and fits(nm, x) and not any(same_name(y, x) for y in names if y is not nm)), None)
                    if bad is None:
                        bad = next((j for j, x in enumerate(nat) if j != i and same_name(nm, x)), None)
                ctx.ob("own-position", f"{r.qual} {nm}", bad is None, f"'{nm}' is registered for the native parameter '{nat[i]}' although '{nat[bad] if bad is not None else ''}' is another parameter", r.loc)
            for (nm, has, val), (_, t) in zip(r.params, r.native):
                if has and val is not None:
                    k = cxx_kind(t, b)
                    ok = True
                    if k == "int":
                        ok = not isinstance(val, bool) and float(val) == int(val) and not (val < 0 and "unsigned" in t)
                    elif k == "bool":
                        ok = isinstance(val, bool)
                    elif k == "float":
                        ok = not isinstance(val, bool)
                    ctx.ob("default", f"{r.qual} {nm}", ok, f"the default {val} does not fit {t}", r.loc)
        target(ctx, b, r)
    for (c, n), rs in seen.items():
        if len(rs) > 1 and rs[0].kind not in ("init",):
            sigs = [tuple(t for _, t in (r.native or ())) for r in rs]
            ctx.ob("parameters", f"{rs[0].qual} once", None if len(set(sigs)) == len(sigs) and rs[0].kind in ("method", "func") else False, "registered twice", rs[-1].loc)


def siblings(b, r):
    """Names of the native declarations a registration could have meant."""
    if r.cls:
        c = b.unit.class_for(b.classes.get(r.cls, ""))
        if c is None:
            return set()
        out = set(c.fields)
        stack, done = [c], set()
        while stack:
            x = stack.pop()
            if id(x) in done:
                continue
            done.add(id(x))
            out |= set(x.fields) | {(getattr(f, "decl", f) or {}).get("name") for f in x.methods}
            for y in x.bases:
                k = b.unit.class_for(y)
                if k is not None:
                    stack.append(k)
        return out
    return {f.decl.get("name") for f in b.unit.fns.values()}


def lineage(b, c):
    out, stack = [], [c]
    while stack:
        x = stack.pop()
        if x is None or any(x is y for y in out):
            continue
        out.append(x)
        stack.extend(b.unit.class_for(y) for y in x.bases)
    return out


def target(ctx, b, r):
    if r.kind == "init" or r.tname is None:
        return
    of = getattr(r, "of", None)
    if of and r.cls:
        c, d = b.unit.class_for(b.classes.get(r.cls, "")), b.unit.class_for(of)
        if c is not None and d is not None:
            ctx.ob("own-target", f"{r.qual} class", any(d is x for x in lineage(b, c)), f"bound to a member of {of}, which is no base of {b.classes[r.cls]}", r.loc)
    names = siblings(b, r)
    ok = r.tname == r.name or r.name not in names
    why = f"'{r.name}' is bound to {r.tname}"
    if ok and r.tname != r.name:
        # another registered name is the target's own name
        if any(q.name == r.tname and q is not r and q.cls == r.cls and q.kind == r.kind for q in b.regs):
            ok = False
    ctx.ob("own-target", r.qual, ok, why, r.loc)
    if r.kind == "field":
        return
    # element type in the name
    m = re.search(r"_f(32|64)$", r.name)
    if m and r.native:
        ks = [cxx_kind(t, b) for _, t in r.native]
        nd = [k for k in ks if k and k.startswith("nd:")]
        if nd and "None" not in nd[0]:
            ctx.ob("element-type", r.qual, nd[0] == f"nd:float{m.group(1)}", f"'{r.name}' takes {nd[0][3:]} arrays", r.loc)
    # boolean template switch in the name
    d = r.target or {}
    ref = getattr(r, "ref", "") or ""
    args = template_args(ref) if "<" in ref else []
    for a in args:
        if a.strip() in ("true", "false"):
            same = [q for q in b.regs if q.tname == r.tname and q is not r and q.cls == r.cls]
            pn = bool_param(b, r)
            if pn and same:
                hit = pn in r.name
                if hit or any(pn in q.name for q in same):
                    ctx.ob("own-target", f"{r.qual} switch", (a.strip() == "true") == hit, f"'{r.name}' is bound to {ref}", r.loc)


def bool_param(b, r):
    """The name of the boolean template parameter of the bound function, from its source text."""
    d = r.target or {}
    f = d.get("_file") or ((d.get("loc") or {}).get("_file"))
    try:
        src = open(f, encoding="utf8", errors="replace").read().split("\n") if f else []
    except OSError:
        return None
    ln = d.get("_line") or 0
    txt = "\n".join(src[max(0, ln - 4):ln])
    m = re.findall(r"template\s*<([^>]*)>", txt)
    if m:
        x = re.search(r"\bbool\s+(\w+)", m[-1])
        if x:
            return x.group(1)
    return None


def enumerator(ctx, b, r):
    if r.tname is None:
        ctx.ob("own-target", r.qual, None, "not an enumerator")
        return
    ty = (r.owner or "").split("::")[-1]
    consts = [n for t, n in b.unit.enums.values() if t == ty]
    ok = r.name.lower() == r.tname.lower() or r.name.lower() not in [c.lower() for c in consts]
    ctx.ob("own-target", r.qual, ok, f"'{r.name}' is {r.owner}::{r.tname}", r.loc)


# ---------------------------------------------------------------- stubs

def stub_of(ctx, b):
    for m in ctx.proj.modules.values():
        if m.is_stub and m.name.split(".")[-1] == b.module:
            return m
    return None


def sig(node, method):
    a = node.args
    ps = a.posonlyargs + a.args
    if method and ps:
        ps = ps[1:]
    nd = len(a.defaults)
    out = []
    alln = a.posonlyargs + a.args
    off = len(alln) - nd
    pos_only = {x.arg for x in a.posonlyargs}
    for x in ps:
        i = alln.index(x)
        d = a.defaults[i - off] if i >= off else None
        out.append((x.arg, d, x.annotation, x.arg in pos_only))
    return out


def is_overload(n):
    return any((isinstance(d, ast.Name) and d.id == "overload") or (isinstance(d, ast.Attribute) and d.attr == "overload") for d in n.decorator_list)


def stubs(ctx, b):
    m = stub_of(ctx, b)
    if m is None:
        ctx.ob("stub", b.module, False, "no stub is published for this native module", b.module)
        return
    ctx.saw(m.name)
    rel = m.rel
    funcs, classes, consts = {}, {}, {}
    for s in m.tree.body:
        if isinstance(s, ast.FunctionDef):
            funcs.setdefault(s.name, []).append(s)
        elif isinstance(s, ast.ClassDef):
            classes[s.name] = s
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            consts[s.target.id] = s
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    consts[t.id] = s
    whole = not b.incomplete
    regf = {}
    for r in b.regs:
        if r.cls is None and r.kind == "func":
            regf.setdefault(r.name, []).append(r)
    for n in funcs:
        ctx.ob("stub", f"{b.module}.{n}", True if n in regf else (False if whole else None), "the stub lists a function the module does not register", f"{rel}:{funcs[n][0].lineno}")
    for n, rs in regf.items():
        if n not in funcs:
            ctx.ob("stub", f"{b.module}.{n}", False, "registered but missing from the stub", rs[0].loc)
            continue
        overloads(ctx, b, rel, f"{b.module}.{n}", funcs[n], rs, False)
    for n in list(b.classes) + list(b.enums):
        if n not in classes and not n.startswith("?"):
            ctx.ob("stub", f"{b.module}.{n}", False, "registered but missing from the stub", b.module)
    for n, c in classes.items():
        if n not in b.classes and n not in b.enums:
            ctx.ob("stub", f"{b.module}.{n}", False if whole else None, "the stub lists a class the module does not register", f"{rel}:{c.lineno}")
            continue
        body = {}
        vals = {}
        for s in c.body:
            if isinstance(s, ast.FunctionDef):
                body.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        vals[t.id] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                vals[s.target.id] = s
        if n in b.enums:
            reg = [r for r in b.regs if r.cls == n and r.kind == "enum"]
            for r in reg:
                ok = r.name in vals
                why = "registered but missing from the stub"
                if ok and isinstance(vals[r.name], ast.Assign) and isinstance(vals[r.name].value, ast.Constant):
                    v = number(b, r)
                    if v is not None and v != vals[r.name].value.value:
                        ok, why = False, f"the stub says {vals[r.name].value.value}, the native value is {v}"
                ctx.ob("stub", r.qual, ok, why, r.loc)
            for v in vals:
                if v not in [r.name for r in reg]:
                    ctx.ob("stub", f"{b.module}.{n}.{v}", False if whole else None, "not registered", f"{rel}:{vals[v].lineno}")
            continue
        regm = {}
        for r in b.regs:
            if r.cls == n:
                regm.setdefault(r.name, []).append(r)
        for nm in list(body) + list(vals):
            ctx.ob("stub", f"{b.module}.{n}.{nm}", True if nm in regm else (False if whole else None), "the stub lists a member the module does not register",
                   f"{rel}:{(body[nm][0] if nm in body else vals[nm]).lineno}")
        for nm, rs in regm.items():
            if nm not in body and nm not in vals:
                ctx.ob("stub", f"{b.module}.{n}.{nm}", False, "registered but missing from the stub", rs[0].loc)
                continue
            if rs[0].kind == "field":
                if nm in body:
                    setter = any(isinstance(d, ast.Attribute) and d.attr == "setter" for x in body[nm] for d in x.decorator_list)
                    ctx.ob("stub", f"{b.module}.{n}.{nm} writable", setter == (getattr(rs[0], "how", "") in ("def_rw", "def_prop_rw")), "stub and registration disagree on whether it can be assigned", rs[0].loc)
                continue
            overloads(ctx, b, rel, f"{b.module}.{n}.{nm}", body.get(nm, []), rs, True)
    regc = {r.name: r for r in b.regs if r.kind == "const"}
    for n, r in regc.items():
        ctx.ob("stub", f"{b.module}.{n}", n in consts, "registered but missing from the stub", r.loc)
    for n in consts:
        if n not in regc:
            ctx.ob("stub", f"{b.module}.{n}", False if whole else None, "the stub lists a constant the module does not register", f"{rel}:{consts[n].lineno}")


def number(b, r):
    """The numeric value of an enumerator: its position when none is written."""
    d = r.target or {}
    e = b.unit.enumdecls.get((r.owner or "").split("::")[-1]) or {}
    v = -1
    for c in e.get("inner", ()):
        if c.get("kind") != "EnumConstantDecl":
            continue
        v += 1
        if c.get("inner"):
            lit = [x for x in walk_json(c) if x.get("kind") in ("ConstantExpr", "IntegerLiteral") and x.get("value") is not None]
            if not lit:
                return None
            v = int(lit[0]["value"])
        if c.get("id") == d.get("id"):
            return v
    return None


def walk_json(n):
    yield n
    for c in n.get("inner", ()):
        if isinstance(c, dict):
            yield from walk_json(c)


def overloads(ctx, b, rel, qual, nodes, rs, method):
    if not nodes:
        return
    if len(nodes) != len(rs):
        ctx.ob("stub-signature", qual, False, f"{len(rs)} registered overloads, {len(nodes)} in the stub", f"{rel}:{nodes[0].lineno}")
        return
    for node, r in zip(nodes, rs):
        loc = f"{rel}:{node.lineno}"
        st = sig(node, method and r.kind != "static")
        if r.params is None:
            ctx.ob("stub-signature", qual, None, "computed parameter names")
            continue
        if not r.params:
            n = len(r.native) if r.native is not None else None
            ok = None if n is None else n == len(st) and (n == 0 or all(x[3] or x[0].startswith("arg") for x in st))
            ctx.ob("stub-signature", qual, ok, f"{n} unnamed native parameters, stub has {[x[0] for x in st]}", loc)
        else:
            ctx.ob("stub-signature", qual, [x[0] for x in st] == [p[0] for p in r.params], f"registered ({', '.join(p[0] or '?' for p in r.params)}), stub ({', '.join(x[0] for x in st)})", loc)
            for (pn, has, val), x in zip(r.params, st):
                if pn != x[0]:
                    continue
                sv = const_of(x[1])
                ok = has == (x[1] is not None)
                if ok and has and val is not None and sv is not None:
                    ok = float(val) == float(sv) and isinstance(val, bool) == isinstance(sv, bool)
                ctx.ob("stub-default", f"{qual} {pn}", ok, f"registered default {val if has else 'none'}, stub {ast.unparse(x[1]) if x[1] is not None else 'none'}", loc)
        if r.native is not None and len(r.native) == len(st):
            for (nn, t), x in zip(r.native, st):
                ok = agree(cxx_kind(t, b), stub_kind(x[2]))
                if ok is not None:
                    ctx.ob("stub-type", f"{qual} {x[0]}", ok, f"native {t} is published as {ast.unparse(x[2])}", loc)
        if r.ret is not None:
            ok = agree(cxx_kind(r.ret, b), stub_kind(node.returns))
            if ok is not None:
                ctx.ob("stub-type", f"{qual} result", ok, f"native {r.ret} is published as {ast.unparse(node.returns)}", loc)


def const_of(e):
    if e is None:
        return None
    try:
        return ast.literal_eval(e)
    except (ValueError, SyntaxError):
        return None


# ---------------------------------------------------------------- Python call sites

class Typer:
    """Which expressions hold native objects: imports, constructors, annotations, fields by name."""

    def __init__(self, ctx, B):
        self.ctx, self.B = ctx, B
        self.native = {}           # qualified stub name -> (bindings, python name)
        for b in B.values():
            m = stub_of(ctx, b)
            if m is not None:
                self.native[m.name] = b
        self.mods = [m for m in ctx.proj.modules.values() if not m.is_stub]
        self.fields = {}           # attribute name -> set of types
        self.pymethods = {f for m in self.mods for c in m.classes.values() for f in c.methods}
        for _ in range(3):
            before = {k: set(v) for k, v in self.fields.items()}
            for m in self.mods:
                self.collect(m)
            if before == self.fields:
                break
        self.mixed = set()         # attribute names that also hold other things
        for m in self.mods:
            self.others(m)

    def others(self, m):
        for fn, cls in functions(m):
            env = None
            for s in ast.walk(fn):
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(t, ast.Attribute) and t.attr in self.fields:
                            if env is None:
                                env = self.env(m, fn, cls)
                            none = isinstance(s.value, ast.Constant) and s.value.value is None
                            if not none and not self.types(m, s.value, env):
                                self.mixed.add(t.attr)
            if cls is not None and fn.name in self.fields and not self.ann(m, fn.returns):
                self.mixed.add(fn.name)

    def split(self, dotted):
        """(bindings, name, member) of a dotted name inside a native module."""
        if not dotted:
            return None
        for mod, b in self.native.items():
            if dotted.startswith(mod + "."):
                rest = dotted[len(mod) + 1:].split(".")
                return b, rest
        return None

    def ann(self, m, e):
        """Native classes named by an annotation ('list' prefix for sequences)."""
        out = set()
        if e is None:
            return out
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return out
        if isinstance(e, (ast.Name, ast.Attribute)):
            s = self.split(m.dotted(e))
            if s and len(s[1]) == 1 and s[1][0] in s[0].classes:
                out.add((s[0].module, s[1][0]))
            return out
        if isinstance(e, ast.Subscript):
            h = e.value.attr if isinstance(e.value, ast.Attribute) else getattr(e.value, "id", "")
            sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            inner = set().union(*[self.ann(m, x) for x in sl]) if sl else set()
            if h in ("Optional", "Union", "Annotated", "ClassVar", "Final"):
                return inner
            if h in ("List", "list", "Sequence", "Iterable", "Tuple", "tuple", "Iterator"):
                return {("seq",) + x for x in inner if x[0] != "seq"}
            if h in ("Type", "type", "Callable"):
                return set()
            return out
        if isinstance(e, ast.BinOp):
            return self.ann(m, e.left) | self.ann(m, e.right)
        return out

    def collect(self, m):
        for fn, cls in functions(m):
            env = self.env(m, fn, cls)
            for s in ast.walk(fn):
                if isinstance(s, ast.Assign):
                    ts = self.types(m, s.value, env)
                    for t in s.targets:
                        if isinstance(t, ast.Attribute) and ts:
                            self.fields.setdefault(t.attr, set()).update(ts)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute):
                    ts = self.ann(m, s.annotation) | (self.types(m, s.value, env) if s.value is not None else set())
                    if ts:
                        self.fields.setdefault(s.target.attr, set()).update(ts)
        for c in m.classes.values():
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    ts = self.ann(m, s.annotation)
                    if ts:
                        self.fields.setdefault(s.target.id, set()).update(ts)
                elif isinstance(s, ast.FunctionDef) and any(getattr(d, "id", "") == "property" for d in s.decorator_list):
                    ts = self.ann(m, s.returns)
                    if ts:
                        self.fields.setdefault(s.name, set()).update(ts)

    def env(self, m, fn, cls):
        env = {}
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            ts = self.ann(m, x.annotation)
            if ts:
                env[x.arg] = set(ts)
        for _ in range(2):
            for s in ast.walk(fn):
                if isinstance(s, ast.Assign) or isinstance(s, ast.NamedExpr):
                    ts = self.types(m, s.value, env)
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in tg:
                        if isinstance(t, ast.Name) and ts:
                            env.setdefault(t.id, set()).update(ts)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    ts = self.ann(m, s.annotation) | (self.types(m, s.value, env) if s.value is not None else set())
                    if ts:
                        env.setdefault(s.target.id, set()).update(ts)
                elif isinstance(s, (ast.For, ast.comprehension)):
                    ts = self.elems(m, s.iter, env)
                    if isinstance(s.target, ast.Name) and ts:
                        env.setdefault(s.target.id, set()).update(ts)
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "append" and isinstance(s.func.value, ast.Name) and s.args:
                    ts = {("seq",) + t for t in self.types(m, s.args[0], env) if t[0] != "seq"}
                    if ts:
                        env.setdefault(s.func.value.id, set()).update(ts)
        return env

    def elems(self, m, e, env):
        return {t[1:] for t in self.types(m, e, env) if t[0] == "seq"}

    def types(self, m, e, env):
        if isinstance(e, ast.Name):
            return set(env.get(e.id, ()))
        if isinstance(e, ast.Attribute):
            return set(self.fields.get(e.attr, ()))
        if isinstance(e, ast.Subscript):
            return {t[1:] for t in self.types(m, e.value, env) if t[0] == "seq"}
        if isinstance(e, (ast.List, ast.Tuple)):
            return {("seq",) + t for x in e.elts for t in self.types(m, x, env) if t[0] != "seq"}
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return {("seq",) + t for t in self.types(m, e.elt, env) if t[0] != "seq"}
        if isinstance(e, ast.IfExp):
            return self.types(m, e.body, env) | self.types(m, e.orelse, env)
        if isinstance(e, ast.Await):
            return self.types(m, e.value, env)
        if isinstance(e, ast.Call):
            s = self.split(m.dotted(e.func)) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if s:
                b, rest = s
                if len(rest) == 1 and rest[0] in b.classes:
                    return {(b.module, rest[0])}
                if len(rest) == 1:
                    return self.result(b, None, rest[0])
                return set()
            if isinstance(e.func, ast.Attribute):
                out = set()
                for t in self.types(m, e.func.value, env):
                    if t[0] != "seq":
                        out |= self.result(self.B[t[0]], t[1], e.func.attr)
                if out:
                    return out
                # a Python method with an annotated result
                for c in self.ctx.proj.all_classes():
                    f = c.methods.get(e.func.attr)
                    if f is not None and not c.module.is_stub and f.node.returns is not None:
                        out |= self.ann(c.module, f.node.returns)
                return out
            if isinstance(e.func, ast.Name):
                d = m.dotted(e.func)
                f = self.ctx.proj.find_func(d) if d and "." in d else None
                if f is not None and f.node.returns is not None:
                    return self.ann(f.module, f.node.returns)
        return set()

    def result(self, b, cls, name):
        out = set()
        for r in b.regs:
            if r.cls == cls and r.name == name and r.ret:
                k = cxx_kind(r.ret, b)
                if k and k.startswith("class:") and k[6:] in b.classes:
                    out.add((b.module, k[6:]))
                elif cls and re.fullmatch(r"(\w+::)*Builder ?&", r.ret.strip()):
                    out.add((b.module, cls))
        return out


def functions(m):
    """Every function of a module with its class, outermost first."""
    out = []

    def rec(node, cls):
        for s in ast.iter_child_nodes(node):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((s, cls))
            elif isinstance(s, ast.ClassDef):
                rec(s, s)
            elif not isinstance(s, ast.expr):
                rec(s, cls)
    rec(m.tree, None)
    return out


def bind(call, r):
    """(error text or None, [(param index, argument expression)])"""
    names = [p[0] for p in r.params] if r.params else None
    n = len(r.params) if r.params else len(r.native or ())
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None, []
    if len(call.args) > n:
        return f"{len(call.args)} positional arguments for {n} parameters", []
    got = {i: a for i, a in enumerate(call.args)}
    for k in call.keywords:
        if names is None:
            return f"keyword '{k.arg}' although no parameter names are registered", []
        if k.arg not in names:
            return f"no parameter named '{k.arg}' is registered", []
        i = names.index(k.arg)
        if i in got:
            return f"'{k.arg}' is given twice", []
        got[i] = k.value
    if r.params:
        miss = [p[0] for i, p in enumerate(r.params) if i not in got and not p[1]]
    else:
        miss = [f"argument {i}" for i in range(n) if i not in got]
    if miss:
        return f"missing {', '.join(str(x) for x in miss)}", []
    return None, sorted(got.items())


def arg_name(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return None


def check_call(ctx, where, loc, call, cands, what):
    errs, best = [], None
    for r in cands:
        if r.params is None:
            ctx.ob("call", where, None, "computed parameter names")
            return
        er, got = bind(call, r)
        if er is None:
            best = (r, got)
            break
        errs.append(er)
    if best is None:
        ctx.ob("call", where, False, f"{what}: {'; '.join(errs)}", loc)
        return
    r, got = best
    ctx.ob("call", where, True, "", loc)
    if not r.params:
        return
    names = [p[0] for p in r.params]
    for i, e in got:
        a = arg_name(e)
        if a is None:
            continue
        j = next((j for j, n in enumerate(names) if j != i and same_name(a, n)), None)
        bad = j is not None and not same_name(a, names[i]) and not fits(a, names[i])
        if bad:
            # only a swap: the parameter of that name gets something else
            other = dict(got).get(j)
            bad = other is None or arg_name(other) is None or not same_name(arg_name(other), names[j])
        ctx.ob("argument-order", f"{where} {names[i]}", not bad, f"'{a}' is passed as '{names[i]}'", loc)


def calls(ctx, B):
    T_ = Typer(ctx, B)
    members = {}
    for b in B.values():
        for r in b.regs:
            if r.cls and r.kind in ("method", "static", "field"):
                members.setdefault(r.name, set()).add((b.module, r.cls))
    total = 0
    for m in T_.mods:
        # imported names exist
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                base = m._from(s)
                if base in T_.native:
                    b = T_.native[base]
                    for al in s.names:
                        if al.name == "*":
                            continue
                        ok = any(r.cls is None and r.name == al.name for r in b.regs) or al.name in b.classes or al.name in b.enums
                        ctx.ob("registered", f"{m.name} imports {b.module}.{al.name}", ok or (None if b.incomplete else False), "the native module does not register this name", f"{m.rel}:{s.lineno}")
        for fn, cls in functions(m):
            env = None
            where0 = f"{m.name}.{cls.name + '.' if cls else ''}{fn.name}"
            for s in ast.walk(fn):
                if isinstance(s, ast.Attribute):
                    sp = T_.split(m.dotted(s))
                    if sp and len(sp[1]) == 2 and sp[1][0] in sp[0].enums:
                        b = sp[0]
                        names = [r.name for r in b.regs if r.cls == sp[1][0]]
                        ctx.ob("registered", f"{where0} {'.'.join(sp[1])}", True if sp[1][1] in names or sp[1][1] in ("name", "value", "__members__") else False, "no such enumerator is registered", f"{m.rel}:{s.lineno}")
                        continue
                    if sp is not None:
                        continue
                    if env is None:
                        env = T_.env(m, fn, cls)
                    ts = {t for t in T_.types(m, s.value, env) if t[0] != "seq"}
                    for b_, c in ts:
                        b = B[b_]
                        ok = any(r.cls == c and r.name == s.attr for r in b.regs) or s.attr.startswith("__")
                        if not ok and any(any(r.cls == c2 and r.name == s.attr for r in B[b2].regs) for b2, c2 in ts) and len(ts) > 1 and isinstance(s.value, ast.Attribute):
                            continue          # fields merged by name
                        if not ok and isinstance(s.value, ast.Attribute) and s.value.attr in T_.mixed:
                            continue
                        ctx.ob("registered", f"{where0} {c}.{s.attr}", ok or (None if b.incomplete else False), f"{c} registers no '{s.attr}'", f"{m.rel}:{s.lineno}")
                if not isinstance(s, ast.Call):
                    continue
                loc = f"{m.rel}:{s.lineno}"
                sp = T_.split(m.dotted(s.func)) if isinstance(s.func, (ast.Name, ast.Attribute)) else None
                if sp:
                    b, rest = sp
                    if len(rest) == 1 and rest[0] in b.classes:
                        rs = [r for r in b.regs if r.cls == rest[0] and r.kind == "init"]
                    elif len(rest) == 1:
                        rs = [r for r in b.regs if r.cls is None and r.name == rest[0] and r.kind == "func"]
                    else:
                        continue
                    if not rs:
                        ctx.ob("registered", f"{where0} -> {'.'.join(rest)}", None if b.incomplete else False, f"{b.module} registers no callable '{'.'.join(rest)}'", loc)
                        continue
                    total += 1
                    check_call(ctx, f"{where0} -> {'.'.join(rest)}", loc, s, rs, f"{'.'.join(rest)}")
                elif isinstance(s.func, ast.Attribute):
                    if env is None:
                        env = T_.env(m, fn, cls)
                    ts = {t for t in T_.types(m, s.func.value, env) if t[0] != "seq"}
                    if not ts and s.func.attr in members and s.func.attr not in T_.pymethods and len(s.func.attr) > 6:
                        ts = set(members[s.func.attr])
                        ts = set(list(ts)[:1]) if len({tuple(map(str, (r.params for r in B[x].regs if r.cls == c and r.name == s.func.attr))) for x, c in ts}) == 1 else set()
                    for b_, c in sorted(ts):
                        rs = [r for r in B[b_].regs if r.cls == c and r.name == s.func.attr and r.kind in ("method", "static")]
                        if rs:
                            total += 1
                            check_call(ctx, f"{where0} -> {c}.{s.func.attr}", loc, s, rs, f"{c}.{s.func.attr}")
            # getattr(Enum, text.upper())
            for s in ast.walk(fn):
                if isinstance(s, ast.Call) and getattr(s.func, "id", "") == "getattr" and len(s.args) >= 2:
                    sp = T_.split(m.dotted(s.args[0])) if isinstance(s.args[0], (ast.Name, ast.Attribute)) else None
                    if sp and len(sp[1]) == 1 and sp[1][0] in sp[0].enums:
                        e = s.args[1]
                        how = e.func.attr if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else None
                        names = [r.name for r in sp[0].regs if r.cls == sp[1][0]]
                        if how in ("upper", "lower"):
                            bad = [n for n in names if getattr(n, how)() != n]
                            ctx.ob("registered", f"{where0} getattr({sp[1][0]})", not bad, f"{bad} cannot be looked up by {how}-cased text", f"{m.rel}:{s.lineno}")
    ctx.ob("call-sites", "python", True if total >= 20 else None, f"{total} native call sites")
    return total


# ---------------------------------------------------------------- element types at dispatching calls

def dispatch(ctx, B):
    """Calls to an element-typed binding happen where the array has that element type."""
    names = {}
    for b in B.values():
        for r in b.regs:
            if r.kind in ("method", "func") and r.native:
                ks = [cxx_kind(t, b) for _, t in r.native]
                nd = [(i, k[3:]) for i, k in enumerate(ks) if k in ("nd:float32", "nd:float64")]
                if nd and re.search(r"_f(32|64)$", r.name):
                    names[r.name] = (nd[0][0], r.params[nd[0][0]][0] if r.params else None, nd[0][1])
    for m in ctx.proj.modules.values():
        if m.is_stub:
            continue
        for f in list(m.funcs.values()) + [g for c in m.classes.values() for g in c.methods.values()]:
            used = {getattr(x, "id", getattr(x, "attr", "")) for x in ast.walk(f.node) if isinstance(x, (ast.Name, ast.Attribute))}
            if not used & set(names):
                continue
            ctx.guard(dispatch_in, ctx, f, names)


def dtype_of(x):
    if x.op == "ext":
        return x.a[0].split(".")[-1]
    if x.op == "const":
        return str(x.a[0])
    if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].endswith("dtype") and x.a[1]:
        return dtype_of(x.a[1][0])
    return None


def dispatch_in(ctx, f, names):
    I = Interp(ctx.proj)
    try:
        st = None
        I, st, v = analyse(ctx, f, cls=f.cls, interp=I)
    except Unreachable:
        return
    for e in I.effects:
        if e.kind != "call":
            continue
        fn = e.d.get("fn")
        if not isinstance(fn, T):
            continue
        for cs, g in leaves(fn):
            n = g.a[1] if g.op == "attr" else str(getattr(g.a[0], "name", g.a[0])).split(".")[-1].rstrip(">") if g.op in ("fn", "ext") else None
            if n not in names:
                continue
            i, pname, want = names[n]
            args, kw = e.d.get("args") or (), dict(e.d.get("kwargs") or {})
            a = args[i] if i < len(args) else kw.get(pname)
            if a is None:
                continue
            a = strip(a)
            known = None
            if a.op in ("conv", "astype"):
                known = next((dtype_of(y) for y in a.a if isinstance(y, T) and dtype_of(y) in ("float32", "float64")), None)
            for c in [strip(c) for c in e.path] + list(cs):
                if c.op == "eq":
                    d = next((y for y in map(dtype_of, c.a) if y in ("float32", "float64")), None)
                    if d and any(y.op == "attr" and y.a[1] == "dtype" or y.op == "dtype" for y in walk(c)):
                        known = d
                elif c.op == "not" and c.a[0].op == "eq" and known is None:
                    d = next((y for y in map(dtype_of, c.a[0].a) if y in ("float32", "float64")), None)
                    if d == want:
                        known = f"not {d}"
            ctx.ob("dispatch", f"{f.qual} -> {n}", None if known is None else known == want, f"'{n}' takes {want} but the array is {known} here", e.loc)


def check(ctx):
    N = ctx.native()
    B = {}
    for m, u in N.units.items():
        B[m] = Bindings(u)
        for x in B[m].incomplete:
            ctx.ob("readable", m, None, x)
    for b in B.values():
        ctx.guard(registrations, ctx, b)
        ctx.guard(stubs, ctx, b)
    ctx.guard(calls, ctx, B)
    ctx.guard(dispatch, ctx, B)
