"""C05 on the native side: the pickling hooks of every bound class compose to the identity on its fields."""
import ast
import re

from ..common import *
from ..norm import norm
from ..native import NativeInterp
from ..cxx import template_args, norm_type, tyof
from ..entries import bindings, entries, lambda_func

OBJ, NEW = sym("obj"), sym("new")
INTS = re.compile(r"^(unsigned|signed|int|long|short|char|size_t|std::size_t|u?int\d+_t|std::u?int\d+_t|bool|unsigned .*|long .*)$")
REALS = ("float", "double", "long double")


def func_of(N, m, b, r):
    if r.lam:
        return lambda_func(N, m, r)
    e = next((e for e in entries(N) if e.reg is r), None)
    return e.func if e is not None else None


class State_:
    def __init__(self, ctx, N, m, b, cls, g, s):
        self.ctx, self.N, self.m, self.b, self.cls = ctx, N, m, b, cls
        self.u, self.mod = N.units[m], N.mods[m]
        self.k = self.u.class_for(b.classes.get(cls, ""))
        self.K = self.mod.classes.get(self.k.pyname) if self.k is not None else None
        self.gr, self.sr = g, s
        self.g, self.s = func_of(N, m, b, g), func_of(N, m, b, s)

    def ob(self, rule, ok, detail="", tag=""):
        self.ctx.ob(rule, f"{self.m}.{self.cls}{tag}", ok, detail, self.sr.loc)

    def interp(self):
        I = NativeInterp(self.N.proj)
        I.types[OBJ] = self.K
        return I

    def call(self, f, vals):
        I = self.interp()
        ps = f.params()
        selfterm = None
        args = dict(zip(ps, vals))
        if f.cls is not None and not f.is_static:
            selfterm = vals[0]
            args.pop(ps[0], None)
        return self.N.run(f, f.cls, args=args, interp=I, selfterm=selfterm)

    def run(self):
        if self.K is None or self.g is None or self.s is None or len(self.s.params()) < 2:
            self.ob("native-state-inverse", None, "the hooks could not be read")
            return
        I, st, v = self.call(self.g, [OBJ])
        if v is None or v.op != "tuple":
            self.ob("native-state-inverse", None, f"the written state is {short(v, 60) if v is not None else 'nothing'}")
            return
        self.written = v.a[0]
        self.arity(st)
        I2, st2, _ = self.call(self.s, [NEW, v])
        tgt = NEW
        if any(e.kind == "raise" and not e.path for e in I2.effects):
            self.ob("native-state-accepted", False, "loading refuses the state that saving wrote")
            return
        self.ob("native-state-accepted", True)
        self.after = {k[2]: x for k, x in st2.heap.items() if k[0] == "a" and k[1] is tgt}
        if not self.after:
            self.ob("native-state-inverse", None, "what loading builds could not be read")
            return
        self.st2 = st2
        self.via = {I2.cls_of(e.value).name for e in I2.effects if e.kind == "placement" and I2.cls_of(e.value) is not None}
        self.ctors()
        self.lost = []
        for F in self.k.fields:
            self.field(F)
        self.uses()

    def arity(self, st):
        want = next((t for _, t in self.sr.native), "")
        ta = template_args(norm_type(want).replace("&", "").strip()) if "tuple<" in want else None
        if not ta:
            return
        self.ob("native-state-arity", len(ta) == len(self.written), f"{len(self.written)} components are written, {len(ta)} are read")
        if len(ta) != len(self.written):
            return
        for i, (t, w) in enumerate(zip(ta, self.written)):
            w = strip(w)
            d = self.k.fields.get(w.a[1]) if w.op == "attr" and w.a[0] is OBJ else None
            if d is None:
                continue
            a, c = self.canon(tyof(d)), self.canon(t)
            ok = True
            if a in REALS and INTS.match(c) or a == "double" and c == "float":
                ok = False
            elif a in REALS and c not in REALS:
                ok = None
            elif INTS.match(a) and width(c) is not None and width(a) is not None and (width(c) < width(a) or c in REALS and width(a) > 4):
                ok = False
            self.ob("native-state-types", ok, f"field {w.a[1]} of type {a} is read back as {c}", f" {w.a[1]}")

    def canon(self, t):
        t = norm_type(t).replace("const", "").replace("&", "").strip()
        for _ in range(4):
            n = self.u.scalars.get(t.split("::")[-1])
            if n is None or n == t:
                break
            t = n.strip()
        return t

    # ------------------------------------------------------------------
    def ctors(self):
        """Field values of each constructor, in terms of its parameters."""
        self.made = []
        for nm, c in self.mod.classes.items():
            if nm != self.k.pyname and not re.fullmatch(re.escape(self.k.pyname) + r"__c\d+", nm):
                continue
            f = c.methods.get("__init__")
            if f is None:
                continue
            I = NativeInterp(self.N.proj)
            o = sym("made")
            _, st, _ = self.N.run(f, c, interp=I, selfterm=o)
            self.made.append((c.name, {k[2]: full(x, st) for k, x in st.heap.items() if k[0] == "a" and k[1] is o}))

    def sources(self, t, root=OBJ):
        return {x.a[1] for x in walk(t) if x.op == "attr" and x.a[0] is root}

    def same_object(self, t, want):
        """A freshly copied object whose every field is the field of want."""
        if t.op != "new":
            return None
        fs = {k[2]: strip(x) for k, x in self.st2.heap.items() if k[0] == "a" and k[1] is t}
        if not fs:
            return None
        bad = [n for n, x in fs.items() if x is not mk("attr", want, n)]
        return not bad, bad

    def field(self, F):
        want = mk("attr", OBJ, F)
        v = self.after.get(F)
        if v is None:
            self.lost.append(F)
            return
        x = strip(self.deep(v))
        if x is want:
            self.ob("native-state-inverse", True, tag=f".{F}")
            return
        so = self.same_object(v, want)
        if so is not None:
            src = {y.a[1] for k, z in self.st2.heap.items() if k[0] == "a" and k[1] is v for y in walk(z) if y.op == "attr" and y.a[0] is OBJ}
            if so[0]:
                self.ob("native-state-inverse", True, tag=f".{F}")
            elif F in src:
                self.ob("native-state-inverse", None, f"{so[1]}", f".{F}")
            return
        src = self.sources(x)
        if not src:
            self.lost.append(F)
            return
        if src == {F}:
            arith = x.op in ("lin", "mul", "div", "floordiv", "mod", "pow", "neg", "not", "const", "T", "call") and not any(y.op in ("mu", "loopout", "algo") for y in walk(x))
            self.ob("native-state-inverse", False if arith else None if x.op == "unk" else True, f"restored as {short(x, 60)}", f".{F}")
            return
        if x.op == "attr" and x.a[0] is OBJ:
            self.ob("native-state-inverse", False, f"receives the saved {x.a[1]}", f".{F}")
            return
        self.derived(F, x)

    def deep(self, t):
        c = self.st2.heap.get(("c", t))
        return c if c is not None and t.op == "new" else t

    def derived(self, F, x):
        """The same quantity as the one construction gives, for some constructor."""
        verdicts = []
        for f, fs in self.made:
            if f in self.via and len(self.made) > 1 or F not in fs or self.sources(strip(fs[F]), sym("made")):
                continue
            m = {mk("attr", OBJ, G): y for G, y in fs.items()}
            if not all(mk("attr", OBJ, G) in m for G in self.sources(x)):
                continue
            y = self.shape(x, fs)
            z = strip(fs[F])
            if y is None:
                verdicts.append(None)
                continue
            verdicts.append(y is z or norm(y) is norm(z))
        ok = True if True in verdicts else None if None in verdicts or not verdicts else False
        self.ob("native-state-derived", ok, f"is rebuilt as {short(x, 60)}, which is not what construction gives", f".{F}")

    def shape(self, x, fs):
        """x = dim(obj.G, i) with G made as an array of known shape."""
        if x.op == "dim" and x.a[0].op == "attr" and x.a[0].a[0] is OBJ:
            y = fs.get(x.a[0].a[1])
            if y is None:
                return None
            seen = 0
            y0 = strip(y)
            for t in walk_new(y):
                if t.op in ("empty", "zeros") and t.a[0].op == "tuple" and x.a[1] < len(t.a[0].a[0]):
                    return strip(t.a[0].a[0][x.a[1]])
                if t.op == "sym":
                    return dim(t, x.a[1])
            return None
        return strip(x)

    # ------------------------------------------------------------------
    def uses(self):
        """A component that loading does not restore is not used afterwards, except behind a refusal."""
        lost = []
        exposed = {r.tname for r in self.b.regs if r.cls == self.cls and r.kind in ("field", "prop") and r.tname}
        for F in self.lost:
            dep = any(any(t.op == "sym" and t is not sym("made") for t in walk(fs[F])) for f, fs in self.made if F in fs)
            if dep or F in exposed:
                lost.append(F)
        meth = self.methods()
        for r in self.b.regs:
            if r.cls != self.cls or r.kind != "method" or r.name in ("__getstate__", "__setstate__"):
                continue
            f = func_of(self.N, self.m, self.b, r)
            if f is None:
                continue
            rd = self.reads(f, meth, set())
            hit = sorted(set(lost) & rd)
            ok = not hit or self.refuses(f, meth, set(hit))
            self.ob("native-state-complete", ok, f"{r.name} reads {', '.join(hit)}, which the saved state does not carry", f".{r.name}")

    def methods(self):
        out = {}
        for c in self.mod.classes.values():
            if c.name == self.k.pyname or c.name.startswith(self.k.pyname + "__c"):
                for n, f in c.methods.items():
                    if n != "__init__":
                        out.setdefault(n, f)
        return out

    def reads(self, f, meth, seen):
        if f.qual in seen:
            return set()
        seen.add(f.qual)
        out = set()
        me = f.params()[0] if f.params() else "self"
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                if n.attr in self.k.fields:
                    out.add(n.attr)
                elif n.attr in meth:
                    out |= self.reads(meth[n.attr], meth, seen)
        return out

    def refuses(self, f, meth, lost, depth=0):
        """An unconditional statement raises when a lost component is missing."""
        me = f.params()[0] if f.params() else "self"
        for s in f.node.body:
            if isinstance(s, ast.If) and any(isinstance(x, ast.Raise) for x in s.body) and self.touches(s.test, me, lost):
                return True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                fn = s.value.func
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me and fn.attr in meth and depth < 4:
                    if self.refuses(meth[fn.attr], meth, lost, depth + 1):
                        return True
                if "check_arg" in ast.unparse(fn) and s.value.args and self.touches(s.value.args[0], me, lost):
                    return True
        return False

    def touches(self, n, me, lost):
        return any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr in lost for x in ast.walk(n))


def full(t, st):
    """The value with the content of a freshly made object in its place."""
    if t.op == "new":
        c = st.heap.get(("c", t))
        if c is not None:
            return c
    return t


def walk_new(t):
    yield t
    for x in walk(t):
        yield x


def width(t):
    t = t.replace("std::", "")
    return {"bool": 1, "char": 1, "short": 2, "int": 4, "unsigned int": 4, "unsigned": 4, "int32_t": 4, "uint32_t": 4, "long": 8, "unsigned long": 8, "size_t": 8,
            "int64_t": 8, "uint64_t": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8}.get(t)


def native(ctx):
    N = ctx.native()
    n = 0
    for m, b in bindings(N).items():
        for r in b.regs:
            if r.name != "__getstate__" or not r.cls:
                continue
            s = next((x for x in b.regs if x.cls == r.cls and x.name == "__setstate__"), None)
            if s is None:
                ctx.ob("native-state-pair", f"{m}.{r.cls}", False, "is saved but cannot be loaded", r.loc)
                continue
            n += 1
            o = State_(ctx, N, m, b, r.cls, r, s)
            ctx.guard(o.run)
    ctx.anchor(n >= 1, "native classes with pickling hooks")
