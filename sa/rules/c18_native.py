"""C18 on the native side: training steps and fold-in hand the solver the factors, Gram matrix and interactions of the right side."""
import ast

from ..common import *
from ..norm import norm
from ..native import NativeInterp
from ..entries import bindings, entries
from .c11 import spawn_call, demu, V, calls_in

SELF = sym("self")
PREP = "prepare"


def spawns(f):
    return any(isinstance(n, ast.Call) and spawn_call(n) for n in ast.walk(f.node))


def compatible(p, q):
    neg = {c.a[0] for c in p if c.op == "not"}
    pos = set(p)
    for c in q:
        if c.op == "not" and c.a[0] in pos or c in neg:
            return False
    return True


class Fold:
    def __init__(self, ctx, N):
        self.ctx, self.N = ctx, N
        self.mod = N.mods["_ials_core"]
        self.leaves = {}           # Func node -> kind
        for _, f, c in N.funcs():
            if f.module is self.mod and spawns(f):
                self.leaves[f.qual] = f
        self.kinds = {}
        self.found = 0

    def inline(self, f):
        return f.qual not in self.leaves and f.name != "compute_reg"

    # ------------------------------------------------------------------ what a leaf does with its parameters
    def leaf(self, f):
        if f.qual in self.kinds:
            return self.kinds[f.qual]
        r = self.kinds[f.qual] = dict(kind=None, roles={}, runs=None)
        c = next((k for k in self.mod.classes.values() if k.methods.get(f.name) is f), None)
        I = NativeInterp(self.N.proj, inline=lambda g: g.name != "compute_reg")
        self.N.run(f, c, interp=I)
        st = None
        r["I"] = I
        ann = {a.arg: a.annotation for a in f.node.args.args}
        def ty(p):
            x = ann.get(p)
            return x.id if isinstance(x, ast.Name) else x.value if isinstance(x, ast.Constant) else None
        ps = f.all_params()
        data = [p for p in ps if ty(p) == "sparse"]
        dense = [p for p in ps if ty(p) == "dense" or p == "prior"]
        conf = [p for p in ps if ty(p) == "IALSModelConfig"]
        solv = [p for p in ps if ty(p) == "SolverConfig"]
        writes = [e for e in I.effects if e.kind == "setattr" and e.obj is SELF and e.name == "P"]
        if writes and not data:
            r["kind"] = PREP
            if len(dense) == 1:
                r["roles"] = {dense[0]: "other"}
        elif len(data) == 1 and conf:
            r["kind"] = "solve"
            r["roles"][data[0]] = "data"
            tgt = {p for p in dense for e in I.effects if e.kind in ("setitem", "rowset", "iop", "augitem") and root(e.base if "base" in e.d else e.d.get("obj")) is sym(p)}
            oth = {p for p in dense for e in I.effects if e.kind == "getitem" and root(e.base) is sym(p) and contains(e.idx, mk("attr", sym(data[0]), "indices"))}
            names = {"target_factor": "target", "other_factor": "other", "prior": "prior"}
            for p in dense:
                r["roles"][p] = names.get(p) or ("target" if p in tgt else "other" if p in oth else None)
        for p in conf:
            r["roles"][p] = "config"
        for p in solv:
            r["roles"][p] = "solver_config"
        return r

    # ------------------------------------------------------------------ entry points
    def run(self):
        self.ctorfields()
        todo = []
        for e in entries(self.N):
            if e.reg.cls == "IALSTrainer" and e.reg.kind == "method":
                todo.append(e)
        for e in todo:
            self.ctx.guard(self.entry, e)
        self.ctx.anchor(self.found >= 1, "native solves")
        for f in self.leaves.values():
            k = self.kinds.get(f.qual)
            if k and k["kind"] == "solve":
                self.ctx.guard(self.regs, f, k)
            elif k and k["kind"] == PREP:
                self.ctx.guard(self.gram, f, k)

    def ctorfields(self):
        """Orientation of each stored interaction matrix."""
        self.orient = {}
        K = self.mod.classes["IALSTrainer"]
        for c in self.mod.classes.values():
            if c.name != K.name and not c.name.startswith(K.name + "__c"):
                continue
            f = c.methods.get("__init__")
            if f is None:
                continue
            ps = [a.arg for a in f.node.args.args if isinstance(a.annotation, ast.Constant) and a.annotation.value == "sparse"]
            if len(ps) != 1:
                continue
            I = NativeInterp(self.N.proj, inline=self.inline)
            _, st, _ = self.N.run(f, c, interp=I, selfterm=sym("made"))
            for k, v in st.heap.items():
                if k[0] == "a" and k[1] is sym("made"):
                    x = strip(st.heap.get(("c", v), v))
                    o = "user" if x is sym(ps[0]) else "item" if x.op == "T" and strip(x.a[0]) is sym(ps[0]) else None
                    if o:
                        self.orient.setdefault(k[2], set()).add(o)

    def side(self, t):
        """Side whose rows a matrix has, with what it was read from."""
        t = strip(t)
        if t.op == "T":
            s = self.side(t.a[0])
            return {"user": "item", "item": "user"}.get(s)
        if t.op == "attr" and t.a[0] is SELF:
            o = self.orient.get(t.a[1])
            if o:
                return next(iter(o)) if len(o) == 1 else None
            return self.label(t.a[1])
        if t.op == "sym":
            return "user"          # rows of the caller's interactions are users
        return None

    def label(self, n):
        u, i = n.startswith("user") or "_user" in n, n.startswith("item") or "_item" in n
        return "user" if u and not i else "item" if i and not u else None

    def entry(self, e):
        K = self.mod.classes["IALSTrainer"]
        I = NativeInterp(self.N.proj, inline=self.inline)
        I, st, v = self.N.run(e.func, e.cls, interp=I)
        name = e.reg.name
        calls = []
        for x in I.effects:
            if x.kind == "call" and x.fn.op == "attr":
                f = self.leaf_named(x.fn.a[1])
                if f is not None:
                    k = self.leaf(f)
                    if k["kind"]:
                        calls.append((x, f, k, self.bound(x, f, k)))
        solves = [c for c in calls if c[2]["kind"] == "solve"]
        if not solves:
            return
        self.found += 1
        self.weights(e, I)
        self.priors(e, calls)
        train = any(strip(c[3].get("target", NONE)).op == "attr" for c in solves)
        for c in solves:
            x, f, k, b = c
            tag = f"{name} {f.name}"
            ob = lambda rule, ok, d="": self.ctx.ob(rule, f"IALSTrainer.{tag}", ok, d, x.loc)
            t, o, d = (strip(b[r]) if r in b else None for r in ("target", "other", "data"))
            if t is None or o is None or d is None:
                ob("native-solve-roles", None, "the roles of the solver's arguments could not be told")
                continue
            so, sd = self.side(o), self.side(d)
            own = self.label(name) if not train else self.side(t)
            if train and t.op != "attr":
                own = None
            ob("native-solve-other", None if so is None or own is None or o.op != "attr" else so != own,
               f"the {own} side is solved against {short(o, 40)}")
            ob("native-solve-data", None if sd is None or own is None else sd == own, f"the {own} side is solved on {short(d, 40)}")
            cf = strip(b.get("config", NONE))
            ob("native-solve-config", cf is mk("attr", SELF, "config_") or (False if cf.op in ("new", "const") else None), f"model settings are {short(cf, 40)}")
            sc = strip(b.get("solver_config", NONE))
            ob("native-solve-settings", sc.op == "sym" or (False if sc.op in ("new", "const") or sc.op == "attr" else None), f"solver settings are {short(sc, 40)}")
            self.fresh(c, calls, I, ob)
            if not train:
                xi = dict(zip([p for p in f.params() if p != "self"], x.iargs)).get(next(p for p, r in k["roles"].items() if r == "target"))
                if xi is not None and v is not None:
                    ls = [y for _, y in leaves(v)]
                    ob("native-solve-returned", True if xi in ls else None if any(y.op in ("unk", "call", "phi") for y in ls) else False, "the solved rows are not what is returned")
        if train:
            self.order(e, solves, I)

    def leaf_named(self, n):
        fs = [f for f in self.leaves.values() if f.name == n]
        return fs[0] if len(fs) == 1 else None

    def bound(self, x, f, k):
        ps = [p for p in f.params() if p != "self"]
        b = dict(zip(ps, x.args))
        b.update(x.kwargs if isinstance(x.kwargs, dict) else dict(x.kwargs))
        out = {}
        for p, r in k["roles"].items():
            if r and p in b:
                out[r] = b[p]
        return out

    def fresh(self, c, calls, I, ob):
        """The Gram matrix was computed from the other side's present factors."""
        x, f, k, b = c
        S = strip(x.fn.a[0])
        i = I.effects.index(x)
        before = [d for d in calls if I.effects.index(d[0]) < i and compatible(d[0].path, x.path)]
        prep = [d for d in before if d[2]["kind"] == PREP and strip(d[0].fn.a[0]) is S and set(d[0].path) <= set(x.path) | {z for z in d[0].path if z not in x.path and False}]
        if not prep:
            some = [d for d in before if d[2]["kind"] == PREP and strip(d[0].fn.a[0]) is S]
            extra = [z for d in some for z in d[0].path if z not in x.path]
            if len(some) == 1 and extra and all(contains(z, S) for z in extra):
                some = []
            ob("native-gram-fresh", None if some else False, "no Gram matrix is computed for this solver before it is used")
            return
        p = prep[-1]
        po = strip(p[3].get("other", NONE))
        o = strip(b["other"])
        ob("native-gram-other", po is o or (None if po.op not in ("attr", "sym") else False), f"the Gram matrix is of {short(po, 40)}, the solve is against {short(o, 40)}")
        pc = strip(p[3].get("config", NONE))
        ob("native-gram-config", pc is strip(b.get("config", NONE)) or (False if pc.op in ("new", "const") else None), f"Gram settings are {short(pc, 40)}")
        j = I.effects.index(p[0])
        stale = [d for d in before if d[2]["kind"] == "solve" and I.effects.index(d[0]) > j and strip(d[3].get("target", NONE)) is o]
        ob("native-gram-fresh", not stale, f"{short(o, 40)} changes after its Gram matrix was computed")

    def order(self, e, solves, I):
        side = lambda c: self.side(c[3]["target"]) if "target" in c[3] else None
        U = [c for c in solves if side(c) == "user"]
        T_ = [c for c in solves if side(c) == "item"]
        ob = lambda rule, ok, d, loc: self.ctx.ob(rule, f"IALSTrainer.{e.reg.name}", ok, d, loc)
        if len(U) + len(T_) != len(solves):
            ob("native-both-sides", None, "", e.func.loc())
            return
        ix = lambda c: I.effects.index(c[0])
        for u in U:
            ok = any(ix(t) > ix(u) and compatible(t[0].path, u[0].path) for t in T_)
            ob("native-both-sides", ok, "the items are not solved after the users", u[0].loc)
        for t in T_:
            ok = any(ix(u) < ix(t) and compatible(t[0].path, u[0].path) for u in U)
            ob("native-both-sides", ok, "the users are not solved before the items", t[0].loc)
        ob("native-both-sides", bool(U) and bool(T_), "one side is never solved", e.func.loc())

    def weights(self, e, I):
        """Feature weights are refitted from, and used with, their own side."""
        for x in I.effects:
            if x.kind == "inline":
                b = x.bound
            elif x.kind == "call" and x.fn.op in ("attr", "fn"):
                b = dict(x.kwargs) if not isinstance(x.kwargs, dict) else x.kwargs
            else:
                continue
            ws = [t for t in b.values() if isinstance(t, T) and t.op == "attr" and t.a[0] is SELF and t.a[1].endswith("feature_weight")]
            if not ws:
                continue
            own = self.label(ws[0].a[1])
            bad, n = [], 0
            for p, t in b.items():
                if not isinstance(t, T) or t is SELF:
                    continue
                s = strip(t)
                if s.op == "dim" and s.a[0].op == "attr" and p.startswith("other"):
                    g = self.side(s.a[0])
                    if s.a[1] == 0 and g == own:
                        bad.append(f"{p} = {short(s, 40)}")
                    n += 1
                elif s.op == "attr" and s.a[0] is SELF or s.op == "attr" and s.a[0] is mk("attr", SELF, "config_"):
                    g = self.orient.get(s.a[1]) if s.a[0] is SELF else None
                    g = next(iter(g)) if g and len(g) == 1 else self.label(s.a[1])
                    if g is not None and g != own:
                        bad.append(f"{p} = {short(s, 40)}")
                    n += 1
            if n > 1 or bad:
                self.ctx.ob("native-feature-side", f"IALSTrainer.{e.reg.name}", not bad, f"with the {own} weights: {', '.join(bad)}", x.loc)

    def priors(self, e, calls):
        for x, f, k, b in calls:
            if k["kind"] != "solve" or "prior" not in b or b["prior"] is NONE:
                continue
            p = strip(b["prior"])
            own = self.side(b["data"]) if "data" in b else None
            lab = {self.label(t.a[1]) for t in walk(p) if t.op == "attr" and t.a[0] is SELF and t.a[1].endswith(("feature_weight", "features"))}
            if p.op == "sym":
                continue
            ok = None if own is None or not lab else lab == {own}
            self.ctx.ob("native-prior-side", f"IALSTrainer.{e.reg.name} {f.name}", ok, f"the {own} side is pulled towards {short(p, 60)}", x.loc)

    # ------------------------------------------------------------------ inside the solvers
    def regs(self, f, k):
        I = k["I"]
        inv = {r: sym(p) for p, r in k["roles"].items() if r}
        D, O, C, T_ = (inv.get(r) for r in ("data", "other", "config", "target"))
        n = 0
        for x in I.effects:
            if x.kind != "call" or x.fn.op != "attr" or x.fn.a[1] != "compute_reg":
                continue
            b = list(x.args) + list((x.kwargs if isinstance(x.kwargs, dict) else dict(x.kwargs)).values())
            kw = x.kwargs if isinstance(x.kwargs, dict) else dict(x.kwargs)
            nnz, size, conf = (strip(kw.get(p, NONE)) for p in ("nnz", "other_size", "config"))
            n += 1
            tag = f"Solver.{f.name}"
            rows = full_rows(norm(size))
            if rows.op == "dim":
                rows = dim(first_value(rows.a[0]), rows.a[1])
            ok = rows is dim(O, 0) or None
            if ok is None:
                m = {y for y in walk(rows) if y.op == "sym"}
                if rows.op in ("dim",) and T_ is not None and m == {T_} or rows.op == "const" or rows is dim(D, 0) or rows is dim(O, 1):
                    ok = False
                elif rows.op == "dim" and m == {O} and rows.a[1] == 0:
                    ok = True
                elif rows is dim(D, 1):
                    ok = True
                elif rows.op == "dim" and m == {T_}:
                    ok = False
            self.ctx.ob("native-reg-size", tag, ok, f"regularisation is scaled by {short(rows, 60)}", x.loc)
            self.ctx.ob("native-reg-config", tag, conf is C or (False if conf.op in ("new", "const") else None), f"settings are {short(conf, 40)}", x.loc)
            own = self.own_count(nnz, D, I)
            self.ctx.ob("native-reg-count", tag, own, f"the number of observations is {short(nnz, 80)}", x.loc)
        if not n:
            used = any(y is mk("attr", C, "reg") for e in I.effects for y in walk_effect(e))
            if any(e.kind in ("setitem",) for e in I.effects) and k["roles"] and "config" in k["roles"].values():
                self.ctx.ob("native-reg-used", f"Solver.{f.name}", None if used else None, "", f.loc())

    def own_count(self, t, D, I):
        """indptr[row + 1] - indptr[row] of the claimed row, or a count of its entries."""
        ip = mk("attr", D, "indptr")
        vm = {c: V for e in I.effects if e.kind == "claim" for c in (e.term, strip(e.term))}
        t = norm(subst(t, vm))
        want = norm(sub(mk("idx", ip, add(V, ONE)), mk("idx", ip, V)))
        if t is want:
            return True
        if t.op == "sumover" and is_const(t.a[0], 1) and t.a[1].op == "range" and is_const(t.a[1].a[2], 1):
            t = norm(sub(t.a[1].a[1], t.a[1].a[0]))
            return t is want or (False if contains(t, ip) and not any(y.op in ("mu", "loopout", "unk") for y in walk(t)) else None)
        if t.op == "const" or t.op == "dim":
            return False
        if any(y.op in ("loopout", "mu", "unk", "algo") for y in walk(t)):
            return None
        if contains(t, ip):
            return False
        return None

    def gram(self, f, k):
        I = k["I"]
        O = next((sym(p) for p, r in k["roles"].items() if r == "other"), None)
        w = [e for e in I.effects if e.kind == "setattr" and e.obj is SELF and e.name == "P"]
        old = mk("attr", SELF, "P")
        stale = any(contains(first_value(x.content), old) or x.val is old for x in w)
        self.ctx.ob("native-gram-reset", f"Solver.{f.name}", not stale, "the Gram matrix keeps what an earlier call left in it", w[0].loc)
        if O is None:
            return


def full_rows(t):
    """Rows of a column slice are the rows of the matrix."""
    while t.op == "dim" and t.a[1] == 0 and t.a[0].op == "idx" and t.a[0].a[1].op == "tuple" and t.a[0].a[1].a[0][0].op == "slice" and all(x is NONE or is_const(x, 0) for x in t.a[0].a[1].a[0][0].a[:1]) \
            and t.a[0].a[1].a[0][0].a[1] is NONE:
        t = dim(t.a[0].a[0], 0)
    return t


def first_value(t):
    """What a value carried round a loop started from."""
    while t.op in ("mu", "loopout"):
        t = t.a[3] if t.op == "mu" else t.a[1]
    return t


def root(t):
    while t is not None and t.op in ("idx", "row", "attr", "T", "slice", "getitem", "sub", "copy"):
        t = t.a[0]
    return t


def walk_effect(e):
    for v in e.d.values():
        if isinstance(v, T):
            yield from walk(v)


def native(ctx):
    Fold(ctx, ctx.native()).run()
