"""C05: saving and loading the state of a learner are inverse, and nothing learnt is left out."""
import ast

from ..common import *
from ..norm import norm, same
from .c16 import concrete, members

LEVEL = "proof"
TECHNIQUE = "static analysis: symbolic dataflow through the serialised value; composition of the save and load transfer functions must be the identity on every place that an epoch updates and scoring reads"
MIN_OBLIGATIONS = 15
EXPLANATION = ("For every trainer the places an epoch updates are computed (attributes assigned, objects whose methods are called, and for native objects their settable properties) and intersected with the places "
               "that scoring of its recommenders reads. The value save_state writes is substituted for what load_state reads; afterwards each of those places must hold the value it had when saved, and no place may "
               "receive the value of another. Classes with their own pickling hooks must restore each attribute their constructor sets. The recommender-level snapshot must be the bytes the trainer wrote. The pickling hooks of every bound native class are composed the same way: each field must come back from the same field (or be derived as construction derives it), and no registered method may use a field the state does not carry unless it refuses first.")
ASSUMPTIONS = ["pickle reproduces the value it was given", "the settable properties of a native object are its learnt state (native part)"]

TRAINER = "irspack.recommenders.base_earlystop.TrainerBase"
ES = "irspack.recommenders.base_earlystop.BaseRecommenderWithEarlyStopping"
SELF = sym("self")
PURE = {"shuffle", "permutation", "get_state"}


def check(ctx):
    ts = [c for c in ctx.proj.subclasses(TRAINER) if c.find("save_state") and c.find("save_state").cls.qual != TRAINER]
    ctx.anchor(len(ts) >= 1, "trainer classes")
    for t in ts:
        ctx.guard(trainer, ctx, t)
    seen = set()
    for c in [ctx.proj.cls(ES)] + ctx.proj.subclasses(ES):
        f, g = c.find("save_state"), c.find("load_state")
        if (f, g) not in seen:
            seen.add((f, g))
            ctx.guard(snapshot, ctx, c, f, g)
    for c in ctx.proj.all_classes():
        if c.module.is_stub:
            continue
        if any(h in c.methods for h in ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__copy__", "__deepcopy__")):
            ctx.guard(hooks, ctx, c)
    from .c05_native import native
    ctx.guard(native, ctx)


# ---------------------------------------------------------------- places
def place(t, base=SELF):
    """True when t is an attribute path rooted at base."""
    while t.op == "attr":
        t = t.a[0]
        if t is base:
            return True
    return False


def settable(ctx, cls):
    """Properties with a setter in a stub class."""
    out = []
    for k in cls.mro():
        for n in k.node.body:
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == "setter":
                        out.append(n.name)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.append(n.target.id)
    return out


def attr_class(ctx, t, name):
    """Class of the object the constructor puts into self.<name>."""
    try:
        I, st, o = construct(ctx, t)
    except (AnalysisError, Unreachable):
        return None
    v = st.heap.get(("a", o, name))
    cs = {x.a[0] for _, x in leaves(v) if x.op == "new"} if v is not None else set()
    if len(cs) == 1:
        q = next(iter(cs))
        return ctx.proj.find_class(q) if isinstance(q, str) else None
    return None


def trained(ctx, t):
    """(attribute places an epoch assigns, object places whose methods an epoch calls)."""
    f = t.find("run_epoch")
    I, st, v = analyse(ctx, f, t)
    assigned = [mk("attr", k[1], k[2]) for k in st.heap if k[0] == "a" and (k[1] is SELF or place(k[1]))]
    objs = []
    for e in I.effects:
        if e.kind in ("call", "mutcall"):
            r = e.fn.a[0] if e.kind == "call" and e.fn.op == "attr" else (e.obj if e.kind == "mutcall" else None)
            nm = e.fn.a[1] if e.kind == "call" and e.fn.op == "attr" else (e.name if e.kind == "mutcall" else None)
            if r is not None and isinstance(r, T) and place(root_mu(r)) and nm not in PURE:
                r = root_mu(r)
                if r not in objs:
                    objs.append(r)
        elif e.kind in ("setitem",):
            r = root(e.obj)
            p = lv(e.obj)
            if p is not None and p not in assigned:
                assigned.append(p)
    return assigned, objs


def root_mu(t):
    while t.op in ("mu", "loopout", "store", "mutated"):
        t = t.a[3] if t.op == "mu" else (t.a[1] if t.op == "loopout" else t.a[0])
    return t


def lv(t):
    while not place(t):
        if t.op in ("idx", "conv", "store", "mu", "T") or t.op == "attr":
            t = t.a[1] if t.op == "conv" else (t.a[3] if t.op == "mu" else t.a[0])
        else:
            return None
    return t


def used(ctx, t):
    """Attribute paths of the trainer that scoring of its recommenders reads."""
    TR = sym("<trainer>")
    out = set()
    n = 0
    for c in concrete(ctx):
        if ctx.proj.cls(ES) not in c.mro():
            continue
        f = c.find("_create_trainer")
        I, st, o = construct(ctx, c)
        I.pending_raises = []
        try:
            v = I.run(f, st=st, selfterm=o, cls=c)
        except Unreachable:
            continue
        if not any(x.op == "new" and x.a[0] == t.qual for _, x in leaves(v)):
            continue
        for name, m in members(c).items():
            if name in ("save_state", "load_state", "run_epoch", "compute_loss"):
                continue
            I, st, o = construct(ctx, c)
            st.heap[("a", o, "trainer")] = TR
            I.types[TR] = t
            I.pending_raises = []
            try:
                v = I.run(m, st=st, selfterm=o, cls=c, use_defaults=False)
            except (Unreachable, AnalysisError):
                v = None
            n += 1
            ts = [v] if v is not None else []
            for e in I.effects:
                for x in e.d.values():
                    ts += [x] if isinstance(x, T) else ([y for y in x if isinstance(y, T)] if isinstance(x, (tuple, list)) else [])
            for x in ts:
                for y in walk(x):
                    if y.op == "attr" and place(y, TR):
                        out.add(subst(y, {TR: SELF}))
            ctx.saw(*I.analysed)
    if n == 0:
        raise AnalysisError(f"no recommender uses {t.name}")
    return out


# ---------------------------------------------------------------- the stream
def written(ctx, I, st, stream):
    """Values written to the stream, in order."""
    out = []
    for e in I.effects:
        if e.kind != "call":
            continue
        q = fname(e.fn)
        a = list(e.args) + [e.kwargs[k] for k in ("obj", "value", "file", "filename") if k in e.kwargs]
        if q in ("pickle.dump", "cloudpickle.dump", "joblib.dump", "dill.dump", "torch.save"):
            v = e.args[0] if e.args else e.kwargs.get("obj", e.kwargs.get("value"))
            f = e.args[1] if len(e.args) > 1 else e.kwargs.get("file", e.kwargs.get("filename"))
            if f is not stream:
                raise AnalysisError("written somewhere else")
        elif e.fn.op == "attr" and e.fn.a[1] == "dump" and e.fn.a[0].op in ("call", "new") and "Pickler" in str(fname(e.fn.a[0].a[0]) if e.fn.a[0].op == "call" else e.fn.a[0].a[0]):
            v = e.args[0]
        elif e.fn.op == "attr" and e.fn.a[0] is stream and e.fn.a[1] == "write":
            w = e.args[0]
            if w.op == "call" and fname(w.a[0]) in ("pickle.dumps", "cloudpickle.dumps"):
                v = w.a[1][0] if w.a[1] else dict(w.a[2])["obj"]
            else:
                raise AnalysisError(f"writes {short(w, 80)}")
        elif stream in a or any(x is stream for x in e.kwargs.values()):
            raise AnalysisError(f"the stream is handed to {short(e.fn, 80)}")
        else:
            continue
        if e.loops:
            raise AnalysisError("written in a loop")
        if e.path:
            raise AnalysisError("written conditionally")
        out.append((v, e.loc))
    return out


def reads(ctx, I, stream):
    """Terms that denote what is read from the stream, in order."""
    out = []
    for e in I.effects:
        if e.kind != "call":
            continue
        q = fname(e.fn)
        if q in ("pickle.load", "cloudpickle.load", "joblib.load", "dill.load", "torch.load"):
            f = e.args[0] if e.args else next(iter(e.kwargs.values()))
            if f is not stream:
                raise AnalysisError("read from somewhere else")
        elif e.fn.op == "attr" and e.fn.a[1] == "load" and e.fn.a[0].op in ("call", "new") and "Unpickler" in str(fname(e.fn.a[0].a[0]) if e.fn.a[0].op == "call" else e.fn.a[0].a[0]):
            pass
        elif q in ("pickle.loads", "cloudpickle.loads"):
            w = e.args[0]
            if not (w.op == "call" and w.a[0].op == "attr" and w.a[0].a[0] is stream and w.a[0].a[1] in ("read", "getvalue")):
                raise AnalysisError("loads other bytes")
        elif e.fn.op == "attr" and e.fn.a[0] is stream and e.fn.a[1] in ("read", "getvalue"):
            continue
        elif any(x is stream for x in list(e.args) + list(e.kwargs.values())):
            raise AnalysisError(f"the stream is handed to {short(e.fn, 80)}")
        else:
            continue
        if e.loops or e.path:
            raise AnalysisError("read conditionally")
        out.append(e.term)
    return out


def fname(f):
    return ".".join(map(str, f.a)) if f.op in ("ext", "builtin") else (f.a[0] if f.op == "fn" else "")


def lookup(t):
    """key in {...}, {...}[key], {...}.get(key) after substitution."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        y = rebuild(x, go)
        if y.op == "in" and y.a[1].op == "dict":
            ks = [k for k, _ in y.a[1].a[0]] if y.a[1].a and isinstance(y.a[1].a[0], tuple) else None
            if ks is not None and all(k.op == "const" for k in ks):
                y = TRUE if y.a[0] in ks else (FALSE if y.a[0].op == "const" else y)
        if y.op == "isnone" and y.a[0].op == "saved":
            y = FALSE
        if y.op == "phi":
            if y.a[0] is TRUE:
                y = y.a[1]
            elif y.a[0] is FALSE:
                y = y.a[2]
        memo[x] = y
        return y
    return go(t)


class Loader(Interp):
    """Interpreter in which reading the stream yields the values that were written to it."""

    def __init__(self, proj, values):
        super().__init__(proj)
        self.values, self.n = values, 0

    def call_ext(self, q, args, kwargs, st, node):
        if q in ("pickle.load", "cloudpickle.load", "joblib.load", "dill.load", "torch.load", "pickle.loads", "cloudpickle.loads"):
            super().call_ext(q, args, kwargs, st, node)
            v = self.values[self.n] if self.n < len(self.values) else mk("missing", self.n)
            self.n += 1
            return self.newobj(v.op, v, st) if v.op in ("dict", "list") else v
        return super().call_ext(q, args, kwargs, st, node)


def trainer(ctx, t):
    where = t.name
    sf, lf = t.find("save_state"), t.find("load_state")
    out = sym(params(sf)[0])
    Is, ss, _ = analyse(ctx, sf, t)
    ws = written(ctx, Is, ss, out)
    inp = sym(params(lf)[0])
    Il, sl, _ = analyse(ctx, lf, t)
    rs = reads(ctx, Il, inp)
    if not ws:
        def uses(e):
            ts = [getattr(e, k, None) for k in ("fn", "obj", "val")] + list(getattr(e, "args", ()) or ()) + list((getattr(e, "kwargs", None) or {}).values())
            return any(isinstance(x, T) and contains(x, out) for x in ts)
        if not any(uses(e) for e in Is.effects if not (e.kind == "call" and e.fn.op == "fn")):
            ctx.ob("reads-what-was-written", f"{where}.save_state", False, "nothing is written to the stream", sf.loc())
            return
        raise AnalysisError("nothing recognised is written")
    ctx.ob("reads-what-was-written", f"{where}.load_state", len(rs) == len(ws), f"{len(ws)} values are written, {len(rs)} are read", lf.loc())
    if len(set(rs)) != len(rs):
        raise AnalysisError("reads cannot be told apart")
    if len(rs) != len(ws):
        return
    # required places
    assigned, objs = trained(ctx, t)
    use = used(ctx, t)
    req = [p for p in assigned if p in use]
    for o in objs:
        touch = {u for u in use if u is o or place(u, o)}
        if not touch:
            continue
        c = attr_class(ctx, t, o.a[1]) if o.a[0] is SELF else None
        if c is not None and c.module.is_stub and settable(ctx, c):
            req += [mk("attr", o, n) for n in settable(ctx, c)]
        else:
            req.append(o)
    if not req:
        raise AnalysisError("no learnt place found")
    keys_ = [k for k in sl.heap if k[0] == "a" and (k[1] is SELF or place(k[1]))]
    mark = {p: mk("saved", p) for p in set(req) | set(assigned) | {mk("attr", k[1], k[2]) for k in keys_}}
    for o in objs:
        if o not in mark and not any(place(p, o) for p in mark):
            mark[o] = mk("saved", o)
    values = [subst_marks(norm(Is.deep(w, ss)), mark) for w, _ in ws]
    Il = Loader(ctx.proj, values)
    Il, sl, _ = analyse(ctx, lf, t, interp=Il)
    got = {mk("attr", k[1], k[2]): lookup(norm(Il.deep(v, sl))) for k, v in sl.heap.items() if k[0] == "a" and (k[1] is SELF or place(k[1]))}
    handed = [e for e in Il.effects if e.kind in ("call", "mutcall") and any(has_saved(Il, sl, x) for x in list(e.args) + list(e.kwargs.values()))
              and (e.kind == "mutcall" and e.obj is not None and (place(e.obj) or e.obj is SELF) or e.kind == "call" and (e.fn.op != "attr" or place(e.fn.a[0]) or fname(e.fn) in ("builtins.setattr", "builtins.vars")))]
    for p in dict.fromkeys(req):
        what = f"{where} {short(p)}"
        v = got.get(p)
        q = p
        while v is None and q.op == "attr" and q.a[0] is not SELF:
            q = q.a[0]
            v = got.get(q)
        if v is None:
            ctx.ob("restored", what, None if handed else False, f"{short(p)} is updated by training and used for scores, but load_state leaves it as it is", lf.loc())
            continue
        want = mk("saved", q)
        judge(ctx, "restored", what, v, want, lf.loc())
    for p, v in got.items():
        if p not in req:
            judge(ctx, "own-place", f"{where} {short(p)}", v, mk("saved", p), lf.loc())


def has_saved(I, st, x):
    return isinstance(x, T) and any(y.op == "saved" for y in walk(I.deep(x, st)))


def judge(ctx, rule, what, v, want, loc):
    worst, why = True, ""
    for cs, x in hoist(norm(v)):
        x = unwrap(x)
        if x is want:
            continue
        sv = [y for y in walk(x) if y.op == "saved"]
        if x.op == "saved":
            r, w = False, f"it receives {short(x.a[0])}"
        elif x is want.a[0]:
            r, w = False, "it keeps its current value" + (f" when {' and '.join(short(c, 80) for c in cs)}" if cs else "")
        elif x.op == "missing" or x.op == "idx" and x.a[0].op == "dict" and x.a[1].op == "const":
            r, w = False, f"it reads {short(x.a[1])}, which is never written"
        elif not sv:
            r, w = (False, f"it receives {short(x, 120)}, which is not part of the saved state") if x.op in ("const", "none") else (None, f"it receives {short(x, 120)}")
        else:
            r, w = same(x, want)
            if r is False:
                r, w = False, f"it receives {short(x, 160)}"
        if r is False:
            worst, why = False, w
            break
        if r is None:
            worst, why = None, w
    ctx.ob(rule, what, worst, why, loc)


def unwrap(x):
    while True:
        if x.op == "conv":
            x = x.a[1]
        elif x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("copy", "__copy__") and not x.a[1]:
            x = x.a[0].a[0]
        elif x.op == "call" and fname(x.a[0]) in ("copy.copy", "copy.deepcopy") and x.a[1]:
            x = x.a[1][0]
        else:
            return x


def subst_marks(t, m):
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r
    return go(t)


def params(f):
    return [x.arg for x in f.node.args.posonlyargs + f.node.args.args][1:]


# ---------------------------------------------------------------- recommender level
def snapshot(ctx, c, f, g):
    TR = sym("<trainer>")

    def start():
        I = Interp(ctx.proj)
        st = State()
        I.types[SELF] = c
        st.heap[("a", SELF, "trainer")] = TR
        return I, st
    I, st = start()
    I.pending_raises = []
    I.run(f, st=st, selfterm=SELF, cls=c)
    ctx.saw(*I.analysed)
    calls = [e for e in I.effects if e.kind == "call" and e.fn.op == "attr"]
    sv = [e for e in calls if e.fn.a == (TR, "save_state")]
    where = f"{c.name}.save_state"
    if not sv:
        ctx.ob("snapshot-taken", where, False if not any(TR in set(walk(e.fn)) for e in calls) else None, "the trainer is not asked for its state", f.loc())
        return
    buf = (list(sv[0].args) + list(sv[0].kwargs.values()))[0]
    val = st.heap.get(("a", SELF, "best_state"))
    val = I.deep(val, st) if val is not None else None
    gets = [e for e in calls if e.fn.a[0] is buf and e.fn.a[1] in ("getvalue", "getbuffer", "read")]
    if val is None:
        ctx.ob("snapshot-taken", where, False, "the trainer's state is not kept", f.loc())
    else:
        core = val
        while core.op in ("conv",) or core.op == "call" and core.a[0].op == "builtin" and core.a[1]:
            core = core.a[1] if core.op == "conv" else core.a[1][0]
        if core.op == "call" and core.a[0].op == "attr" and core.a[0].a[1] == "getvalue":
            ok = core.a[0].a[0] is buf
            ctx.ob("snapshot-taken", where, ok, f"the kept snapshot is {short(val, 120)}", f.loc())
            o = {id(e): i for i, e in enumerate(I.effects)}
            if ok and gets:
                ctx.ob("snapshot-after-save", where, o[id(gets[-1])] > o[id(sv[-1])], "the bytes are taken before the trainer has written them", f.loc())
        else:
            ctx.ob("snapshot-taken", where, None if TR in set(walk(val)) or val.op == "call" else False, f"the kept snapshot is {short(val, 120)}", f.loc())
    I, st = start()
    st.heap[("a", SELF, "best_state")] = sym("<snapshot>")
    I.pending_raises = []
    I.run(g, st=st, selfterm=SELF, cls=c)
    ctx.saw(*I.analysed)
    where = f"{c.name}.load_state"
    ld = [e for e in I.effects if e.kind == "call" and e.fn.op == "attr" and e.fn.a == (TR, "load_state")]
    ctx.ob("snapshot-restored", where, bool(ld), "the trainer is not given the snapshot", g.loc())
    for e in ld:
        b = (list(e.args) + list(e.kwargs.values()))[0]
        while b.op == "enter":
            b = b.a[0]
        src = [x for x in walk(b) if x is sym("<snapshot>")]
        direct = (b.op == "new" and "BytesIO" in str(b.a[0]) or b.op == "call" and "BytesIO" in fname(b.a[0]))
        ctx.ob("snapshot-restored", where, True if src and direct else None, f"the trainer reads {short(b, 100)}", e.loc)
        bad = [p for p in e.path if any(x is SELF or x is TR or x.op == "sym" for x in walk(p))]
        free = [p for p in bad if not any(x is sym("<snapshot>") or x is TR for x in walk(p))]
        ctx.ob("snapshot-restored-always", where, not free, "the snapshot is only restored when " + " and ".join(short(p, 80) for p in free), e.loc)


# ---------------------------------------------------------------- pickling hooks of Python classes
def hooks(ctx, c):
    if any(h in c.methods for h in ("__reduce__", "__reduce_ex__", "__copy__", "__deepcopy__")):
        ctx.ob("hooks", c.name, None, "rebuilds objects in its own way", c.node.lineno)
        return
    I, st, o = construct(ctx, c)
    attrs = {k[2]: I.deep(v, st) for k, v in st.heap.items() if k[0] == "a" and k[1] is o}
    gs, ss = c.find("__getstate__"), c.find("__setstate__")
    dropped, kept = set(), None
    if gs is not None and not gs.is_stub:
        I1, s1, v = analyse(ctx, gs, c)
        state = I1.deep(v, s1)
        dropped, kept = keys(state)
    restored = {}
    whole = True
    if ss is not None and not ss.is_stub:
        I2, s2, _ = analyse(ctx, ss, c)
        S = sym(params(ss)[0])
        whole = False
        for k, v in s2.heap.items():
            if k[0] == "a" and k[1] is SELF:
                restored[k[2]] = I2.deep(v, s2)
                if k[2] == "__dict__" and S in set(walk(restored[k[2]])):
                    whole = True
            if k[0] == "c" and k[1] is mk("attr", SELF, "__dict__") and S in set(walk(v)):
                whole = True
    loc = (ss or gs).loc()
    later = set()
    for m in c.methods.values():
        if m.name not in ("__init__", "__setstate__", "__getstate__"):
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    later.add(n.attr)
    for a in sorted(attrs):
        what = f"{c.name}.{a}"
        has = kept is None and a not in dropped or kept is not None and a in kept
        if a in restored:
            v = restored[a]
            if S in set(walk(v)):
                x = unwrap(norm(v))
                own = [y for y in walk(x) if y.op == "idx" and y.a[0] is S or y.op == "call" and y.a[0].op == "attr" and y.a[0].a[0] is S]
                ks = {(y.a[1] if y.op == "idx" else y.a[1][0]) for y in own if y.op == "idx" or y.a[1]}
                if x.op == "idx" and x.a[0] is S and x.a[1].op == "const" and isinstance(x.a[1].a[0], str):
                    ctx.ob("hook-own-place", what, x.a[1].a[0] == a, f"it is restored from {x.a[1].a[0]!r}", loc)
                    ctx.ob("hook-kept", what, has, "it is read from the state but was removed from it", loc)
                else:
                    ctx.ob("hook-own-place", what, None, f"it is rebuilt as {short(x, 100)}", loc)
            elif a == "__dict__":
                pass
            elif a in later and v.op in ("const", "none"):
                ctx.ob("hook-own-place", what, False, f"it comes back as {short(v, 80)} whatever it was", loc)
            elif attrs[a].op in ("sym",) and v.op in ("const", "none"):
                ctx.ob("hook-own-place", what, False, f"it comes back as {short(v, 80)}", loc)
            else:
                ctx.ob("hook-own-place", what, True if v.op == "call" or same(v, attrs[a])[0] else None, f"it comes back as {short(v, 80)}", loc)
        elif whole:
            ctx.ob("hook-kept", what, has, f"{a} is removed from the state and not rebuilt", loc)
        else:
            ctx.ob("hook-kept", what, False if kept is None or ss is not None else has, f"{a} is not restored", loc)


def keys(t):
    """(dropped names, kept names or None for 'everything')."""
    drop = set()
    while True:
        if t.op == "popped":
            k = t.a[1]
            if isinstance(k, tuple):
                k = k[0]
            elif k.op == "tuple":
                k = k.a[0][0]
            if k.op != "const":
                raise AnalysisError("removes a computed key")
            drop.add(k.a[0])
            t = t.a[0]
        elif t.op == "dictmerge" and t.a[0].op == "dict" and not t.a[0].a[0]:
            t = t.a[1]
        elif t.op == "attr" and t.a[1] == "__dict__":
            return drop, None
        elif t.op == "conv":
            t = t.a[1]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "copy":
            t = t.a[0].a[0]
        elif t.op == "dict":
            return set(), {k.a[0] for k, _ in t.a[0]} - drop
        else:
            raise AnalysisError(f"the state is {short(t, 100)}")
