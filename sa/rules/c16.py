"""C16: nothing learnt is available before learning."""
import ast

from ..common import *
from ..norm import norm

LEVEL = "proof"
TECHNIQUE = "static analysis: typestate (constructed / learning / learnt) over symbolic object states; definite-raise analysis of every accessor"
MIN_OBLIGATIONS = 100
EXPLANATION = ("Each concrete recommender is constructed symbolically; every scoring, weight, embedding and training-step member is then analysed on that object state. It must raise on every path: "
               "an explicit raise, a dereference of None, or a read of an attribute that no constructor sets. After learning, the accessors that the class implements must be able to return.")
ASSUMPTIONS = ["calling a method, indexing or multiplying None raises; reading an attribute that was never set raises AttributeError"]

SKIP = {"from_config", "learn", "learn_with_optimizer", "default_suggest_parameter", "tune", "tune_doubling_dimension", "start_learning"}


def concrete(ctx):
    B = ctx.proj.find_class(BASE)
    for c in ctx.proj.all_classes():
        if B not in c.mro() or c.module.is_stub:
            continue
        if any(is_abstract(f) and c.find(f.name) is f for k in c.mro() for f in k.methods.values()):
            continue
        yield c


def is_abstract(f):
    return any((getattr(d, "id", None) or getattr(d, "attr", None)) == "abstractmethod" for d in f.node.decorator_list)


def members(c):
    out = {}
    for k in c.mro():
        if not k.module.name.startswith("irspack."):
            continue
        for f in k.methods.values():
            if not f.name.startswith("_") and f.name not in SKIP and f.name not in out and not is_static(f):
                out[f.name] = f
    return out


def is_static(f):
    return any((getattr(d, "id", None) or getattr(d, "attr", None)) in ("staticmethod", "classmethod", "setter") for d in f.node.decorator_list)


def certain_raise(v, o, st, defined):
    """Why evaluating v raises, or None."""
    for x in walk(v):
        if x.op == "attr" and x.a[0] is NONE:
            return f"None.{x.a[1]}"
        if x.op == "attr" and x.a[0] is o and x.a[1] not in defined:
            return f"attribute {x.a[1]} is not set"
        if x.op == "call" and x.a[0] is NONE:
            return "None(...)"
        if x.op == "idx" and x.a[0] is NONE or x.op in ("matmul", "transpose", "T", "lin") and NONE in [y for y in x.a if isinstance(y, T)]:
            return f"{x.op} of None"
    return None


def outcome(ctx, c, f, o, st, I):
    s = st.copy()
    n = len(I.effects)
    I.pending_raises = []
    try:
        v = I.run(f, st=s, selfterm=o, cls=c)
    except Unreachable:
        v = None
    return v, s, I.effects[n:]


def one(ctx, c):
    I, st, o = construct(ctx, c)
    defined = {k[2] for k in st.heap if k[0] == "a" and k[1] is o} | {n for k in c.mro() for n in getattr(k, "attrs", {})}
    defined |= {f.name for k in c.mro() for f in k.methods.values()}
    init_state = st
    for name, f in sorted(members(c).items()):
        q = f"{c.name}.{name}"
        v, s, effs = outcome(ctx, c, f, o, init_state, I)
        if v is None:
            ctx.ob("raises-before-learning", q, True)
            continue
        bad = None
        for cs, leaf in leaves(I.deep(v, s)):
            why = certain_raise(leaf, o, s, defined)
            if why is None:
                why = next((w for e in effs if e.kind in ("call", "mutcall", "store", "getitem", "setattr") and all(p in cs or p in () for p in e.path)
                            for w in [effect_raise(e, o, s, defined)] if w), None)
            if why is None:
                bad = (cs, leaf)
                break
        ctx.ob("raises-before-learning", q, bad is None, f"returns before learning: {short(bad[1], 160) if bad else ''}", f.loc())


def after(ctx, c):
    """The accessors become available by learning."""
    I, st, o = construct(ctx, c)
    learn = c.find("learn")
    v, s, _ = outcome(ctx, c, learn, o, st, I)
    ctx.ob("learning-returns", f"{c.name}.learn", v is not None, "learning never returns", learn.loc())
    if v is None:
        return
    for name, f in sorted(members(c).items()):
        k = [k for k in c.mro() if name in k.methods][0]
        if name in ("load_state", "save_state", "run_epoch") or k.find("get_score") is None and False:
            continue
        r, s2, effs = outcome(ctx, c, f, o, s, I)
        if r is not None:
            why = option_raise(I, o, c, r, s2, effs)
            ctx.ob("available-after-learning", f"{c.name}.{name}", why is None, f"raises after learning: {why}", f.loc())
            continue
        rs = [e for e in effs if e.kind == "raise"]
        ni = bool(rs) and all(e.d.get("name") == "NotImplementedError" for e in rs[-1:])
        ctx.ob("available-after-learning", f"{c.name}.{name}", True if ni else False, "raises even after learning", f.loc())


def option_raise(I, o, c, r, s, effs):
    """A raise that only the constructor options decide: learning left something out for them."""
    defined = {k[2] for k in s.heap if k[0] == "a" and k[1] is o} | {n for k in c.mro() for n in getattr(k, "attrs", {})}
    defined |= {f.name for k in c.mro() for f in k.methods.values()}
    init = c.find("__init__")
    opts = {x.arg for x in init.node.args.posonlyargs + init.node.args.args + init.node.args.kwonlyargs} - {"X_train_all", "X_train", "self"} if init else set()

    def plain(t):
        while t.op == "not":
            t = t.a[0]
        return t.op in ("truth", "isnone") and t.a[0].op == "sym" and t.a[0].a[0] in opts

    def holds(p):
        if p.op in ("or", "and"):
            xs = [y for x in p.a for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T)]
            return (any if p.op == "or" else all)(holds(x) for x in xs)
        if p.op == "not" and p.a[0].op == "isnone" and p.a[0].a[0].op in ("call", "new"):
            return True
        return any(leaf is TRUE and all(plain(x) for x in cs) for cs, leaf in leaves(p)) if p.op == "phi" else plain(p)
    for e in effs:
        if e.kind == "raise" and e.d.get("name") != "NotImplementedError" and all(holds(p) for p in e.path):
            return f"{e.d.get('name')} for some options"
    for cs, leaf in leaves(I.deep(r, s)):
        w = certain_raise(leaf, o, s, defined) or unset(I, leaf, s)
        if w and all(plain(x) for x in cs):
            return w
    return None


def unset(I, v, s):
    """Read of an attribute that no method of a class of this package sets."""
    for x in walk(v):
        if x.op == "attr" and x.a[0].op == "new" and isinstance(x.a[0].a[0], str) and not any(k[0] == "a" and k[1] is x.a[0] and k[2] == x.a[1] for k in s.heap):
            k = I.proj.find_class(x.a[0].a[0])
            if k is None or k.module.is_stub or any(not m.module.name.startswith("irspack.") for m in k.mro()):
                continue
            if k.find("__getattr__") or any(x.a[1] in getattr(m, "attrs", {}) or x.a[1] in m.methods for m in k.mro()):
                continue
            if any(f.name != "load_state" and any(isinstance(n, ast.Attribute) and n.attr == x.a[1] and isinstance(n.ctx, ast.Store) or isinstance(n, ast.Name) and n.id in ("setattr", "__dict__") for n in ast.walk(f.node)) for m in k.mro() for f in m.methods.values()):
                continue
            return f"attribute {x.a[1]} is never set"
    return None


def restoring(ctx, c):
    """Restoring a state needs a saved one."""
    start, load = c.find("start_learning"), c.find("load_state")
    if start is None or load is None:
        return
    I, st, o = construct(ctx, c)
    v, s, _ = outcome(ctx, c, start, o, st, I)
    if v is None:
        ctx.ob("learning-returns", f"{c.name}.start_learning", False, "learning never starts", start.loc())
        return
    v, s2, _ = outcome(ctx, c, load, o, s, I)
    ctx.ob("restore-needs-saved-state", f"{c.name}.load_state", v is None, "restores although nothing was saved", load.loc())


def effect_raise(e, o, st, defined):
    for x in e.d.values():
        for t in (x if isinstance(x, (tuple, list)) else [x]):
            if isinstance(t, T):
                w = certain_raise(t, o, st, defined)
                if w:
                    return w
    return None


def check(ctx):
    for c in concrete(ctx):
        ctx.guard(one, ctx, c)
        ctx.guard(after, ctx, c)
        ctx.guard(restoring, ctx, c)
