"""C21: metric accumulation is complete and order-independent."""
import ast

from ..common import *
from ..norm import norm, eqv
from ..native import NativeInterp
from ..interp import Interp, State
from .c11 import Fan, FanOut, V, demu, root_obj

LEVEL = "proof"
TECHNIQUE = "static analysis: symbolic post-states of the native accumulator's operations and effect analysis of the loops that feed it"
MIN_OBLIGATIONS = 60
EXPLANATION = ("The native metric accumulator is parsed by clang and each of its operations is reduced to its symbolic post-state: every field that counting or updating changes must be the sum of both sides after a merge, "
               "the other object's after a copy or an assignment, and zero after construction; each reported name must be its own field, averages divided by the number of users with ground truth. Every worker loop that "
               "feeds an accumulator must count each claimed user once on every path and update exactly when that user has ground truth. The Python reporting must pair each name and cutoff with its own value.")
ASSUMPTIONS = ["floating-point addition is treated as associative and commutative"]
AVG = ("hit", "ndcg", "recall", "map", "precision")
COUNT = ("total_user", "valid_user")
OTHER = {"appeared_item", "entropy", "gini_index"}
SIZES = ["n_item"]
AL = {}          # reported name -> field that holds it


def F(k):
    return AL.get(k, k)


def post(N, f, c, facts=(), args=None):
    I, st, v = N.run(f, c, facts=facts, args=args)
    return I, st, v


def field(I, st, obj, n):
    k = ("a", obj, n)
    if k in st.heap:
        return strip(I.deep(st.heap[k], st))
    return mk("attr", obj, n)


def accumulators(N):
    """Native classes that merge with another object of their kind."""
    for m, mod in N.mods.items():
        for c in mod.classes.values():
            if "merge" in c.methods and len(c.methods["merge"].node.args.args) == 2:
                yield m, c


def changing(c):
    """Methods that change the object while counting."""
    skip = {"__init__", "__copy_ctor__", "operator_assign", "merge"}
    return [f for n, f in sorted(c.methods.items()) if n not in skip and not f.is_static and not n.startswith("__")]


def native_class(ctx, N, c):
    S = sym("self")
    acc, pos = {}, {}
    for f in changing(c):
        I, st, v = post(N, f, c)
        for k in st.heap:
            if k[0] == "a" and k[1] is S and field(I, st, S, k[2]) is not mk("attr", S, k[2]):
                acc.setdefault(k[2], f)
        for e in I.effects:
            if e.kind == "store" and root_obj(e.obj) is S:
                t = e.obj
                while t.op != "attr":
                    t = t.a[0]
                while t.a[0] is not S:
                    t = t.a[0]
                acc.setdefault(t.a[1], f)
    fields = list(c.annots)
    ctx.saw(c.qual)
    aliases(N, c, fields)
    SIZES[:] = [n for n in fields if n not in acc]
    for n in map(F, AVG + COUNT):
        if n in fields and n not in acc:
            ctx.ob("counted", f"{c.qual}.{n}", False, "no operation ever increases this quantity", c.qual)
    # merge
    f = c.methods["merge"]
    other = sym(f.node.args.args[1].arg)
    I, st, v = post(N, f, c)
    loc = I.effects[0].loc if I.effects else c.qual
    rs = [e for e in I.effects if e.kind == "raise"]
    for n in acc:
        a, b = mk("attr", S, n), mk("attr", other, n)
        x = field(I, st, S, n)
        want = add(a, b)
        ok, why = True, ""
        if not eqv(x, want):
            ok, why = False, f"after a merge it is {short(x, 160)}"
            if x.op == "phi" and eqv(x.a[1], want) or x.op == "phi" and eqv(x.a[2], want):
                cond = x.a[0]
                if any(t is mk("attr", other, F("total_user")) for t in walk(cond)) and not any(t.op == "attr" and t.a[0] is other and t.a[1] != F("total_user") for t in walk(cond)):
                    ok = None
            elif x is a or any(t.op in ("mu", "loopout", "unk", "sumover") for t in walk(x)):
                ok = merged_by_loop(I, n, S, other)
        ctx.ob("merged", f"{c.qual}.{n}", ok, why, loc)
    for n in fields:
        if n not in acc:
            x = field(I, st, S, n)
            ctx.ob("merged", f"{c.qual}.{n}", True if x is mk("attr", S, n) else None, short(x))
    o2 = {k[2] for k in st.heap if k[0] == "a" and k[1] is other and field(I, st, other, k[2]) is not mk("attr", other, k[2])}
    ctx.ob("merged", f"{c.qual} source", not o2, f"merging changes the merged object: {sorted(o2)}", loc)
    # construction
    init = c.methods.get("__init__")
    if init is not None:
        I, st, v = post(N, init, c)
        for n in acc:
            x = field(I, st, S, n)
            z = is_num(x) and x.a[0] == 0 or zeroed(x)
            ctx.ob("starts-empty", f"{c.qual}.{n}", True if z else False if is_num(x) or x.op == "empty" or x is mk("attr", S, n) else None,
                   f"a new accumulator holds {short(x, 120)}", c.qual)
    # copies
    for nm, rule in (("__copy_ctor__", "copied"), ("operator_assign", "assigned")):
        f = c.methods.get(nm)
        if f is None:
            ctx.ob(rule, c.qual, True, "member-wise")
            continue
        other = sym(f.node.args.args[1].arg)
        facts = ()
        if nm == "operator_assign":
            facts = tuple(eq(mk("attr", S, x), mk("attr", other, x)) for x in fields if x not in acc)
        I, st, v = post(N, f, c, facts=facts)
        loc = next((e.loc for e in I.effects if e.kind == "setattr"), c.qual)
        if v is None and nm == "operator_assign" or any(e.kind == "raise" and set(e.path) <= set(facts) for e in I.effects):
            ctx.ob(rule, f"{c.qual} accepts", False, "assigning an accumulator of the same size raises", loc)
            continue
        for n in fields:
            x = field(I, st, S, n)
            want = mk("attr", other, n)
            if nm == "operator_assign" and n not in acc and x is mk("attr", S, n):
                ctx.ob(rule, f"{c.qual}.{n}", True, "not accumulated, equal for equal sizes")
                continue
            if nm == "__copy_ctor__" and n not in acc and not eqv(x, want):
                ctx.ob(rule, f"{c.qual}.{n}", None if x is not mk("attr", S, n) else False, f"{short(x, 120)}", loc)
                continue
            ok = eqv(x, want)
            if not ok and x.op == "phi" and any(eqv(y, want) for y in x.a[1:]) and any(t is S or t is other for t in walk(x.a[0])) and x.a[0].op in ("eq", "is", "not"):
                ok = None        # self-assignment guard
            ctx.ob(rule, f"{c.qual}.{n}", ok, f"a copy holds {short(x, 120)}", loc)
    # reporting
    keys = report(ctx, N, c, acc)
    updates(ctx, N, c, acc)
    return keys, acc


def aliases(N, c, fields):
    """The field behind each reported name: the one of that name, else the one that is reported under it."""
    AL.clear()
    f = c.methods.get("as_dict")
    if f is None:
        return
    I, st, v = post(N, f, c)
    items = dict_items(strip(I.deep(v, st))) if v is not None else None
    for k in COUNT + AVG:
        if k in fields or not items or k not in items:
            continue
        x = items[k]
        if x.op == "div":
            x = x.a[0]
        x = strip(x)
        if x.op == "attr" and x.a[0] is sym("self") and x.a[1] not in AVG + COUNT and x.a[1] not in AL.values():
            AL[k] = x.a[1]


def zeroed(x):
    if x.op == "zeros":
        return True
    return x.op == "store" and x.a[1].op == "slice" and all(y is NONE for y in x.a[1].a) and is_num(x.a[2]) and x.a[2].a[0] == 0


def merged_by_loop(I, n, S, other):
    """item_cnt[i] += other.item_cnt[i] for every i."""
    for e in I.effects:
        if e.kind == "store" and e.obj.op == "attr" and e.obj.a[0] is S and e.obj.a[1] == n and e.loops and e.path:
            return None
        if e.kind == "store" and e.obj.op == "attr" and e.obj.a[0] is S and e.obj.a[1] == n and e.loops:
            i = e.idx
            d = sub(strip(e.val), idx(mk("attr", other, n), i))
            src = [t for t in walk(strip(e.val)) if t.op == "idx" and t.a[0] is mk("attr", other, n)]
            if not src or src[0].a[1] is not i:
                return False
            dom = e.loops[-1].dom
            if dom is not None and dom.op == "range" and is_const(dom.a[0], 0) and is_const(dom.a[2], 1):
                hi = demu(dom.a[1])
                full = [dim(mk("attr", x, n), 0) for x in (S, other)] + [mk("attr", x, y) for x in (S, other) for y in SIZES] + [length(mk("attr", x, n)) for x in (S, other)]
                return True if any(eqv(hi, h) for h in full) else None
            return None
    return False


def report(ctx, N, c, acc):
    S = sym("self")
    f = c.methods.get("as_dict")
    if f is None:
        return None
    I, st, v = post(N, f, c)
    d = strip(I.deep(v, st)) if v is not None else NONE
    loc = I.effects[-1].loc if I.effects else c.qual
    items = dict_items(d)
    if items is None:
        ctx.ob("reported", c.qual, None, short(d))
        return None
    valid = mk("attr", S, F("valid_user"))
    for k in AVG:
        if k not in items:
            ctx.ob("reported", f"{c.qual} {k}", False, "not reported", loc)
            continue
        x = norm(subst_fact(items[k], lt(ZERO, valid)))
        ok, why = None, short(x, 160)
        num = mk("attr", S, F(k))
        if eqv(x, mk("div", num, valid)):
            ok = True
        elif x.op == "div" and x.a[0].op == "attr" and x.a[0].a[0] is S and x.a[0].a[1] != F(k):
            ok, why = False, f"{k} reports {x.a[0].a[1]}"
        elif x.op == "div" and eqv(x.a[0], num):
            fs = {t.a[1] for t in walk(x.a[1]) if t.op == "attr" and t.a[0] is S}
            ok = False if fs != {F("valid_user")} or x.a[1].op in ("lin", "max", "min", "attr") else None
            if ok is False and x.a[1].op == "max" and set(x.a[1].a[0]) == {valid, ONE}:
                ok = True
            why = f"averaged over {short(x.a[1], 100)} instead of the users with ground truth"
        elif x.op == "floordiv" or eqv(x, num):
            ok = False
        elif not contains(x, num):
            ok = False
        ctx.ob("reported", f"{c.qual} {k}", ok, why, loc)
        # no users with ground truth: the sum is zero and stays finite
        y = norm(subst(assume(items[k], eq(valid, ZERO), True), {valid: ZERO}))
        y = norm(assume(y, lt(ZERO, ZERO), False))
        nan = y.op == "div" and is_num(y.a[1]) and y.a[1].a[0] == 0 or y.op == "mul" and any(t.op == "pow" and is_num(t.a[0]) and t.a[0].a[0] == 0 for t in walk(y))
        ctx.ob("finite", f"{c.qual} {k}", not nan, "not a number when no user has ground truth", loc)
    for k in COUNT:
        if k not in items:
            ctx.ob("reported", f"{c.qual} {k}", False, "not reported", loc)
            continue
        x = norm(items[k])
        ctx.ob("reported", f"{c.qual} {k}", eqv(x, mk("attr", S, F(k))) or (False if x.op in ("attr", "const", "lin") else None), short(x, 120), loc)
    for k in OTHER:
        if k not in items:
            ctx.ob("reported", f"{c.qual} {k}", False, "not reported", loc)
            continue
        fs = {t.a[1] for t in walk(items[k]) if t.op == "attr" and t.a[0] is S}
        ctx.ob("reported", f"{c.qual} {k}", True if fs & set(acc) and not fs & set(map(F, AVG + COUNT)) else False, f"computed from {sorted(fs)}", loc)
    return set(items)


def dict_items(d):
    if d.op == "dict":
        out = {}
        for k, v in d.a[0]:
            if k.op != "const":
                return None
            out[k.a[0]] = v
        return out
    if d.op == "store":
        r = dict_items(d.a[0])
        if r is None or d.a[1].op != "const":
            return None
        r = dict(r)
        r[d.a[1].a[0]] = d.a[2]
        return r
    return None


def subst_fact(t, fact):
    return assume(t, fact, True)


def updates(ctx, N, c, acc):
    """One user's update: each quantity once."""
    S = sym("self")
    for f in changing(c):
        I, st, v = post(N, f, c)
        touched = {k[2] for k in st.heap if k[0] == "a" and k[1] is S and field(I, st, S, k[2]) is not mk("attr", S, k[2])}
        if not touched and not any(e.kind == "store" and root_obj(e.obj) is S for e in I.effects):
            continue
        loc = next((e.loc for e in I.effects if e.kind in ("setattr", "store")), c.qual)
        raised = False
        for n in sorted(touched):
            a = mk("attr", S, n)
            x = field(I, st, S, n)
            deltas = []
            over = None
            for cs, leaf in hoist(x):
                d = sub(leaf, a)
                if contains(d, a):
                    over = leaf
                deltas.append((cs, d))
            if over is not None:
                opaque = any(t.op in ("mu", "loopout") and contains(t, a) for t in walk(over))
                if n in map(F, COUNT) or n == F("hit"):
                    ctx.ob("once", f"{c.qual}.{f.name} {n}", False, f"{n} becomes {short(over, 120)}", loc)
                else:
                    ctx.ob("once", f"{c.qual}.{f.name} {n}", None if opaque else False, f"{n} becomes {short(over, 120)}: earlier users are lost", loc)
                continue
            if n in map(F, COUNT):
                ok = all(is_const(d, 1) for _, d in deltas)
                ctx.ob("once", f"{c.qual}.{f.name} {n}", ok, "; ".join(short(d, 60) for _, d in deltas), loc)
            elif n == F("hit"):
                vals = {d.a[0] if is_num(d) else None for _, d in deltas}
                ok = False if None in vals and len(vals - {None, 0}) == 0 and any(t.op in ("loopout", "mu", "sumover", "len") for _, d in deltas for t in walk(d)) else (vals <= {0, 1} and 1 in vals if None not in vals else None)
                ctx.ob("once", f"{c.qual}.{f.name} {n}", ok, f"a user adds {', '.join(short(d, 60) for _, d in deltas)}", loc)
            elif n in map(F, AVG):
                ctx.ob("once", f"{c.qual}.{f.name} {n}", True)
        roles(ctx, c, f, I, st, touched, loc)
        stores = [e for e in I.effects if e.kind == "store" and root_obj(e.obj) is S]
        for e in stores:
            t = e.obj
            if not (t.op == "attr" and t.a[0] is S):
                continue
            old = [y for y in walk(strip(e.val)) if y.op == "idx"]
            inc = e.aug or any(contains(y, strip(e.idx)) for y in old)
            lp = e.loops[-1] if e.loops else None
            ok, why = (None, "") if lp is None else (True, "")
            if not inc:
                ok, why = False, "an item's count is overwritten"
            elif len(e.loops) > 1:
                ok, why = False, "an item is counted more than once per user"
            elif lp is not None and (lp.breaks or lp.returns):
                ok, why = False, "counting stops early"
            else:
                extra = [p for p in e.path if not emptiness(p)]
                if extra:
                    ok, why = False, f"an item is counted only when {short(extra[0], 100)}"
            ctx.ob("once", f"{c.qual}.{f.name} {t.a[1]}", ok, why, e.loc)


def emptiness(p):
    """Condition that only asks whether a collection is empty."""
    for x in walk(p):
        if x.op not in ("not", "eq", "len", "const", "sym", "attr", "lt", "le", "idx", "call", "ext", "tuple", "comp", "elem", "range", "conv", "set"):
            return False
    return any(x.op == "len" for x in walk(p)) and any(is_num(x) for x in walk(p))


def roles(ctx, c, f, I, st, touched, loc):
    """What each average accumulates is of its own kind."""
    S = sym("self")
    ps = [a.arg for a in f.node.args.args][1:]
    if not set(map(F, AVG)) <= touched or len(ps) < 2:
        return
    recs, gt = sym(ps[0]), sym(ps[1])

    def delta(n):
        out = [sub(l, mk("attr", S, F(n))) for _, l in leaves(field(I, st, S, F(n)))]
        return [d for d in out if not is_num(d)]

    def uses(t):
        return any(x.op == "attr" and x.a[0] is S and x.a[1] not in touched for x in walk(t))
    for n in ("ndcg", "precision", "recall", "map"):
        for d in delta(n):
            disc = uses(d)
            ok, why = True, ""
            if (n == "ndcg") != disc:
                ok, why = False, f"{n} accumulates {short(d, 120)}"
            elif n == "precision" and d.op == "div":
                if any(x is gt for x in walk(d.a[1])):
                    ok, why = False, f"precision is divided by {short(d.a[1], 80)}"
                elif d.op == "div" and not contains(d.a[1], recs):
                    ok, why = None, short(d.a[1])
            elif n in ("recall", "map") and d.op == "div" and not any(x is gt for x in walk(d.a[1])):
                ok, why = (False if any(x is recs for x in walk(d.a[1])) else None), f"{n} is divided by {short(d.a[1], 80)}"
            elif d.op == "floordiv":
                ok, why = False, f"{n} is truncated to an integer"
            ctx.ob("own-role", f"{c.qual}.{f.name} {n}", ok, why, loc)


# ---------------------------------------------------------------- the loops that feed an accumulator

def feeding(ctx, N, classes):
    fan = Fan(N)
    quals = {c.qual for c in classes}
    for m, f, c in fan.entries():
        if f.qual not in fan.runs:
            continue
        I, st, v = fan.runs[f.qual]
        for e in [x for x in I.effects if x.kind == "spawn"]:
            o = FanOut(Mute(ctx), fan, f, I, st, v, e)
            sets = [x for x in o.W if x.kind == "setattr" and x.obj.op == "new" and x.obj.a[0] in quals and x.name in [*map(F, COUNT)]]
            if not sets:
                continue
            ctx.saw(f.qual)
            if o.cursor() is not True:
                ctx.ob("each-user", f"{f.qual}", None, "not a cursor loop")
                continue
            ctx.guard(one_loop, ctx, f, o, sets)


class Mute:
    def __init__(self, *a):
        pass

    def ob(self, *a, **k):
        return None


def one_loop(ctx, f, o, sets):
    name = f.qual
    inside = [e for e in sets if o.L in e.loops]
    base = len(o.sp.path)

    def extra(e):
        out = []
        for c in e.path:
            if c in o.sp.path:
                continue
            if o.bound(not_(o.vs(c))) is not None:
                continue
            out.append(c)
        return out
    for n in COUNT:
        es = [e for e in inside if e.name == F(n)]
        if not es:
            ctx.ob("each-user", f"{name} {n}", False, f"no user increases {n}", o.loc)
            continue
        deep = [e for e in es if e.loops[-1] is not o.L]
        if deep:
            ctx.ob("each-user", f"{name} {n}", False, f"{n} is increased inside an inner loop", deep[0].loc)
            continue
        for a in es:
            for b in es:
                if a is not b and set(a.path) <= set(b.path):
                    ctx.ob("each-user", f"{name} {n}", False, f"a user increases {n} twice", b.loc)
        if len(es) == 1:
            x = extra(es[0])
            if n == "total_user":
                ctx.ob("each-user", f"{name} {n}", not x, f"a user is counted only when {short(x[0], 120)}" if x else "", es[0].loc)
            else:
                valid_users(ctx, name, o, es[0], x)
        else:
            ctx.ob("each-user", f"{name} {n}", None, f"{len(es)} places")


def valid_users(ctx, name, o, e, conds):
    # the ground truth handed to the update
    ups = [x for x in o.W if x.kind == "inline" and x.func.cls is not None and x.func.cls is not getattr(o.f, "cls", None) and x.func.qual in e.stack and len(x.bound) >= 3]
    gts = []
    for x in ups:
        ps = list(x.bound)
        gts.append((x.bound[ps[2]], x.bound[ps[1]]))
    nonempty = [c for c in conds if emptiness_of(c) is not None]
    other = [c for c in conds if emptiness_of(c) is None]
    if other:
        ctx.ob("valid-users", name, False if not any(x.op in ("unk",) for c in other for x in walk(c)) else None, f"a user with ground truth is left out unless {short(other[0], 120)}", e.loc)
        return
    if not nonempty:
        ctx.ob("valid-users", name, False, "users without ground truth are averaged in", e.loc)
        return
    if not gts:
        ctx.ob("valid-users", name, None, "ground truth argument not found")
        return
    g, r = gts[0]
    if g.op == "new":
        # a set filled just before: what it is filled from
        g = mk("tuple", g, *[t for x in o.W if getattr(x, "obj", None) is g for t in [getattr(x, "value", None)] + list(getattr(x, "args", None) or []) if isinstance(t, T)])
    ok, why = None, ""
    for c in nonempty:
        x = emptiness_of(c)
        if related(x, g, o):
            ok = True
        elif related(x, r, o):
            ok, why = False, "users without recommendations are left out of the averages"
            break
    ctx.ob("valid-users", name, ok, why or short(nonempty[0], 160), e.loc)


def emptiness_of(c):
    """The collection a condition requires to be non-empty."""
    neg_ = False
    x = c
    while x.op == "not":
        neg_ = not neg_
        x = x.a[0]
    if x.op == "eq" and neg_:
        ln = [y for y in x.a if y.op == "len"]
        if ln and any(is_num(y) and y.a[0] == 0 for y in x.a):
            return ln[0].a[0]
        return None
    if x.op == "lt" and not neg_ and is_const(x.a[0], 0) and x.a[1].op == "len":
        return x.a[1].a[0]
    if x.op == "le" and neg_ and x.a[0].op == "len" and is_const(x.a[1], 0):
        return x.a[0].a[0]
    if x.op == "truth" and not neg_:
        return x.a[0]
    return None


def roots(t, o):
    t = strip(t)
    if t.op == "new":
        t2 = o.st.heap.get(("c", t))
        t = strip(t2) if t2 is not None else t
    return {x for x in walk(t) if x.op == "sym" and x.a[0] not in ("self",)} | {x for x in walk(t) if x.op == "attr" and x.a[0].op == "sym" and x.a[1] in ("X_as_set", "X_")}


def related(x, g, o):
    if x is g or contains(strip(x), strip(g)):
        return True
    a, b = roots(x, o), roots(g, o)
    return bool(a and b and (a <= b or b <= a))


# ---------------------------------------------------------------- Python reporting

def lists_metrics(g):
    names = [a.arg for a in g.node.args.args]
    r = ast.unparse(g.node.returns) if g.node.returns is not None else ""
    return "cutoffs" in names and ("List[Dict" in r or "list[dict" in r.lower() or g.name.endswith("as_list"))


def python_side(ctx, keys):
    mod = ctx.proj.modules.get("irspack.evaluation.evaluator")
    if mod is None:
        return
    for c in mod.classes.values():
        for n in sorted({m for k in c.mro() for m in k.methods}):
            f = c.find(n)
            if f is None or n.startswith("__") or f.is_stub:
                continue
            if n in ("get_scores", "get_scores_from_score_matrix", "get_scores_from_score_chunks"):
                ctx.guard(many, ctx, c, f, keys)
            elif n in ("get_score", "get_score_from_score_matrix", "get_score_from_score_chunks"):
                ctx.guard(single, ctx, c, f)
            elif n == "get_target_score":
                ctx.guard(target, ctx, c, f)
            elif n == "_metrics_as_dict":
                ctx.guard(coverage, ctx, c, f)
    if keys:
        tm = mod.classes.get("TargetMetric")
        if tm is not None:
            names = [t.id for s in tm.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
            for n in names:
                ctx.ob("target-names", f"TargetMetric.{n}", n in keys, "no reported metric of that name", f"{mod.path if hasattr(mod, 'path') else mod.name}")


def run(ctx, f, c):
    I = Interp(ctx.proj, inline=lambda g: not lists_metrics(g))
    return analyse(ctx, f, cls=c, interp=I)


def source(x):
    """The list-of-metrics call a value comes from, with its cutoffs argument."""
    if x.op == "call" and x.a[0].op == "attr":
        kw = dict(x.a[2]) if x.a[2] else {}
        return x, kw.get("cutoffs", x.a[1][-1] if x.a[1] else None)
    return None, None


def many(ctx, c, f, keys):
    I, st, v = run(ctx, f, c)
    where = f"{c.name}.{f.name}"
    stores = [e for e in I.effects if e.kind == "store" and e.loops and any(x.op == "fstr" or x.op == "const" for x in walk(e.idx))]
    cut = sym("cutoffs")
    seen = set()
    for e in stores:
        k, val = strip(e.idx), strip(e.val)
        name, cu = key_of(k)
        if name is None:
            ctx.ob("labelled", where, None, short(k))
            continue
        seen.add(name)
        ok, why = None, short(val, 160)
        if val.op == "idx" and val.a[1].op == "const":
            inner = val.a[0]
            ok = True
            if val.a[1].a[0] != name:
                ok, why = False, f"{name} reports {val.a[1].a[0]}"
            elif inner.op == "idx":
                s, cs = source(inner.a[0])
                i = inner.a[1]
                if s is None:
                    ok = None
                else:
                    dom = cu.a[0] if cu.op == "elem" else None
                    if dom is None:
                        ok = None
                    elif cs is not None and not eqv(cs, cut):
                        ok, why = (False, f"metrics of {short(cs, 60)} reported for cutoffs {short(dom, 60)}") if cs.op != "call" else (None, why)
                    elif not eqv(dom, cut):
                        ok, why = False, f"labelled with {short(cu, 60)}"
                    elif i is not pos(dom, cu.a[1]) and i.op in ("pos", "const", "lin", "elem"):
                        ok, why = False, f"the metrics at {short(i, 60)} are labelled with the cutoff at {short(pos(dom, cu.a[1]), 60)}"
                    elif i is not pos(dom, cu.a[1]):
                        ok = None
            elif inner.op == "elem" and source(inner.a[0])[0] is not None:
                ok, why = None, short(inner)
        elif val.op in ("lin", "div", "floordiv", "round") or val.op == "call" and val.a[0].op in ("ext", "builtin") and str(val.a[0].a[0]).split(".")[-1] in ("round", "int", "abs", "floor"):
            inside = [t for t in walk(val) if t.op == "idx" and t.a[1].op == "const" and t.a[1].a[0] == name]
            ok, why = (False, f"{name} reports {short(val, 100)}") if inside else (None, why)
        ctx.ob("labelled", f"{where} {name}", ok, why, e.loc)
    if stores:
        miss = [n for n in AVG if n not in seen]
        ctx.ob("labelled", f"{where} complete", not miss, f"not reported: {miss}", stores[0].loc)
        if keys:
            unk = [n for n in seen if n not in keys and n != "catalog_coverage"]
            ctx.ob("labelled", f"{where} known", not unk, f"no such metric: {unk}", stores[0].loc)
    else:
        ctx.ob("labelled", where, None, "no stores found")


def key_of(k):
    """name and cutoff term of f"{name}@{cutoff}" """
    if k.op == "fstr":
        parts = list(k.a[0])
        txt = ""
        rest = []
        for p in parts:
            s = p if isinstance(p, str) else p.a[0] if isinstance(p, T) and p.op == "const" and isinstance(p.a[0], str) else None
            if s is not None and not rest:
                txt += s
            else:
                rest.append(p)
        if txt.endswith("@") and len(rest) == 1 and isinstance(rest[0], T):
            return txt[:-1], rest[0]
    return None, None


def single(ctx, c, f):
    I, st, v = run(ctx, f, c)
    x = value(I, st, v) if v is not None else NONE
    where = f"{c.name}.{f.name}"
    ok, why = None, short(x, 160)
    if x.op == "idx":
        s, cs = source(x.a[0])
        if s is not None and cs is not None:
            cs = norm(cs)
            if cs.op == "list" and len(cs.a[0]) == 1:
                ok = eqv(cs.a[0][0], mk("attr", sym("self"), "cutoff")) and is_const(x.a[1], 0)
            elif cs.op == "list" and is_num(x.a[1]) and abs(x.a[1].a[0]) < len(cs.a[0]):
                ok = eqv(cs.a[0][x.a[1].a[0]], mk("attr", sym("self"), "cutoff"))
    ctx.ob("default-cutoff", where, ok, why, where)


def target(ctx, c, f):
    I, st, v = analyse(ctx, f, cls=c, interp=Interp(ctx.proj, inline=lambda g: g.name != "get_score"))
    x = value(I, st, v)
    want = mk("attr", mk("attr", sym("self"), "target_metric"), "name")
    ok = None
    if x.op == "idx" and x.a[0].op == "call" and x.a[0].a[0].op == "attr" and x.a[0].a[0].a[1] == "get_score":
        ok = eqv(x.a[1], want)
    ctx.ob("target", f"{c.name}.{f.name}", ok, short(x, 160))


def coverage(ctx, c, f):
    I, st, v = run(ctx, f, c)
    m = sym([a.arg for a in f.node.args.args][1])
    where = f"{c.name}.{f.name}"
    for e in [e for e in I.effects if e.kind == "store"]:
        k, val = strip(e.idx), norm(e.val)
        if k.op != "const":
            continue
        if k.a[0] != "catalog_coverage":
            src = val
            same_ = val.op == "idx" and val.a[1].op == "const" and val.a[1].a[0] == k.a[0]
            ctx.ob("passed-through", f"{where} {k.a[0]}", True if same_ else False, f"{k.a[0]} is replaced by {short(val, 100)}", e.loc)
        elif val.op == "div":
            ok = val.a[0].op == "idx" and is_const(val.a[0].a[1], "appeared_item") and eqv(val.a[1], mk("attr", sym("self"), "n_recommendable_items"))
            ctx.ob("coverage", where, ok, f"catalog_coverage is {short(val, 120)}", e.loc)
        elif val.op == "const":
            ok = isinstance(val.a[0], float) and val.a[0] != val.a[0]
            cond = [p for p in e.path]
            ctx.ob("coverage", f"{where} none", True if ok else None, short(val), e.loc)
        else:
            ctx.ob("coverage", where, None, short(val))


def check(ctx):
    N = ctx.native()
    keys = set()
    classes = []
    for m, c in accumulators(N):
        classes.append(c)
        r = ctx.guard(native_class, ctx, N, c)
        if r:
            keys |= r[0] or set()
    ctx.guard(feeding, ctx, N, classes)
    python_side(ctx, keys)
