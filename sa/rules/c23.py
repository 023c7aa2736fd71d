"""C23: an evaluator uses its settings, item restrictions and cutoffs as given."""
from ..common import *
from ..norm import norm, eqv, opaque_in

LEVEL = "proof"
TECHNIQUE = "static analysis: symbolic constructor summary (settings to fields to native arguments) and value shape of the reported dictionary"
MIN_OBLIGATIONS = 60
EXPLANATION = ("The constructors are summarised symbolically for no restriction, a common list, per-user lists and a per-user matrix; the native evaluator must be built from the ground truth and exactly that "
               "restriction, every setting must be kept in the field that the evaluation reads, the native calls must get the recall mode, and catalogue coverage must be appeared items over distinct recommendable items.")
ASSUMPTIONS = ["row.nonzero()[1] of one sparse row are the columns of that row"]
MOD = "irspack.evaluation.evaluator."
S = sym
FIELDS = ("cutoff", "recall_with_cutoff", "mb_size", "offset")


def strip_lists(t):
    """list(x), [i for i in x], [int(i) for i in x] are x."""
    def go(x):
        x = rebuild(x, go)
        if x.op == "conv" and x.a[0] in ("list", "tuple", "array", "astype"):
            return x.a[1]
        if x.op in ("toint",):
            return x.a[0]
        if x.op == "comp" and x.a[0] in ("list", "gen") and len(x.a[2]) == 1 and not x.a[3] and x.a[1] in (elem(x.a[2][0], 0), elem(x.a[2][0], 1)):
            return x.a[2][0]
        return x
    return go(t)


def columns_of_rows(t, m):
    """One list per row of the sparse matrix m with that row's nonzero columns -> True, False or None."""
    if t.op == "comp" and len(t.a[2]) == 1 and t.a[2][0] is m:
        row = elem(m)
        body = strip_lists(t.a[1])
        if t.a[3]:
            return False
        if body is mk("nzidx", row, 1):
            return True
        if body is mk("nzidx", row, 0):
            return False
        if body.op == "attr" and body.a[0] is row and body.a[1] == "indices":
            return True
        if not opaque_in(body):
            return False
    if t.op == "comp" and len(t.a[2]) == 1 and not t.a[3] and any(x.op == "attr" and x.a[0] is m and x.a[1] == "indices" for x in walk(t)):
        body, d = strip_lists(t.a[1]), t.a[2][0]
        if d is rng(ZERO, dim(m, 0), ONE) and body.op == "idx" and body.a[0] is mk("attr", m, "indices") and body.a[1].op == "slice":
            ptr, e = mk("attr", m, "indptr"), elem(d)
            lo, hi, step = body.a[1].a
            if step is NONE:
                return lo is idx(ptr, e) and hi is idx(ptr, add(e, ONE))
        return "unknown"
    return None


def built(ctx, c, args, facts):
    I, st, o = construct(ctx, c, args, facts=[not_(isnone(a)) for a in args.values() if a is not NONE] + facts)
    field = lambda n: st.heap.get(("a", o, n))
    return I, st, o, field


def check(ctx):
    for cn in ("Evaluator", "EvaluatorWithColdUser"):
        c = ctx.proj.cls(MOD + cn)
        ctx.anchor(c, cn)
        for kind in ("none", "common", "lists", "matrix"):
            ctx.guard(one, ctx, c, kind)
        ctx.guard(reported, ctx, c)


def one(ctx, c, kind):
    per = S("per_user_recommendable_items")
    sparse = [x for x in ()]
    args = {"recommendable_items": S("recommendable_items") if kind == "common" else NONE, "per_user_recommendable_items": per if kind in ("lists", "matrix") else NONE}
    I, st, o, field = built(ctx, c, args, [])
    init = c.find("__init__")
    q, loc = f"{c.name} [{kind}]", init.loc()
    val = lambda t: norm(I.deep(t, st))
    issp = {mk("truth", x) for v in st.heap.values() for w in [val(v)] for x in walk(w) if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].split(".")[-1] in ("issparse", "isspmatrix")}
    isinst = {x for v in st.heap.values() for w in [val(v)] for x in walk(w) if x.op == "isinst" and x.a[0] is per}

    def pick(t):
        """The alternative for this kind of argument."""
        if kind in ("lists", "matrix"):
            t = subst(t, {x: TRUE if kind == "matrix" else FALSE for x in issp})
            t = norm(rebuild_phi(t))
        return t
    params = set(init.params())
    for n in FIELDS:
        if n not in params:
            continue
        v = field(n)
        w = val(v) if v is not None else None
        ctx.ob("setting-kept", f"{q} {n}", None if w is None else (True if strip_lists(w) is S(n) else (None if opaque_in(w) else False)), f"self.{n} is {short(w, 100) if w is not None else 'unset'}", loc)
    v = field("target_metric")
    if v is not None:
        w = val(v)
        ok = w.op == "idx" and w.a[0].op == "cls" and w.a[1] is S("target_metric")
        ctx.ob("setting-kept", f"{q} target_metric", True if ok else (None if contains(w, S("target_metric")) else False), f"self.target_metric is {short(w, 100)}", loc)
    core = [e for e in I.effects if e.kind == "new" and e.cls.name == "EvaluatorCore"]
    if not core:
        ctx.ob("restriction", q, None, "no native evaluator", loc)
        return
    gt = dim(S("ground_truth"), 1)
    for e in core:
        kw = e.kwargs
        g = val(kw["ground_truth"]) if "ground_truth" in kw else None
        ctx.ob("own-ground-truth", q, None if g is None or opaque_in(g) and g is not S("ground_truth") else g is S("ground_truth"), f"native evaluator is built from {short(g, 100) if g is not None else ''}", e.loc)
        if "recommendable" not in kw:
            continue
        r = pick(val(kw["recommendable"]))
        want = {"none": "no restriction", "common": "the common list", "lists": "each user's own list", "matrix": "the nonzero columns of each user's row"}[kind]
        if kind == "none":
            ok = True if r is mk("list", ()) else (None if opaque_in(r) else False)
        elif kind == "common":
            ok = True if strip_lists(r) is mk("list", (S("recommendable_items"),)) else (False if not loose(r) else None)
        elif kind == "lists":
            ok = True if strip_lists(r) is per or deep_copy(r, per) else (False if not loose(r) else None)
        else:
            ok = columns_of_rows(r, per)
            if ok is None and not loose(r):
                ok = False
            ok = None if ok == "unknown" else ok
        ctx.ob("restriction", q, ok, f"native evaluator gets {short(r, 160)} instead of {want}", e.loc)
        n = field("n_recommendable_items")
        if n is not None:
            coverage_base(ctx, q, pick(val(n)), r, kind, gt, e.loc)
    if kind in ("lists", "matrix"):
        R = norm(pick(val(core[0].kwargs["recommendable"])))
        conds = [norm(pick(norm(p))) for p in st.path]
        rows = {mk("len", R), dim(R, 0), mk("len", per), dim(per, 0), length(R)}
        U = dim(S("ground_truth"), 0)
        rel = [p for p in conds if any(contains(p, x) for x in rows) and contains(p, U)]
        ctx.ob("lists-per-user", q, None if not rel else judge_len(rel, rows, U), f"accepted when {'; '.join(short(p, 80) for p in rel)}", loc) if rel else \
            ctx.ob("lists-per-user", q, False if not any(opaque_in(p) and contains(p, per) for p in conds) else None, "a wrong number of per-user lists is accepted", loc)


def judge_len(rel, rows, U):
    from .c14 import ev, Unknown
    for n, u in ((3, 3), (2, 3), (4, 3), (0, 3), (1, 3), (1, 1)):
        env = {x: n for x in rows}
        env[U] = u
        try:
            if all(ev(p, env) for p in rel) != (n == u):
                return False
        except Unknown:
            return None
    return True


def rebuild_phi(t):
    def go(x):
        x = rebuild(x, go)
        if x.op == "phi" and x.a[0] in (TRUE, FALSE):
            return x.a[1] if x.a[0] is TRUE else x.a[2]
        return x
    return go(t)


def loose(t):
    """Contains something the analysis has no value for."""
    return any(x.op == "call" and not (x.a[0].op == "ext" and x.a[0].a[0].split(".")[-1] in ("sorted", "set")) or x.op in ("mu", "loopout", "last", "mutated") for x in walk(t))


def deep_copy(t, per):
    if t.op == "comp" and t.a[0] in ("list", "gen") and len(t.a[2]) == 1 and t.a[2][0] is per and not t.a[3]:
        return strip_lists(t.a[1]) in (elem(per, 0), elem(per, 1))
    return False


def flat_set(t, r):
    """{item for items in r for item in items}, set().union(*r), ..."""
    if t.op == "conv" and t.a[0] == "set":
        t = mk("comp", "set", t.a[1].a[1], t.a[1].a[2], t.a[1].a[3]) if t.a[1].op == "comp" else t
    if t.op == "comp" and t.a[0] in ("set",):
        doms = t.a[2]
        if len(doms) == 2 and not t.a[3]:
            return strip_lists(doms[0]) is strip_lists(r) or doms[0] is r
    return None


def coverage_base(ctx, q, n, r, kind, gt, loc):
    """Number of recommendable items."""
    text = f"number of recommendable items is {short(n, 160)}"
    items = S("recommendable_items")
    if kind == "none":
        ctx.ob("recommendable-count", q, True if n is gt else (None if opaque_in(n) else False), text, loc)
        return
    if kind == "common":
        n = strip_lists(n)
        ok = n is mk("len", items) or n.op == "len" and n.a[0].op in ("conv", "comp", "setof", "call") and contains(n.a[0], items)
        ctx.ob("recommendable-count", q, True if ok else (None if opaque_in(n) else False), text, loc)
        return
    for cs, x in leaves(n):
        one_list = any(c.op == "eq" and is_const(c.a[1], 1) or c.op == "eq" and is_const(c.a[0], 1) for c in cs)
        empty = any(c.op == "not" and c.a[0].op == "truth" for c in cs)
        if x is gt:
            ok = True if empty else False
        elif x.op == "len" and x.a[0].op == "idx" and is_const(x.a[0].a[1], 0):
            ok = True if one_list else False
        elif x.op == "len" and x.a[0].op == "comp" and x.a[0].a[0] in ("list", "gen"):
            ok = False      # counts an item once per user
        elif x.op == "len" and x.a[0] is r:
            ok = False
        elif x.op == "len" and flat_set(x.a[0], r):
            ok = True
        elif x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.sum":
            ok = False
        else:
            ok = None
        ctx.ob("recommendable-count", q, ok, f"number of recommendable items is {short(x, 160)}{' for a single list' if one_list else ''}{' without restriction' if empty else ''}", loc)


def reported(ctx, c):
    I, st, o = construct(ctx, c)
    N = S("n_recommendable_items")
    for k in list(st.heap):
        if k[0] == "a" and k[1] is o and k[2] in ("n_recommendable_items", "recall_with_cutoff"):
            st.heap[k] = S(k[2])
    n0 = len(I.effects)
    f = c.find("get_score")
    st.path = ()
    I, st, v = analyse(ctx, f, c, o, st=st, interp=I)
    effs = I.effects[n0:]
    q, loc = f"{c.name}.get_score", f.loc()
    n = 0
    for e in effs:
        if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1].startswith("get_metrics_f"):
            r = e.kwargs.get("recall_with_cutoff")
            n += 1
            if r is not None:
                r = norm(I.deep(r, st))
                ctx.ob("recall-mode", f"{q} {e.fn.a[1]}", r is S("recall_with_cutoff") or (None if opaque_in(r) else False), f"native evaluation gets {short(r, 80)}", e.loc)
            g = e.kwargs.get("n_threads")
    ctx.ob("recall-mode", q, True if n else None, "no native evaluation", loc)
    if v is None:
        return
    val = norm(I.deep(v, st))
    stores = [x for x in walk(val) if x.op == "store" and x.a[1] is const("catalog_coverage")]
    if not stores:
        ctx.ob("coverage", q, None if opaque_in(val) and not any(x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "as_dict" for x in walk(val)) else False, "catalogue coverage is not reported", loc)
    for x in stores:
        for cs, w in leaves(x.a[2]):
            if is_nan(w):
                bad = any(c_ is mk("truth", N) for c_ in cs)
                ctx.ob("coverage", q, not bad, "coverage is nan although there are recommendable items", loc)
                continue
            ok = None
            if w.op == "div":
                a, b = w.a[0], w.a[1]
                own = a.op == "idx" and a.a[1] is const("appeared_item")
                ok = own and b is N
                if not ok and (opaque_in(b) and not contains(b, N)):
                    ok = None
            elif w is N or w.op in ("idx", "mul", "lin", "const"):
                ok = False
            if any(c_ is not_(mk("truth", N)) for c_ in cs):
                ok = False
            ctx.ob("coverage", q, ok, f"catalogue coverage is {short(w, 160)}", loc)


def is_nan(w):
    if w.op == "const":
        return isinstance(w.a[0], float) and w.a[0] != w.a[0]
    return w.op == "ext" and w.a[0] in ("numpy.nan", "math.nan", "numpy.NaN") or \
        (w.op in ("tofloat",) and is_const(w.a[0], "nan")) or (w.op == "call" and w.a[0].op == "ext" and w.a[0].a[0] == "builtins.float" and len(w.a[1]) == 1 and is_const(w.a[1][0], "nan"))
