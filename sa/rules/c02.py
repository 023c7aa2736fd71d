"""C02: every evaluated user contributes once per cutoff, aligned with its own truth and mask rows."""
from ..common import *
from ..norm import norm, _norm

LEVEL = "proof"
MIN_OBLIGATIONS = 60
EXPLANATION = ("Both evaluator classes are constructed symbolically; every public scoring method is analysed with all helper "
               "methods inlined.  For each native get_metrics call on every path: the score rows, the mask rows and the "
               "ground-truth offset are linear terms over one chunk index and must denote the same users, the chunk ranges "
               "must tile [0, n_users), no contribution may be skipped depending on the chunk, and the merged accumulators "
               "must be the reported ones under the right cutoff and metric name. In the native core, every worker's reads of scores, truth and recommendable lists must be at the row it claimed (plus the offset), reused buffers must be emptied per user, and exactly the best cutoff unmasked items, in descending order, must be handed on.")
ASSUMPTIONS = ["the batch size is a positive integer (it is the step of a range)",
               "numpy/scipy slicing clamps at the number of rows",
               "the native evaluator adds the passed offset to the row index of the score block (decided by C21)"]

MOD = "irspack.evaluation.evaluator."
METHODS = {
    "get_target_score": "model", "get_score": "model", "get_scores": "model",
    "get_score_from_score_matrix": "matrix", "get_scores_from_score_matrix": "matrix",
    "get_score_from_score_chunks": "chunks", "get_scores_from_score_chunks": "chunks",
}


def check(ctx):
    for cn in ("Evaluator", "EvaluatorWithColdUser"):
        c = ctx.proj.cls(MOD + cn)
        for m, kind in METHODS.items():
            f = c.find(m)
            ctx.anchor(f, f"{cn}.{m}")
            for masked in (True, False):
                for cold in ((True, False) if cn != "Evaluator" else (False,)):
                    ctx.guard(one, ctx, c, f, kind, masked, cold)
    from .c02_native import native
    ctx.guard(native, ctx)


GIVEN = {}


def one(ctx, c, f, kind, masked, cold):
    where = f"{c.name}.{f.name}[mask {'given' if masked else 'default'}{', cold items' if cold else ''}]"
    M = sym("masked_interactions") if masked else NONE
    args = {"masked_interactions": M}
    if c.name != "Evaluator":
        args["cold_item_features"] = sym("cold_item_features") if cold else NONE
    given = [not_(isnone(a)) for a in args.values() if a is not NONE]
    I, st, o = construct(ctx, c, args, facts=given)
    for k in list(st.heap):
        if k[0] == "a" and k[1] is o and k[2] == "n_recommendable_items":
            st.heap[k] = sym("n_recommendable_items")
    n0 = len(I.effects)
    first = sym(f.params()[1])
    I, st, v = analyse(ctx, f, c, o, st=st, interp=I)
    effs = I.effects[n0:]
    truth_rows = dim(sym("ground_truth"), 0)
    facts = [(mk("isnone", sym("masked_interactions")), False), (mk("isnone", sym("cold_item_features")), False),
             (mk("isnone", mk("conv", "csr", sym("masked_interactions"))), False)]

    def N(t):
        t = norm(t)
        for a, b in facts:
            t = assume(t, a, b)
        same_n = {dim(sym("input_interaction"), 0): truth_rows}
        if kind == "matrix":
            same_n[dim(first, 0)] = truth_rows
        if masked:
            same_n[dim(sym("masked_interactions"), 0)] = truth_rows
        t = subst(t, same_n)
        return _norm(t)

    offset = N(I.deep(st.heap.get(("a", o, "offset"), sym("offset")), st)) if c.name == "Evaluator" else ZERO
    calls = [e for e in effs if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] in ("get_metrics_f64", "get_metrics_f32")]
    if not calls:
        if v is None:
            ctx.ob("scores-evaluated", where, False, "the method never returns a result", f.loc())
        else:
            ctx.ob("scores-evaluated", where, None, "no native evaluation call found", f.loc())
        return
    dts = {e.fn.a[1] for e in calls}
    ctx.ob("both-dtypes", where, dts == {"get_metrics_f64", "get_metrics_f32"} or None, str(sorted(dts)), f.loc())
    g0 = None
    for e in calls:
        tag = f"{where}/{e.fn.a[1]}"
        g = N(e.kwargs["offset"])
        g0 = g
        sc = N(e.kwargs[next(k for k in e.kwargs if k in ("score_array", "scores", "score"))]) \
            if any(k in e.kwargs for k in ("score_array", "scores", "score")) else None
        if sc is None:
            ctx.ob("row-alignment", tag, None, "score argument not found", e.loc)
            continue
        try:
            alts = hoist(sc)
        except AnalysisError as ex:
            ctx.ob("row-alignment", tag, None, str(ex), e.loc)
            continue
        atoms = {a for a in map(N, e.path)}
        n_bad = 0
        for cs, leaf in alts:
            leaf = N(leaf)
            cs = tuple(N(x) for x in cs)
            if FALSE in cs:
                continue
            ok, why = row_ok(leaf, g, kind, masked, cold, offset, truth_rows, first, sym("mb_size"), cs)
            if ok is not True:
                n_bad += 1
            ctx.ob("row-alignment", tag, ok, why + (" when " + " and ".join(short(x, 80) for x in cs) if not ok else ""), e.loc)
        loop_ok(ctx, tag, e, g, kind, truth_rows, first, N)
        path_ok(ctx, tag, e, g, N)
        cut = N(e.kwargs["cutoff"])
        want = sym("cutoff") if f.name in ("get_score", "get_target_score", "get_score_from_score_matrix", "get_score_from_score_chunks") \
            else elem(sym("cutoffs"), 0)
        okc = cut is want or (cut.op == "elem" and cut.a[0] is sym("cutoffs"))
        if want is sym("cutoff"):
            okc = cut is want
        ctx.ob("cutoff", tag, True if okc else (None if has_opaque(cut) else False), f"cutoff passed is {short(cut)}", e.loc)
    merges(ctx, where, I, st, effs, v, f, N)
    if kind == "chunks" or kind == "matrix":
        stream_guards(ctx, where, I, effs, calls, kind, truth_rows, N, f)


def has_opaque(t):
    return any(x.op in ("unk", "loopout", "mutated", "either", "last", "sent") for x in walk(t))


def peel(leaf):
    if leaf.op == "store" and leaf.a[1].op == "nonzero" and leaf.a[2] is NEGINF:
        return leaf.a[0], leaf.a[1].a[0]
    return leaf, None


def wrong_mask(t):
    """The value written at masked cells when it is definitely not minus infinity."""
    if t.op == "store" and t.a[1].op == "nonzero" and t.a[2] is not NEGINF and (t.a[2].op == "const" or t.a[2] is neg(NEGINF) or t.a[2].op == "lin"):
        return t.a[2]
    return None


def wrong_fill(t):
    """The value given to items the model has no score for, when it is definitely not minus infinity."""
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.concatenate", "numpy.hstack", "numpy.column_stack") and t.a[1] and t.a[1][0].op in ("list", "tuple"):
        for p in t.a[1][0].a[0][1:]:
            if p.op in ("zeros", "ones"):
                return p
            v = None
            if p.op == "full":
                v = p.a[-1]
            elif p.op == "call" and p.a[0].op == "ext" and p.a[0].a[0] in ("numpy.full", "numpy.zeros", "numpy.ones"):
                n = p.a[0].a[0]
                v = const(0) if n.endswith("zeros") else const(1) if n.endswith("ones") else (p.a[1][1] if len(p.a[1]) > 1 else dict(p.a[2]).get("fill_value"))
            if v is not None and v is not NEGINF and (v.op == "const" or v is neg(NEGINF)):
                return v
    return None


def rows_of(b):
    """(kind, source, lo, hi) of the user rows a score block denotes."""
    if b.op == "call":
        fn, pos, kw = b.a[0], b.a[1], dict(b.a[2])
        if fn.op == "attr" and fn.a[0] is sym("model"):
            m = fn.a[1]
            if m == "get_score_block":
                return "model", None, kw.get("begin"), kw.get("end")
            if m == "get_score":
                u = kw.get("user_indices")
                if u is not None and u.op in ("arange", "range") and is_const(u.a[2], 1):
                    return "model", None, u.a[0], u.a[1]
                return None
            if m == "get_score_cold_user":
                return rows_of_matrix("input", kw.get("X"))
            return None
        if fn.op == "ext" and fn.a[0] in ("numpy.concatenate", "numpy.hstack") and pos and pos[0].op in ("list", "tuple"):
            return rows_of(pos[0].a[0][0])
        if fn.op in ("mu", "call", "phi") and len(pos) == 1:
            return rows_of_matrix("input", pos[0])
        return None
    if b.op == "elem":
        return "chunk", b, None, None
    if b.op == "idx" and b.a[1].op == "slice":
        return "slice", b.a[0], zero(b.a[1].a[0]), b.a[1].a[1]
    return None


def zero(t):
    return ZERO if t is NONE else t


def rows_of_matrix(k, x):
    if x is None or x.op != "idx" or x.a[1].op != "slice" or x.a[1].a[2] is not NONE:
        return None
    return k, x.a[0], zero(x.a[1].a[0]), x.a[1].a[1]


def unpad(m):
    """Drop appended all-zero columns."""
    while m.op == "call" and m.a[0].op == "ext" and m.a[0].a[0].endswith(".hstack") and m.a[1] and m.a[1][0].op in ("list", "tuple"):
        parts = m.a[1][0].a[0]
        if not all(p.op in ("sparse", "zeros", "new") for p in parts[1:]):
            return None
        m = parts[0]
    return m


def width(lo, hi, step, n, off):
    """Is [lo,hi) one batch starting at lo, clipped to n (+off)?"""
    if hi is NONE or hi is None:
        return False
    full = add(lo, step)
    return hi is min_(full, add(n, off)) or hi is add(min_(sub(full, off), n), off), hi is full


def row_ok(leaf, g, kind, masked, cold, off, n, first, step, cs):
    base, mask = peel(leaf)
    b2, m2 = peel(base)
    if m2 is not None:
        return None, "masked twice"
    bad = wrong_mask(base)
    if bad is not None:
        return False, f"masked cells are set to {short(bad, 60)} instead of minus infinity"
    bad = wrong_fill(base)
    if bad is not None:
        return False, f"items without scores are given {short(bad, 60)} instead of minus infinity"
    r = rows_of(base)
    if r is None:
        return None, f"score block {short(base, 200)} not recognised"
    rk, src, lo, hi = r
    if kind == "model" and off is not ZERO and rk != "model":
        return False, f"scores come from {short(base, 200)}"
    if kind == "model":
        want_lo = add(g, off) if rk == "model" else g
        if rk == "input" and src is not sym("input_interaction"):
            return (None if has_opaque(src) else False), f"cold users are scored from {short(src)} instead of the input interactions"
        if lo is not want_lo:
            return judge(lo, f"scores of users starting at {short(lo)} are compared with truth rows starting at {short(g)}")
        o2 = off if rk == "model" else ZERO
        clipped, full = width(lo, hi, step, n, o2)
        if not (clipped or (full and rk == "input")):
            return judge(hi, f"score block ends at {short(hi)}, not one batch after its start")
        rows_n = sub(hi, lo)
    elif kind == "chunks":
        if rk != "chunk":
            return False, f"scores come from {short(base)}"
        rows_n = dim(base, 0)
        lo, hi = g, add(g, rows_n)
    else:
        if rk != "slice" or src is not first:
            return (None if has_opaque(leaf) else False), f"scores come from {short(base)}"
        if g.op == "mu":
            rows_n = dim(base, 0)
        else:
            if lo is not g:
                return judge(lo, f"score rows start at {short(lo)}, truth rows at {short(g)}")
            rows_n = sub(hi, lo)
        clipped, full = width(lo, hi, step, n, ZERO)
        if not (clipped or full):
            return judge(hi, f"score block ends at {short(hi)}, not one batch after its start")
    # mask
    if masked:
        want = sym("masked_interactions")
        at = g
    elif kind == "model" and rk == "model":
        want = mk("attr", sym("model"), "X_train_all")
        at = lo
    elif off is ZERO and (rk == "input" or sym("input_interaction") in list(walk(mask or ZERO))):
        want, at = sym("input_interaction"), g
    else:
        want, at = None, None
    if want is None:
        if mask is None:
            return True, ""
        return judge(mask, f"scores are masked by {short(mask)} although no mask was given")
    if mask is None:
        return False, f"scores are not masked by {short(want)}"
    mr = rows_of_matrix("mask", mask)
    if mr is None:
        return None, f"mask {short(mask)} not recognised"
    msrc = unpad(mr[1])
    if msrc is None:
        return None, f"mask source {short(mr[1])}"
    if msrc is not want:
        return judge(msrc, f"masked by {short(msrc)} instead of {short(want)}")
    if mr[2] is not at:
        return judge(mr[2], f"mask rows start at {short(mr[2])}, the scored users are rows {short(at)} of it")
    mh = mr[3]
    if mh is NONE:
        return False, "mask rows run to the end of the matrix"
    want_h = add(at, rows_n)
    if mh is not want_h:
        # a slice end past the last row is clamped
        if not (kind != "model" or rk == "input" or masked) or mh not in (add(at, step), min_(add(at, step), n)):
            return judge(mh, f"mask rows end at {short(mh)}, the scored rows at {short(want_h)}")
    return True, ""


def judge(t, why):
    return (None if has_opaque(t) else False), why


def loop_ok(ctx, tag, e, g, kind, n, first, N):
    if g.op == "elem":
        dom = g.a[0]
        if dom.op != "range":
            ctx.ob("rows-tiled", tag, None, f"chunk index over {short(dom)}", e.loc)
            return
        lo, hi, step = dom.a
        ok = lo is ZERO and hi is n and step is sym("mb_size")
        ctx.ob("rows-tiled", tag, True if ok else judge(dom, "")[0],
               "" if ok else f"chunks start at {short(dom)} instead of every mb_size rows of [0, n_users)", e.loc)
    elif g.op == "mu":
        lp = next((l for l in e.loops if g_in(l, g, N)), None)
        if lp is None:
            ctx.ob("rows-tiled", tag, None, "chunk counter loop not found", e.loc)
            return
        init, nxt = next((a, b) for m, (a, b) in lp.mus.items() if N(m) is g)
        ctx.ob("rows-tiled", tag, True if N(init) is ZERO else judge(init, "")[0], f"chunk counter starts at {short(init)}", e.loc)
        chunk = N(elem(lp.dom, lp.depth)) if lp.dom is not None else None
        for cs, x in hoist(N(nxt)):
            rows = [y for y in walk(x) if y.op == "dim"]
            good = any(x is add(g, r) and is_chunk_rows(r, lp, N, kind, first) for r in rows)
            empty = x is g and any(c.op == "eq" and ZERO in c.a and any(is_chunk_rows(y, lp, N, kind, first) for y in c.a) for c in cs)
            ctx.ob("rows-tiled", tag, True if good or empty else judge(x, "")[0],
                   f"after a chunk the row counter becomes {short(x)}", e.loc)
        if kind == "matrix" and lp.dom is not None:
            dom = N(lp.dom)
            if dom.op == "range":
                ok = dom.a[0] is ZERO and dom.a[1] is n and dom.a[2] is sym("mb_size")
                ctx.ob("rows-tiled", tag, ok or None, short(dom), e.loc)
    elif kind == "model" and is_int(g):
        ctx.ob("rows-tiled", tag, False, f"the ground-truth offset is always {short(g)}", e.loc)
    else:
        ctx.ob("rows-tiled", tag, None if has_opaque(g) or g.op not in ("lin", "min") else False,
               f"ground-truth offset {short(g)} is not the chunk's first row", e.loc)
    for l in e.loops:
        for what, xs in (("break", l.breaks), ("return", l.returns)):
            ctx.ob("all-chunks", tag, not xs, f"the loop over {short(l.dom, 80) if l.dom is not None else 'chunks'} has a {what}", e.loc)


def g_in(l, g, N):
    return any(N(m) is g for m in l.mus)


def is_chunk_rows(r, lp, N, kind, first):
    if r.op != "dim" or r.a[1] != 0:
        return False
    x = r.a[0]
    x = peel(x)[0]
    return x.op == "elem" or (x.op == "idx" and x.a[0] is first)


def path_ok(ctx, tag, e, g, N):
    pivots = {g} | {x for x in walk(g) if x.op in ("elem", "mu")}
    for l in e.loops:
        if l.dom is not None:
            pivots.add(N(elem(l.dom, l.depth)))
    for a in e.path:
        a = N(a)
        if not any(x in pivots for x in walk(a)):
            continue
        ok = allowed(a, g)
        ctx.ob("no-skipped-contribution", tag, True if ok else (None if has_opaque(a) else False),
               f"users are only evaluated when {short(a, 200)}", e.loc)


def allowed(a, g):
    x = a.a[0] if a.op == "not" else a
    if x.op in ("and", "or"):
        return all(allowed(y, g) for y in x.a[0])
    if x.op in ("isnone", "raised", "isinstance", "in"):
        return True
    names = {y.a[1] for y in walk(x) if y.op == "attr"}
    if x.op in ("eq", "call", "truth") and (names & {"dtype", "ndim"}):
        return True
    if x.op == "eq" and any(y.op == "dim" and y.a[1] == 1 for y in x.a):
        return True
    if x.op == "eq" and any(y.op == "dim" and y.a[1] == 0 for y in x.a) and ZERO in x.a and a.op == "not":
        return True
    if x.op == "truth" and x.a[0].op == "dim" and a.op != "not":
        return True
    if x.op == "phi":
        return allowed(x.a[1], g) or allowed(x.a[2], g) or x.a[1] in (TRUE, FALSE) or x.a[2] in (TRUE, FALSE)
    if x.op == "lt":
        # not (n_users < rows so far): surplus rows are rejected by an exception
        l, r = x.a
        if a.op == "not" and any(y.op == "dim" for y in walk(l)):
            return True
        if a.op == "lt" and is_const(l, 0) and r.op == "dim":
            return True
        if a.op == "not" and r.op == "dim" and False:
            return True
    return False


def merges(ctx, where, I, st, effs, v, f, N):
    mg = [e for e in effs if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "merge"]
    ad = [e for e in effs if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "as_dict"]
    fresh = ad and all(canon(I.deep(e.fn.a[0], st)).op in ("new", "elem", "idx") for e in ad) and not any(e.kind == "call" and any(x is not None and mentions_metrics(x) for x in e.iargs) for e in effs)
    ctx.ob("accumulated", where, True if mg else (False if fresh and not mg else None), f"{len(mg)} merge calls: the metrics of the batches are never added up", f.loc())
    ctx.ob("accumulated", where, bool(ad) or None, f"{len(ad)} as_dict calls", f.loc())
    recv = {canon(I.deep(e.fn.a[0], st)) for e in ad}
    for e in mg:
        r = canon(I.deep(e.fn.a[0], st))
        ctx.ob("accumulated", where, r in recv or None, "merged accumulator is not the reported one", e.loc)
        arg = next(iter(e.kwargs.values()), None) or (e.args[0] if e.args else None)
        if arg is None:
            continue
        for cs, x in leaves(N(arg)):
            ok = x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1].startswith("get_metrics_f")
            ctx.ob("accumulated", where, True if ok else None, f"merges {short(x, 200)}", e.loc)
            if ok:
                # precision routing
                dt = x.a[0].a[1][-2:]
                txt = [c for c in cs if any(y.op == "attr" and y.a[1] == "dtype" for y in walk(c))]
                for c in txt:
                    pos = c.op != "not"
                    y = c if pos else c.a[0]
                    s = pp(y)
                    if pos and y.op == "eq":
                        w = "64" if "float64" in s else ("32" if "float32" in s else None)
                        if w:
                            ctx.ob("dtype-routing", where, w == dt, f"{s} routed to {x.a[0].a[1]}", e.loc)
        # one accumulator per cutoff
        cut = [l for l in e.loops if l.dom is not None and N(l.dom) is sym("cutoffs")]
        for q in effs:
            if q.kind == "getitem" and q.loops and cut and q.loops[-1] is cut[-1]:
                body = N(I.deep(q.obj, st))
                if body.op == "comp" and any(y.op == "new" and "Metrics" in str(y.a[0]) for y in walk(body)) \
                        or "Metrics" in pp(body)[:200]:
                    i = N(q.idx)
                    ok = i.op == "pos" and i.a[0] is sym("cutoffs")
                    ctx.ob("accumulator-per-cutoff", where, True if ok else (None if has_opaque(i) else False),
                           f"accumulator index {short(i)} is not the position of the cutoff", q.loc)
    # reported keys
    if v is None:
        return
    val = N(I.deep(v, st))
    if f.name.startswith("get_scores"):
        for x in walk(val):
            if x.op == "store" and x.a[1].op == "fstr":
                parts = x.a[1].a[0]
                key = parts[0]
                if len(parts) == 2 and key.op == "const" and str(key.a[0]).endswith("@"):
                    name = str(key.a[0])[:-1]
                    got = x.a[2]
                    okn = got.op == "idx" and got.a[1] is const(name)
                    ctx.ob("metric-name", f"{where}:{name}", True if okn else (False if got.op == "idx" and got.a[1].op == "const" else None),
                           f"reports {short(got, 150)} as {name}", f.loc())
                    if okn:
                        inner = got.a[0]
                        okp = None
                        if inner.op == "idx":
                            okp = inner.a[1].op == "pos" and inner.a[1].a[0] is sym("cutoffs") and parts[1] is elem(sym("cutoffs"), inner.a[1].a[1])
                            if not okp:
                                okp = None if has_opaque(inner.a[1]) else False
                            elif inner.a[0].op in ("reversed", "sorted"):
                                okp = False
                        ctx.ob("cutoff-label", f"{where}:{name}", okp, f"label {short(parts[1])} for {short(inner, 100)}", f.loc())
    elif f.name == "get_target_score":
        ctx.ob("target-metric", where, target_ok(val), f"returns {short(val)}", f.loc())


def mentions_metrics(x):
    return any(y.op == "new" and str(y.a[0]).endswith(".Metrics") for y in walk(x))


def target_ok(val):
    keys = {x.a[1] for _, x in leaves(val) if x.op == "idx"}
    if not keys:
        return None
    return True if keys <= {sym("target_metric")} or all(sym("target_metric") in list(walk(k)) for k in keys) else False


def stream_guards(ctx, where, I, effs, calls, kind, n, N, f):
    """Too few rows: an exception unless the final counter equals n; too many: an exception inside the loop."""
    if kind == "matrix":
        # the matrix is rejected unless it has exactly n rows, so the chunks tile it
        atoms = [N(a) for e in calls for a in e.path]
        raw = [a for e in calls for a in e.path]
        first = sym(f.params()[1])
        ok = any(any(x is dim(first, 0) for x in walk(norm(a))) for a in raw)
        ctx.ob("row-count-guard", where, ok, "the score matrix row count is not checked", f.loc())
        return
    e = calls[0]
    g = N(e.kwargs["offset"])
    if g.op != "mu":
        ctx.ob("row-count-guard", where, None, "no running row counter", f.loc())
        return
    atoms = [N(a) for a in e.path]
    many = False
    for a in atoms:
        for x in ([a] if a.op != "and" else list(a.a[0])):
            if x.op == "not" and x.a[0].op == "lt" and x.a[0].a[0] is n and any(y is g for y in walk(x.a[0].a[1])):
                over = sub(x.a[0].a[1], g)
                if over.op == "dim":
                    many = True
    ctx.ob("too-many-rows-rejected", where, many, "no check that the rows supplied so far fit the evaluator", e.loc)
    from .c14 import ev, Unknown
    few = None
    wrong = None
    for r in [q for q in effs if q.kind == "raise"]:
        for a in map(N, r.path):
            lo = [x for x in walk(a) if x.op == "loopout"]
            if lo and contains(a, n):
                try:
                    if ev(a, {**{x: 3 for x in lo}, n: 3}):
                        wrong = f"a complete stream is rejected ({short(a, 80)})"
                    elif not ev(a, {**{x: 2 for x in lo}, n: 3}):
                        continue
                except Unknown:
                    pass
            for x in walk(a):
                if x.op == "eq" and n in x.a and any(y.op == "loopout" for y in x.a):
                    few = True
                if x.op == "lt" and any(y.op == "loopout" for y in x.a) and n in x.a and x.a[1] is n:
                    few = True
    after = any(q.kind == "return" for q in effs)
    ctx.ob("too-few-rows-rejected", where, True if few else False, "no exception when the stream ends before n_users rows", f.loc())
    ctx.ob("complete-stream-accepted", where, wrong is None, wrong or "", f.loc())
