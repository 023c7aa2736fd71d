"""C14: recommendation lists respect masks, filters, order and cutoff."""
from ..common import *
from ..norm import norm, eqv, same, opaque_in
from .c13 import Mapper, ilist, judge, no_scorers, score_calls, S, squash, IM
import itertools

LEVEL = "proof"
TECHNIQUE = "static analysis: symbolic list-building summaries; filter conditions decided over an exhaustive finite abstraction of score, count and membership"
MIN_OBLIGATIONS = 20
EXPLANATION = ("Single-user retrieval is summarised as (candidates in order, condition to keep one, condition to stop). Candidates must be all allowed items by descending score, an item must be kept "
               "exactly when its score is above minus infinity, it is not forbidden and the list is not full, and the loop may stop early only when nothing further qualifies; the conditions are decided "
               "over an exhaustive abstraction of their atoms. Batch retrieval must hand the native retrieval the own scores with exactly the forbidden cells of each user masked, each user's own allowed "
               "list and the requested cutoff; public wrappers must forward every filter to its own parameter. The native retrieval is analysed the same way: candidates of the claimed row, their order, the cutoff, the minus-infinity test and the allowed list of that row.")
ASSUMPTIONS = ["numpy's argsort is an ascending order of the values"]
INF_ = float("inf")


# ------------------------------------------------------------------ abstract evaluation of conditions
class Unknown(Exception):
    pass


def ev(t, env):
    """Value of a condition term under an assignment of its atoms."""
    if t in env:
        return env[t]
    op = t.op
    if op == "const":
        return t.a[0]
    if op == "not":
        return not ev(t.a[0], env)
    if op == "truth":
        return bool(ev(t.a[0], env))
    if op in ("and", "or"):
        xs = t.a[0] if isinstance(t.a[0], (tuple, frozenset)) else t.a
        vals = []
        for x in xs:
            try:
                vals.append(bool(ev(x, env)))
            except Unknown:
                vals.append(None)
        if op == "and":
            if False in vals:
                return False
        elif True in vals:
            return True
        if None in vals:
            raise Unknown(short(t, 100))
        return op == "and"
    if op == "phi":
        return ev(t.a[1] if ev(t.a[0], env) else t.a[2], env)
    if op == "lt":
        return ev(t.a[0], env) < ev(t.a[1], env)
    if op == "le":
        return ev(t.a[0], env) <= ev(t.a[1], env)
    if op == "eq":
        return ev(t.a[0], env) == ev(t.a[1], env)
    if op == "isnone":
        return ev(t.a[0], env) is None
    if op == "lin":
        c, d = lin_parts(t)
        r = c
        for x, k in d.items():
            r = r + k * ev(x, env)
        return float(r) if isinstance(r, float) else r
    if op in ("toint", "tofloat", "float", "int"):
        return ev(t.a[0], env)
    if op in ("min", "max"):
        xs = t.a[0] if isinstance(t.a[0], (tuple, frozenset)) else t.a
        return (min if op == "min" else max)(ev(x, env) for x in xs)
    if op == "call" and t.a[0].op == "ext" and len(t.a[1]) == 1:
        n = t.a[0].a[0].split(".")[-1]
        x = None
        if n in ("isneginf", "isinf", "isfinite", "isnan", "isposinf", "float", "int", "abs", "bool"):
            x = ev(t.a[1][0], env)
            return {"isneginf": x == -INF_, "isinf": abs(x) == INF_, "isfinite": abs(x) != INF_ and x == x, "isnan": x != x, "isposinf": x == INF_,
                    "float": x, "int": x, "abs": abs(x), "bool": bool(x)}[n]
    if op == "conv":
        return ev(t.a[1], env)
    raise Unknown(short(t, 100))


# ------------------------------------------------------------------ descending candidate orders
def order(t):
    """Candidate order -> ('desc'|'asc', scores, base list or None, truncated-by or None), or None."""
    t = t.a[1] if t.op == "conv" else t
    if t.op == "idx":
        o, i = t.a
        if i.op == "slice":
            lo, hi, st = i.a
            r = order(o)
            if r is None:
                return None
            d, s, b, k = r
            if is_const(st, -1) and lo is NONE and hi is NONE:
                return ("asc" if d == "desc" else "desc", s, b, k)
            if (st is NONE or is_const(st, 1)) and (lo is NONE or is_const(lo, 0)):
                return (d, s, b, hi if k is None else min_(k, hi))
            if st is NONE and hi is NONE and lo.op in ("lin", "const", "sym"):
                return ("tail-" + d, s, b, neg(lo))
            if is_const(st) and isinstance(st.a[0], int) and abs(st.a[0]) > 1 and d in ("asc", "desc"):
                return ("gappy-" + (d if st.a[0] > 0 else "reversed-" + d), s, b, k)
            return None
        r = order(i)
        if r is not None and r[2] is None and eqv_dom(r[1], o):
            return (r[0], r[1].a[0], o, r[3])
        return None
    if t.op == "call":
        f = t.a[0]
        x = None
        if f.op == "attr" and f.a[1] == "argsort" and not t.a[1]:
            x = f.a[0]
        elif f.op == "ext" and f.a[0] == "numpy.argsort" and len(t.a[1]) == 1:
            x = t.a[1][0]
        elif f.op == "ext" and f.a[0] in ("numpy.flip", "numpy.flipud") and len(t.a[1]) == 1:
            r = order(t.a[1][0])
            return r and ({"desc": "asc", "asc": "desc"}[r[0]],) + r[1:]
        if x is None or any(k not in ("kind", "axis", "stable") for k, _ in t.a[2]):
            return None
        n = neg(x)
        if x.op == "lin" and n.op != "lin":
            return ("desc", n, None, None)
        return ("asc", x, None, None)
    return None


def eqv_dom(s, base):
    """s is scores[base]."""
    return s.op == "idx" and eqv(s.a[1], base)


# ------------------------------------------------------------------ list summaries
class Built:
    """entries appended in the order of `dom` while `keep`, stopping at `stops`; cut: trailing slice."""
    def __init__(self, dom, entry, keep, stops, acc, cut, el):
        self.dom, self.entry, self.keep, self.stops, self.acc, self.cut, self.el = dom, entry, keep, stops, acc, cut, el


def built(m, v, st, effs, loops):
    cut = None
    obj = v
    w = m.val(v, st)
    while w.op == "idx" and w.a[1].op == "slice" and (w.a[1].a[0] is NONE or is_const(w.a[1].a[0], 0)) and w.a[1].a[2] is NONE:
        cut = w.a[1].a[1] if cut is None else min_(cut, w.a[1].a[1])
        w = w.a[0]
        obj = None
    if w.op == "comp" and w.a[0] in ("list", "gen") and len(w.a[2]) == 1:
        return Built(w.a[2][0], w.a[1], [list(w.a[3])], [], None, cut, elem(w.a[2][0]))
    news = {e.obj for e in effs if e.kind == "mutcall" and e.name == "append"}
    if obj is None or obj.op != "new":
        obj = next((o for o in news if o.op == "new" and eqv(m.val(o, st), w)), None)
    if obj is None:
        return None
    muts = [e for e in effs if e.kind == "mutcall" and e.obj is obj]
    if not muts or any(e.name != "append" or len(e.loops) != 1 for e in muts):
        return None
    lp = muts[0].loops[0]
    if any(e.loops[0] is not lp for e in muts) or lp.dom is None:
        return None
    dom = m.val(lp.dom, st)
    entries = {m.val(e.args[0], st) for e in muts}
    if len(entries) != 1:
        return None
    el = mk("elem", dom, lp.depth)
    accs = [h for h in lp.mus if h.op == "mu"]
    rel = [el, S("cutoff")] + accs + [m.val(h, st) for h in accs]

    def touch(c):
        c2 = m.val(c, st)
        return any(contains(c2, r) or contains(c, r) for r in rel) or contains(c2, mk("pos", dom, lp.depth))
    keep = [[m.val(c, st) for c in e.path if touch(c)] for e in muts]
    stops = [[m.val(c, st) for c in b if touch(c)] for b in lp.breaks]
    acc = None
    for h in accs:
        hv = m.val(h, st)
        if any(contains(c, hv) for k in keep + stops for c in k):
            acc = hv
    return Built(dom, entries.pop(), keep, stops, acc, cut, el)


def unpos(t, dom):
    """dom[pos(dom)] is the element."""
    m = {}
    for d in (0, 1):
        m[idx(dom, mk("pos", dom, d))] = mk("elem", dom, d)
        m[mk("elem", rng(ZERO, mk("len", dom), ONE), d)] = mk("pos", dom, d)
    return subst(t, m)


def toints(t):
    def go(x):
        x = rebuild(x, go)
        if x.op in ("toint", "tofloat"):
            return x.a[0]
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.int", "builtins.float") and len(x.a[1]) == 1:
            return x.a[1][0]
        return x
    return go(t)


def single(ctx, rules):
    for allowed, forbidden in itertools.product((False, True), repeat=2):
        m = Mapper(ctx, "ItemIDMapper")
        args = {"score": S("score"), "cutoff": S("cutoff"), "allowed_item_ids": S("allowed") if allowed else NONE, "forbidden_item_ids": S("forbidden") if forbidden else NONE}
        st0 = m.st
        f = m.cls.find("score_to_recommended_items")
        if f is None:
            raise AnalysisError("score_to_recommended_items not found")
        st = m.st.copy()
        st.path += tuple(not_(isnone(x)) for x in args.values() if x is not NONE)
        n, nl = len(m.I.effects), len(m.I.all_loops)
        I, st, v = analyse(ctx, f, m.cls, selfterm=m.obj, st=st, interp=m.I, args=args)
        effs, loops = m.I.effects[n:], m.I.all_loops[nl:]
        q = f"{f.name} [{'allowed' if allowed else 'all'} items, {'with' if forbidden else 'no'} forbidden items]"
        loc = f.loc()
        if v is None:
            ctx.ob("returns", q, False, "never returns", loc)
            continue
        one_list(ctx, rules, m, v, st, effs, loops, q, loc, allowed, forbidden)


def one_list(ctx, rules, m, v, st, effs, loops, q, loc, allowed, forbidden):
    b = None
    if v.op != "phi":
        b = built(m, v, st, effs, loops)
    if b is None and m.val(v, st) is mk("list", ()) and not any(e.kind == "call" and any(x is v for x in e.iargs) for e in effs):
        ctx.ob("list-built", q, False, "nothing is ever added to the list", loc)
        return
    if b is None:
        ctx.ob("list-built", q, None, f"list building not recognised: {short(m.val(v, st), 160)}", loc)
        return
    dom = b.dom
    fix = lambda t: toints(unpos(t, dom))
    el = fix(b.el)
    entry = fix(b.entry)
    score, ids = S("score"), S("item_ids")
    o = order(toints(dom))
    # pairing
    direct = mk("tuple", (idx(ids, el), idx(score, el)))
    if "pair" in rules:
        judge(ctx, "id-with-own-score", q, entry, direct, loc)
    if "list" not in rules:
        return
    if o is None:
        ctx.ob("descending", q, None, f"order of candidates not recognised: {short(dom, 160)}", loc)
    else:
        d, s, base, k = o
        ctx.ob("descending", q, d in ("desc",), f"candidates are visited in {'ascending' if d == 'asc' else d} order of score", loc)
        ctx.ob("own-scores", q, norm(s) is score, f"ordered by {short(s, 100)}", loc)
        if allowed:
            if base is None:
                ctx.ob("allowed-only", q, False if not any(contains(c, S("allowed")) for k_ in b.keep for c in k_) else None, "candidates are not limited to the allowed items", loc)
            else:
                judge(ctx, "allowed-only", q, base, ilist(S("allowed")), loc)
        else:
            ctx.ob("all-items", q, base is None, f"candidates are limited to {short(base, 100) if base is not None else ''}", loc)
        if k is not None:
            # cut before filtering is harmless only when nothing but minus infinity is filtered
            ok = eqv(k, S("cutoff")) and not forbidden
            if not ok and not eqv(k, S("cutoff")) and opaque_in(k):
                ok = None
            ctx.ob("nothing-omitted", q + " cut", ok, f"candidates are cut to {short(k, 60)} before the filters are applied", loc)
    # conditions
    sc, isf = idx(score, el), mk("in", idx(ids, el), S("forbidden"))
    if forbidden and not any(contains(fix(c), isf) for k_ in b.keep + b.stops for c in k_):
        alt = mk("in", el, ilist(S("forbidden")))
        if any(contains(fix(c), alt) for k_ in b.keep for c in k_):
            isf = alt
    ln = mk("len", b.acc) if b.acc is not None else None
    cut_after = b.cut is not None and eqv(b.cut, S("cutoff"))
    cut_before = o is not None and o[3] is not None and eqv(o[3], S("cutoff"))
    if b.cut is not None and not cut_after:
        ctx.ob("cutoff", q, None if opaque_in(b.cut) else False, f"list is cut to {short(b.cut, 60)}", loc)
    seen_conds = set(c for k_ in b.keep + b.stops for c in k_)
    pos_atoms = [mk("pos", dom, d) for d in (0, 1)]
    bad = None
    try:
        for s_, fb, n, c in itertools.product((-INF_, -2.5, 0.0, 1.0, INF_), (False, True) if forbidden else (False,), (0, 1, 2, 3, 5), (0, 1, 3)):
            env = {sc: s_, isf: fb, S("cutoff"): c}
            if ln is not None:
                env[ln] = n
            elif n:
                continue
            if n > c:
                continue
            kept = [all(ev(fix(x), env) for x in k_) for k_ in b.keep]
            stop = any(all(ev(fix(x), env) for x in k_) for k_ in b.stops)
            full = ln is not None and n >= c
            want = s_ > -INF_ and not fb and not full
            if sum(kept) > 1:
                bad = ("one item is added twice", env)
            elif any(kept) and not want:
                if full and s_ > -INF_ and not fb:
                    if not (cut_after or cut_before):
                        bad = (f"an item is added although the list already has {n} of {c} items", env)
                elif s_ == -INF_:
                    bad = ("an item with score -inf is added", env)
                else:
                    bad = ("a forbidden item is added", env)
            elif want and not any(kept):
                bad = (f"an item with score {s_} that passes the filters is left out", env)
            if stop and not full and s_ > -INF_:
                bad = (f"the search stops at an item with score {s_}{' (forbidden)' if fb else ''} although the list is not full", env)
            if bad:
                break
        ctx.ob("filters", q, bad is None, bad[0] if bad else "", loc)
        ctx.ob("cutoff", q, True if ln is not None or cut_after or cut_before else False, "the number of items is not limited by cutoff", loc)
    except Unknown as e:
        ctx.ob("filters", q, None, f"condition not modelled: {e}", loc)


# ------------------------------------------------------------------ batch
NATIVE = {"float32": "retrieve_recommend_from_score_f32", "float64": "retrieve_recommend_from_score_f64"}


def batch_run(ctx, allowed, per_user, forbidden):
    m = Mapper(ctx, "ItemIDMapper")
    args = {"score": S("score"), "cutoff": S("cutoff"), "allowed_item_ids": S("allowed") if allowed else NONE, "per_user_allowed_item_ids": S("per_user") if per_user else NONE,
            "forbidden_item_ids": S("forbidden") if forbidden else NONE, "n_threads": S("n_threads")}
    f = m.cls.find("score_to_recommended_items_batch")
    if f is None:
        raise AnalysisError("score_to_recommended_items_batch not found")
    st = m.st.copy()
    st.path += tuple(not_(isnone(x)) for x in args.values() if x is not NONE)
    n = len(m.I.effects)
    I, st, v = analyse(ctx, f, m.cls, selfterm=m.obj, st=st, interp=m.I, args=args)
    return m, f, st, v, m.I.effects[n:]


def native_calls(t):
    return [x for x in walk(t) if x.op == "call" and x.a[0].op == "fn" and x.a[0].a[0].split(".")[-1] in NATIVE.values()]


def batch(ctx, rules):
    ids = S("item_ids")
    for allowed, per_user, forbidden in itertools.product((False, True), repeat=3):
        m, f, st, v, effs = batch_run(ctx, allowed, per_user, forbidden)
        q = f"{f.name} [{'per-user' if per_user else 'allowed' if allowed else 'all'} items, {'with' if forbidden else 'no'} forbidden items]" + (" (both lists)" if allowed and per_user else "")
        loc = f.loc()
        if v is None:
            ctx.ob("returns", q, False, "never returns", loc)
            continue
        w = m.val(v, st)
        calls = native_calls(w)
        if not calls:
            ctx.ob("native-retrieval", q, None, short(w, 160), loc)
            continue
        if "pair" in rules:
            # each raw entry (index, score) becomes (its id, its score), in order
            for cs, leaf in leaves(w):
                raw = None
                if leaf.op == "comp" and leaf.a[0] == "list" and len(leaf.a[2]) == 1:
                    raw = leaf.a[2][0]
                    e = mk("elem", mk("elem", raw, 0), 0)
                    e1 = mk("elem", mk("elem", raw, 0), 1)
                    ok = None
                    for x in (e, e1):
                        inner = mk("comp", "list", mk("tuple", (idx(ids, idx(x, ZERO)), idx(x, ONE))), (mk("elem", raw, 0),), ())
                        if same(leaf.a[1], inner)[0]:
                            ok = True
                    if leaf.a[3]:
                        ctx.ob("user-rows-kept", q, False, f"rows are filtered by {short(leaf.a[3][0], 80)}", loc)
                    if ok:
                        ctx.ob("id-with-own-score", q, True)
                    else:
                        e = next((x for x in walk(leaf.a[1]) if x.op == "elem" and x.a[0] is mk("elem", raw, 0)), e)
                        if raw.op in ("phi", "call"):
                            judge(ctx, "id-with-own-score", q, leaf.a[1], mk("comp", "list", mk("tuple", (idx(ids, idx(e, ZERO)), idx(e, ONE))), (mk("elem", raw, 0),), ()), loc)
                        else:
                            ctx.ob("id-with-own-score", q, None, short(raw, 100), loc)
                else:
                    ctx.ob("id-with-own-score", q, None, short(leaf, 160), loc)
        if "list" not in rules:
            continue
        nat = [e for e in effs if e.kind == "call" and e.d.get("term") is not None and native_calls(m.val(e.term, st)) and m.val(e.term, st).a[0].op == "fn"]
        for e in nat:
            c = m.val(e.term, st)
            name = c.a[0].a[0].split(".")[-1]
            kw = dict(c.a[2])
            tag = f"{q} {name}"
            # forbidden cells
            masked(ctx, tag, kw.get("score"), forbidden, loc)
            al = kw.get("allowed_indices")
            if per_user:
                want = mk("comp", "list", ilist(mk("elem", S("per_user"), 0)), (S("per_user"),), ())
                judge(ctx, "own-allowed-list", tag, al, want, loc)
            elif allowed:
                one = ilist(S("allowed"))
                alts = [mk("list", (one,)), mk("comp", "list", one, (rng(ZERO, mk("dim", S("score"), 0), ONE),), ()), mk("comp", "list", one, (S("score"),), ())]
                if any(same(al, x)[0] for x in alts):
                    ctx.ob("allowed-list", tag, True)
                else:
                    judge(ctx, "allowed-list", tag, al, alts[0], loc)
            else:
                judge(ctx, "all-items", tag, al, mk("list", ()), loc)
            judge(ctx, "cutoff", tag, kw.get("cutoff"), S("cutoff"), loc)
            dt = dtype_of(e, m, st)
            ctx.ob("element-type", tag, None if dt is None else NATIVE[dt] == name, f"{name} is called for {dt} scores", loc)


def dtype_of(e, m, st):
    pos_, neg_ = set(), set()
    for p in e.path:
        t, want = m.val(p, st), True
        if t.op == "not":
            t, want = t.a[0], False
        if t.op == "eq":
            n = [x.a[0].split(".")[-1] for x in t.a if x.op == "ext" and x.a[0].startswith("numpy.float")] + [x.a[0] for x in t.a if x.op == "const" and x.a[0] in NATIVE]
            if n and any(y.op == "attr" and y.a[1] == "dtype" for x in t.a for y in walk(x)):
                (pos_ if want else neg_).add(n[0])
    if len(pos_) == 1:
        return pos_.pop()
    return None


def masked(ctx, q, s, forbidden, loc):
    if s is None:
        ctx.ob("forbidden-masked", q, None, "no score argument", loc)
        return
    score, F = S("score"), S("forbidden")
    if not forbidden:
        judge(ctx, "own-scores", q, s, score, loc)
        return
    if s is score:
        ctx.ob("forbidden-masked", q, False, "forbidden items are not masked", loc)
        return
    if s.op == "loopout":
        nxt = s.a[2]
        if nxt.op == "store" and nxt.a[0].op == "mu":
            i, val = nxt.a[1], nxt.a[2]
            ok, why = same(i, mk("tuple", (mk("pos", F, 0), ilist(mk("elem", F, 0)))))
            ctx.ob("forbidden-of-own-user", q, ok, why, loc)
            ctx.ob("forbidden-masked", q, val is NEGINF if val.op == "const" or any(x.op == "ext" and x.a[0] in ("numpy.finfo", "numpy.iinfo") for x in walk(val)) else None, f"forbidden items get score {short(val)}", loc)
            judge(ctx, "own-scores", q, s.a[1], score, loc)
            return
    ctx.ob("forbidden-masked", q, None, f"scores are {short(s, 160)}", loc)


# ------------------------------------------------------------------ wrappers
def wrapper(ctx, name, meth):
    m = Mapper(ctx, name, inline=no_scorers)
    f, st, v, effs, _ = m.call(meth, recommender=S("recommender"))
    q, loc = f"{name}.{meth}", f.loc()
    if v is None:
        ctx.ob("returns", q, False, "never returns", loc)
        return
    params = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    for cs, target, kw, pick in score_calls(m, v, st):
        if target is None:
            ctx.ob("filters-forwarded", q, None, f"result {short(kw['result'], 160)}", loc)
            continue
        for p in ("cutoff", "allowed_item_ids", "per_user_allowed_item_ids", "forbidden_item_ids"):
            if p not in params:
                continue
            got = kw.get(p)
            if got is None:
                ctx.ob("filters-forwarded", f"{q} {p}", False, f"{p} is not handed on to {target}", loc)
            else:
                judge(ctx, "filters-forwarded", f"{q} {p}", got, S(p), loc)


def check(ctx):
    ctx.guard(single, ctx, {"list"})
    ctx.guard(batch, ctx, {"list"})
    for n, meth in (("ItemIDMapper", "recommend_for_new_user"), ("ItemIDMapper", "recommend_for_new_user_batch"), ("IDMapper", "recommend_for_known_user_id"), ("IDMapper", "recommend_for_known_user_batch")):
        ctx.guard(wrapper, ctx, n, meth)
    from .c14_native import native
    native(ctx)
