"""C13: ids and matrix positions stay aligned."""
from ..common import *
from ..norm import norm, eqv, same, opaque_in
import itertools

LEVEL = "proof"
TECHNIQUE = "static analysis: symbolic dataflow of ids, indices and positions through the mapping code, compared with the aligned form"
MIN_OBLIGATIONS = 20
EXPLANATION = ("ID mappers, frame conversion, frame export and frame evaluation are analysed symbolically for arbitrary ID lists: the index dictionary must pair every ID with its own "
               "position, every conversion from an ID to a column or row must go through that dictionary, the value next to a column must come from the same profile entry, "
               "a recommendation must carry the ID and the score of one and the same column, and rows must be selected in the order of the requested users.")
ASSUMPTIONS = ["scipy's CSR and COO constructors and pandas.Categorical behave as documented"]
S = sym
IM = "irspack.utils.id_mapping."


def index_dict(ids):
    return mk("comp", "dict", mk("tuple", (elem(ids), pos(ids))), (ids,), ())


def given(st, *names):
    """Case facts: these optional arguments are not None."""
    st.path = st.path + tuple(not_(isnone(S(n))) for n in names)


class Mapper:
    """A constructed mapper with the index dictionaries abbreviated."""

    def __init__(self, ctx, name, inline=None):
        self.ctx = ctx
        self.cls = ctx.proj.find_class(IM + name)
        if self.cls is None:
            raise AnalysisError(f"{name} not found")
        self.I, self.st, self.obj = construct(ctx, self.cls)
        self.I.disjoin = True
        self.I.inline_filter = inline
        self.sub = {}
        for k, v in self.st.heap.items():
            if k[0] == "a" and k[1] is self.obj:
                w = norm(self.I.deep(v, self.st))
                for ids in ("item_ids", "user_ids"):
                    if w is index_dict(S(ids)):
                        self.sub[w] = S("#" + ids)

    def val(self, v, st):
        return squash(norm(subst(norm(self.I.deep(v, st)), self.sub)))

    def call(self, meth, **args):
        f = self.cls.find(meth)
        if f is None:
            raise AnalysisError(f"{meth} not found")
        st = self.st.copy()
        given(st, *[k for k, v in args.items() if v is not NONE])
        n = len(self.I.effects)
        nl = len(self.I.all_loops)
        I, st, v = analyse(self.ctx, f, self.cls, selfterm=self.obj, st=st, interp=self.I, args=args)
        return f, st, v, self.I.effects[n:], self.I.all_loops[nl:]


def squash(t):
    """Generic element of a comprehension is its body; flatten."""
    def go(x):
        x = rebuild(x, go)
        if x.op == "concat" and (len(x.a[0]) < 2 or any(y is mk("list", ()) for y in x.a[0])):
            ys = tuple(y for y in x.a[0] if y is not mk("list", ()))
            return ys[0] if len(ys) == 1 else (mk("concat", ys) if ys else mk("list", ()))
        if x.op == "comp" and any(c.op == "not" and c.a[0].op == "isnone" and c.a[0].a[0].op == "idx" and c.a[0].a[0].a[0] in (S("#item_ids"), S("#user_ids")) for c in x.a[3]):
            return mk("comp", x.a[0], x.a[1], x.a[2], tuple(c for c in x.a[3] if not (c.op == "not" and c.a[0].op == "isnone")))
        if x.op == "elem" and x.a[0].op == "comp" and x.a[0].a[0] in ("list", "gen") and len(x.a[0].a[2]) == 1 and not x.a[0].a[3]:
            return x.a[0].a[1]
        if x.op == "comp" and x.a[0] in ("list", "gen"):
            for k, d in enumerate(x.a[2]):
                if d.op == "comp" and d.a[0] in ("list", "gen") and len(d.a[2]) == 1:
                    m = {mk("elem", d, n): d.a[1] for n in (0, 1)}
                    doms = x.a[2][:k] + d.a[2] + x.a[2][k + 1:]
                    return go(mk("comp", x.a[0], subst(x.a[1], m), doms, d.a[3] + tuple(subst(c, m) for c in x.a[3])))
        return x
    return go(t)


def ilist(x, ids="item_ids"):
    """Index list of the known ids in x."""
    D = S("#" + ids)
    return mk("comp", "list", idx(D, elem(x)), (x,), (mk("in", elem(x), D),))


def judge(ctx, rule, q, got, want, loc, m=None):
    ok, why = same(got, want)
    if ok is None and sorts(got) and not sorts(want):
        ok, why = False, f"reordered: {short(got, 200)} instead of {short(want, 200)}"
    return ctx.ob(rule, q, ok, why, loc)


def ctor(ctx, name, fields):
    m = Mapper(ctx, name)
    loc = m.cls.find("__init__").loc()
    for ids in fields:
        held = [w for k, v in m.st.heap.items() if k[0] == "a" and k[1] is m.obj for w in [norm(m.I.deep(v, m.st))] if w.op == "comp" and w.a[0] == "dict" and contains(w, S(ids))]
        ok = index_dict(S(ids)) in held
        d = ", ".join(short(w, 120) for w in held)
        ctx.ob("index-of-own-position", f"{name} {ids}", ok if ok or held else None, f"index dictionary is {d}", loc)
        D = index_dict(S(ids))
        path = [subst(norm(p), {D: S("#" + ids)}) for p in m.st.path]
        odd = [p for p in path if contains(p, S(ids)) or contains(p, S("#" + ids))]
        ok, why = dup_checked(odd, ids)
        ctx.ob("duplicates-rejected", f"{name} {ids}", ok, why, loc)
        own = m.st.heap.get(("a", m.obj, ids))
        w = norm(m.I.deep(own, m.st)) if own is not None else None
        ctx.ob("ids-kept", f"{name} {ids}", None if w is None else w is S(ids), short(w) if w is not None else "", loc)


def dup_checked(conds, ids):
    from .c14 import ev, Unknown
    L = mk("len", S(ids))
    uniq = {x for c in conds for x in walk(c) if x.op == "len" and (x.a[0] is S("#" + ids) or is_set_of(x.a[0], S(ids)))}
    text = "; ".join(short(p, 80) for p in conds)
    if not conds:
        return False, f"duplicates in {ids} are never checked"
    for n, k in ((3, 2), (3, 1), (2, 1), (3, 3), (1, 1), (0, 0)):
        env = {L: n, **{u: k for u in uniq}}
        try:
            done = all([ev(c, env) for c in conds])
        except Unknown as e:
            return None, f"condition not modelled: {e}"
        if done != (n == k):
            return False, f"{n} {ids}, {k} of them different, are {'accepted' if done else 'rejected'} ({text})"
    return True, ""


def is_set_of(t, x):
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.set", "numpy.unique", "builtins.frozenset") and len(t.a[1]) == 1:
        return t.a[1][0] is x
    if t.op == "conv" and t.a[0] == "set":
        return t.a[1] is x
    if t.op in ("setof", "set"):
        return t.a[0] is x
    if t.op == "comp" and t.a[0] == "set":
        return t.a[1] is elem(x) and t.a[2] == (x,) and not t.a[3]
    return False


# ------------------------------------------------------------------ profiles
def per_profile(p, as_list):
    """Expected (values, columns) of one profile p."""
    cols = ilist(p)
    if as_list:
        data = mk("comp", "list", const(1.0), (rng(ZERO, length(cols), ONE),), ())
    else:
        data = mk("comp", "list", idx(p, elem(p)), (p,), cols.a[3])
    return data, cols


def profile_matrix(ctx, q, X, users, n_users, loc):
    """X: csr of profiles. users None: one profile (symbol p)."""
    X = X.a[1] if X.op == "conv" else X
    if X.op != "sparse3" or len(X.a) < 2 or not isinstance(X.a[0], tuple) or len(X.a[0]) != 3:
        ctx.ob("profile-columns", q, None, f"not assembled from (values, columns, row starts): {short(X, 120)}", loc)
        return
    data, cols, indptr = X.a[0]
    judge(ctx, "profile-shape", q, X.a[1], mk("tuple", (n_users, mk("len", S("item_ids")))), loc)
    p = users if users.op == "sym" and users.a[0] == "user_profile" else None
    who = elem(users) if p is None else p
    isl = mk("isinstance", who, mk("ext", "builtins.list"))
    for as_list in (True, False):
        d = squash(norm(assume(data, isl, as_list)))
        c = squash(norm(assume(cols, isl, as_list)))
        ip = squash(norm(assume(indptr, isl, as_list)))
        ed, ec = per_profile(who, as_list)
        tag = f"{q} [{'list' if as_list else 'dict'} profile]"
        if p is None:
            # nested comprehension over users and entries
            inner = mk("elem", who, 0)
            fc = mk("comp", "list", idx(S("#item_ids"), inner), (users, who), (mk("in", inner, S("#item_ids")),))
            if as_list:
                fd = [mk("comp", "list", const(1.0), (users, rng(ZERO, length(ec), ONE)), ()),
                      mk("comp", "list", const(1.0), (rng(ZERO, length(fc), ONE),), ()),
                      mk("comp", "list", const(1.0), (users, who), fc.a[3])]
            else:
                fd = [mk("comp", "list", idx(who, inner), (users, who), fc.a[3])]
            judge(ctx, "profile-columns", tag, c, fc, loc)
            if not any(same(d, x)[0] for x in fd):
                judge(ctx, "profile-values", tag, d, fd[0], loc)
            else:
                ctx.ob("profile-values", tag, True)
            ok, why = prefix_sum(ip, length(ec), users)
            ctx.ob("profile-row-starts", tag, ok, why, loc)
        else:
            judge(ctx, "profile-columns", tag, c, ec, loc)
            alt = mk("comp", "list", const(1.0), (p,), ec.a[3])
            if as_list and same(d, alt)[0]:
                ctx.ob("profile-values", tag, True)
            else:
                judge(ctx, "profile-values", tag, d, ed, loc)
            want = mk("list", (ZERO, length(ec)))
            judge(ctx, "profile-row-starts", tag, ip, want, loc)


def prefix_sum(t, step, users):
    """[0, s1, s1+s2, ...] with s_k = step for the k-th user."""
    if t.op == "concat" and len(t.a[0]) == 2 and t.a[0][0] is mk("list", (ZERO,)):
        c = t.a[0][1]
        if c.op == "comp" and c.a[2] == (users,) and not c.a[3]:
            r = sub(c.a[1], step)
            if r.op == "mu" and r.a[0] is users and is_const(r.a[3], 0):
                return True, ""
            b = c.a[1]
            if b.op == "len" and b.a[0].op == "concat" and len(b.a[0].a[0]) == 2 and b.a[0].a[0][0].op == "mu" and b.a[0].a[0][0].a[3] is mk("list", ()):
                n = length(b.a[0].a[0][1])
                return eqv(n, step) or None, f"row starts advance by {short(n, 200)}"
            mus = [x for x in walk(c.a[1]) if x.op == "mu"]
            if mus and all(x.a[0] is users for x in mus):
                return False, f"row starts advance to {short(c.a[1], 200)}"
    if any(x.op == "call" for x in walk(t)):
        return None, "row starts computed by " + short(t, 120)
    if opaque_in(t):
        return None, opaque_in(t)
    return False, f"row starts are {short(t, 200)}"


def profiles(ctx):
    m = Mapper(ctx, "ItemIDMapper")
    f, st, v, _, _ = m.call("list_of_user_profile_to_matrix", users_info=S("users_info"))
    profile_matrix(ctx, f.name, m.val(v, st), S("users_info"), mk("len", S("users_info")), f.loc())


# ------------------------------------------------------------------ recommending
SCORERS = {"score_to_recommended_items": False, "score_to_recommended_items_batch": True}


def no_scorers(fn):
    return fn.name not in SCORERS


def score_calls(m, v, st):
    """The call that turns scores into recommendations, per leaf of the result."""
    for cs, leaf in leaves(m.val(v, st)):
        c = leaf
        pick = None
        if c.op == "idx" and is_const(c.a[1], 0):
            c, pick = c.a[0], 0
        if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] in SCORERS:
            kw = dict(c.a[2])
            yield cs, c.a[0].a[1], kw, pick
        else:
            yield cs, None, {"result": leaf}, None


FORWARD = ("allowed_item_ids", "forbidden_item_ids", "per_user_allowed_item_ids")


def served(ctx, m, st, q, loc, user):
    """A known user is not turned away."""
    from .c14 import ev, Unknown
    bad = None
    for c in st.path:
        c = m.val(c, st)
        env = {x: True for x in walk(c) if x.op == "in" and x.a[0] is user and (x.a[1] in (S("user_ids"), S("#user_ids")) or any(contains(x.a[1], y) for y in (S("user_ids"), S("#user_ids"))))}
        if not env:
            continue
        try:
            if not ev(c, env):
                bad = c
        except Unknown:
            pass
    ctx.ob("known-user-served", q, bad is None, f"a known user is only served when {short(bad, 100) if bad is not None else ''}", loc)


def recommend(ctx, name, meth, batch, known):
    m = Mapper(ctx, name, inline=no_scorers)
    rec = S("recommender")
    extra = {"user_ids": S("requested")} if batch and known else {}
    f, st, v, effs, _ = m.call(meth, recommender=rec, **extra)
    q, loc = f"{name}.{meth}", f.loc()
    if v is None:
        ctx.ob("recommends", q, False, "never returns", loc)
        return
    if known:
        served(ctx, m, st, q, loc, elem(S("requested")) if batch else S("user_id"))
    for cs, target, kw, pick in score_calls(m, v, st):
        if target is None:
            ctx.ob("scores-forwarded", q, None, f"result {short(kw['result'], 160)}", loc)
            continue
        s = kw.get("score")
        yield_rows = SCORERS[target]
        row = None
        if not yield_rows:
            if s.op == "idx" and (is_const(s.a[1], 0) or (s.a[1].op == "tuple" and is_const(s.a[1].a[0][0], 0))):
                row, s = 0, s.a[0]
            else:
                ctx.ob("scores-forwarded", q, None, short(s, 160), loc)
                continue
        meths = ("get_score_remove_seen",) if known else ("get_score_cold_user_remove_seen",)
        if not (s.op == "call" and s.a[0].op == "attr" and s.a[0].a[0] is rec):
            ctx.ob("scores-forwarded", q, None if opaque_in(s) or s.op not in ("call", "idx", "sym") else False, f"scores come from {short(s, 160)}", loc)
            continue
        ctx.ob("seen-removed", q, s.a[0].a[1] in meths, f"scores come from recommender.{s.a[0].a[1]}", loc)
        arg = dict(s.a[2]).get("user_indices" if known else "X")
        if arg is None:
            arg = s.a[1][0] if s.a[1] else None
        if arg is None:
            ctx.ob("scores-forwarded", q, None, "no argument", loc)
            continue
        if known:
            D = S("#user_ids")
            if batch:
                ids = S("requested")
                want = mk("comp", "list", idx(D, elem(ids)), (ids,), ())
            else:
                want = mk("list", (idx(D, S("user_id")),))
            judge(ctx, "own-user-row", q, arg, want, loc)
        else:
            users = S("user_profiles") if batch else S("user_profile")
            profile_matrix(ctx, q, arg, users, mk("len", users) if batch else ONE, loc)


# ------------------------------------------------------------------ frames
def frame_to_matrix(ctx):
    f = ctx.proj.func("irspack.utils.df_to_sparse")
    loc = f.loc()
    for u, i, r in itertools.product((False, True), repeat=3):
        q = f"df_to_sparse [{'given' if u else 'own'} users, {'given' if i else 'own'} items, {'rating' if r else 'no rating'}]"
        st = State()
        args = {"user_ids": S("user_ids") if u else NONE, "item_ids": S("item_ids") if i else NONE, "rating_column": S("rating_column") if r else NONE}
        given(st, *[k for k, v in args.items() if v is not NONE])
        I, st, v = analyse(ctx, f, args=args, st=st)
        v = norm(I.deep(v, st)) if v is not None else None
        if v is None or v.op != "tuple" or len(v.a[0]) != 3:
            ctx.ob("matrix-and-ids", q, None, "no (matrix, user ids, item ids)", loc)
            continue
        X, uids, iids = v.a[0]
        X = X.a[1] if X.op == "conv" else X
        if X.op != "sparse" or len(X.a) < 4:
            ctx.ob("matrix-and-ids", q, None, short(X, 120), loc)
            continue
        data, row, col, shape = X.a[:4]
        frames = {}
        for what, code, ids, column, cats in (("row", row, uids, S("user_column"), args["user_ids"]), ("column", col, iids, S("item_column"), args["item_ids"])):
            c = code.a[0] if code.op == "attr" and code.a[1] == "codes" else None
            if c is None or not (c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0].endswith("Categorical")):
                ctx.ob(f"own-{what}", q, None, f"{what} positions come from {short(code, 120)}", loc)
                continue
            src = c.a[1][0] if c.a[1] else dict(c.a[2]).get("values")
            kw = dict(c.a[2])
            cc = c.a[1][1] if len(c.a[1]) > 1 else kw.get("categories", NONE)
            ctx.ob(f"own-{what}", q, src.op == "idx" and src.a[1] is column, f"{what} positions come from {short(src, 120)}", loc)
            frames[what] = src.a[0] if src.op == "idx" else None
            ctx.ob(f"{what}s-of-the-given-ids", q, cc is cats if cc.op in ("sym", "const") or cats is not NONE and opaque_in(cc) is None and not any(y.op == "call" for y in walk(cc)) else (False if sorts(cc) else None),
                   f"categories are {short(cc, 100)}", loc)
            want = mk("attr", c, "categories")
            ctx.ob(f"{what}-ids", q, True if ids is want or (cats is not NONE and ids is cats) else (False if ids.op in ("attr", "sym") or ids.op == "call" and ids.a[0].op == "attr" and ids.a[0].a[1] in ("unique", "drop_duplicates") else None), f"returned ids are {short(ids, 120)}", loc)
            n = shape.a[0][0 if what == "row" else 1] if shape.op == "tuple" else None
            ctx.ob(f"{what}-count", q, (False if shape is NONE else None) if n is None else n in (mk("len", want), mk("len", ids), length(want), length(ids)), short(n, 100) if n is not None else "", loc)
        if len(frames) == 2:
            ctx.ob("same-rows", q, frames["row"] is frames["column"], "row and column positions come from different rows of the frame", loc)
            F = frames["row"]
            if F is None:
                continue
            for what, column, cats in (("user", S("user_column"), args["user_ids"]), ("item", S("item_column"), args["item_ids"])):
                if cats is not NONE:
                    ctx.ob(f"unlisted-{what}s-dropped", q, keeps_listed(F, column, cats), f"rows used are {short(F, 160)}", loc)
            if r:
                ok, why = same(data, mk("attr", idx(F, S("rating_column")), "values"))
                if not ok:
                    o2, _ = same(data, idx(F, S("rating_column")))
                    ok = True if o2 else ok
                ctx.ob("own-value", q, ok, why, loc)
            else:
                d = next((x for x in walk(data) if x.op in ("dim", "len")), None)
                okd = d is not None and d.a[0] is F or any(contains(data, x) for x in (mk("dim", F, 0), mk("len", F)))
                ctx.ob("own-value", q, True if okd else (None if any(c.op == "call" and c.a[0].op == "ext" and not c.a[0].a[0].endswith("ones") for c in walk(data)) else False), short(data, 120), loc)


def keeps_listed(F, column, ids):
    """Every row of F lists one of the ids in that column (None: cannot tell)."""
    seen = None
    while F.op == "idx":
        m = F.a[1]
        parts = [m]
        while any(x.op in ("and", "bitand") for x in parts):
            parts = [z for x in parts for z in ([y for w in x.a for y in (w if isinstance(w, tuple) else (w,)) if isinstance(y, T)] if x.op in ("and", "bitand") else [x])]
        for x in parts:
            if not isin(x):
                neg = x.op in ("not", "invert") and isin(x.a[0]) and touches(x.a[0], column)
                if neg:
                    return False
                seen = "?"
            elif touches(x, column):
                return True if argument(x) is ids else (False if argument(x).op == "sym" else None)
        F = F.a[0]
    return None if seen or F.op != "sym" else False


def isin(x):
    return x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "isin" and x.a[0].a[0].op == "idx"


def touches(x, column):
    return x.a[0].a[0].a[1] is column


def argument(x):
    a = x.a[1][0] if x.a[1] else dict(x.a[2]).get("values", NONE)
    while a.op in ("setof", "list", "conv") and len(a.a) and isinstance(a.a[-1], T):
        a = a.a[-1]
    return a


def sorts(t):
    return any(x.op in ("sorted", "setof", "reversed") or x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("numpy.sort", "numpy.unique", "builtins.reversed", "builtins.set") and not x.a[2] for x in walk(t))


def export(ctx):
    c = ctx.proj.find_class("irspack.split.userwise.UserTrainTestInteractionPair")
    for meth, X in (("df_train", "X_train"), ("df_test", "X_test")):
        I, st, o = construct(ctx, c, facts=[not_(isnone(S(k))) for k in ("item_ids", "X_test")])
        f = c.find(meth)
        n0, p0 = len(I.effects), len(st.path)
        I, st, v = analyse(ctx, f, c, selfterm=o, st=st, interp=I)
        loc = f.loc()
        if v is None:
            ctx.ob("export-available", meth, False, "never returns although item IDs are given", loc)
            continue
        raw = I.deep(v, st)
        bad = [e for e in I.effects[n0:] if e.kind == "raise" and len(e.path) <= p0]
        ctx.ob("export-available", meth, not bad, "raises although item IDs are given", bad[0].loc if bad else loc)
        ds = [x for x in walk(raw) if x.op == "dict"]
        if not ds:
            ctx.ob("export", meth, None, short(norm(raw), 160), loc)
            continue
        d = {k.a[0]: w for k, w in ds[0].a[0] if k.op == "const"}
        src = {}
        for name, attr, ids in (("user_id", "row", "user_ids"), ("item_id", "col", "item_ids")):
            t = d.get(name)
            if t is None:
                ctx.ob("export-column", f"{meth} {name}", False, f"no {name} column", loc)
                continue
            w = norm(t)
            if not (w.op == "comp" and len(w.a[2]) == 1 and w.a[1].op == "idx"):
                w2 = w if w.op == "idx" else None
                if w2 is not None and w2.a[1].op == "attr":
                    ctx.ob("export-own-id", f"{meth} {name}", norm(w2.a[0]) is S(ids) and w2.a[1].a[1] == attr, short(w, 120), loc)
                    continue
                ctx.ob("export-own-id", f"{meth} {name}", None, short(w, 120), loc)
                continue
            dom = w.a[2][0]
            ctx.ob("export-own-id", f"{meth} {name}", w.a[1].a[0] is S(ids) and w.a[1].a[1] is elem(dom), f"{name} is {short(w, 120)}", loc)
            ok = dom.op == "attr" and dom.a[1] == attr and dom.a[0] is S(X)
            ctx.ob("export-own-position", f"{meth} {name}", ok if dom.op in ("attr", "nzidx") or dom.op == "idx" or sorts(dom) else None, f"{name} follows {short(dom, 120)}", loc)
            src[name] = doms(t)
        r = d.get("rating")
        if r is not None and "user_id" in src:
            w = norm(r)
            base = rowsource(src["user_id"])
            mine = rowsource(r)
            if w.op == "attr" and w.a[1] == "data" and base is not None and mine is not None:
                ctx.ob("export-own-value", meth, base is mine and w.a[0] is S(X), f"ratings are those of {short(mine, 80)}, positions those of {short(base, 80)}", loc)
            else:
                ctx.ob("export-own-value", meth, False if w.op == "comp" and w.a[1].op == "idx" and w.a[1].a[0] in (S("item_ids"), S("user_ids")) else None,
                       f"ratings are {short(w, 120)}", loc)


def doms(t):
    while t.op == "conv":
        t = t.a[1]
    return t.a[2][0] if t.op == "comp" else t


def rowsource(t):
    """The very matrix object whose entries are enumerated."""
    while t.op == "conv" and t.a[0] in ("asarray", "list", "copy", "array"):
        t = t.a[1]
    if t.op == "attr" and t.a[1] in ("row", "col", "data"):
        return t.a[0]
    return None


def concat(ctx):
    c = ctx.proj.find_class("irspack.split.userwise.UserTrainTestInteractionPair")
    f = c.find("concat")
    loc = f.loc()
    I, st, o = construct(ctx, c, facts=[not_(isnone(S("X_test")))])
    other = mk("sym", "other")
    I.types[other] = c
    I, st, v = analyse(ctx, f, c, selfterm=o, st=st, interp=I)
    if v is None or v.op != "new":
        ctx.ob("concat", "concat", None, "no new pair", loc)
        return

    def field(n):
        x = st.heap.get(("a", v, n))
        return norm(I.deep(x, st)) if x is not None else None
    got = field("user_ids")
    me = S("user_ids")
    want = mk("concat", (me, mk("attr", other, "user_ids")))
    order_ = flat(got)
    ok = order_ == [me, mk("attr", other, "user_ids")]
    ctx.ob("concat-users", "concat user_ids", ok if ok or order_ else None, f"users are {short(got, 120)}", loc)
    for n in ("X_train", "X_test"):
        x = field(n)
        parts = None
        for y in walk(x):
            if y.op == "vstack":
                parts = list(y.a[0])
            elif y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0].endswith("vstack") and y.a[1] and y.a[1][0].op in ("list", "tuple"):
                parts = list(y.a[1][0].a[0])
        ctx.ob("concat-rows", f"concat {n}", None if parts is None else parts == [S(n), mk("attr", other, n)], f"rows are {[short(p, 60) for p in parts or []]}", loc)


def flat(t):
    if t is None:
        return []
    if t.op == "concat":
        return [y for x in t.a[0] for y in flat(x)]
    if t.op == "lin":
        return []
    if t.op == "comp" and t.a[0] == "list" and len(t.a[2]) == 1 and not t.a[3] and t.a[1] is elem(t.a[2][0]):
        return flat(t.a[2][0])
    if t.op in ("sym", "attr"):
        return [t]
    if t.op == "list":
        return [y for x in t.a[0] for y in (flat(x.a[0]) if x.op == "star" else [x])]
    return []


def is_index_dict(t):
    return t.op == "comp" and t.a[0] == "dict" and len(t.a[2]) == 1 and not t.a[3] and t is index_dict(t.a[2][0])


def frame_eval(ctx):
    f = ctx.proj.func("irspack.evaluation.evaluate_df_to_df.evaluate_recommendation_df")
    loc = f.loc()
    I, st, v = analyse(ctx, f)
    dicts = []
    for e in I.effects:
        if e.kind != "mutcall" or e.name != "append" or len(e.loops) != 1 or e.loops[0].dom is None:
            continue
        dom = norm(I.deep(e.loops[0].dom, st))
        if not (dom.op == "call" and dom.a[0].op == "attr" and dom.a[0].a[1] == "itertuples"):
            continue
        row = mk("elem", dom, e.loops[0].depth)
        frame = root(dom.a[0].a[0])
        val = norm(I.deep(e.args[0], st))
        sets = [s for s in I.effects if s.kind == "mutcall" and s.name == "setdefault" and s.loops and s.loops[0] is e.loops[0]]
        for s in sets:
            key_ = norm(I.deep(s.args[0], st))
            dicts.append((s.obj, frame, key_, val, row))
    if len(dicts) < 2:
        ctx.ob("frame-evaluation", f.name, None, "grouping of recommendations by user not recognised", loc)
        return
    field = lambda row, n: mk("getattr", row, S(n))
    itemdicts, userdicts, byframe = set(), set(), {}
    for obj, frame, k, val, row in dicts:
        fr = frame.a[0] if frame.op == "sym" else short(frame, 40)
        raw_u = attr_of(row, "user_column")
        raw_i = attr_of(row, "item_column")
        ok = k in raw_u or k.op == "idx" and is_index_dict(k.a[0]) and k.a[1] in raw_u
        ctx.ob("grouped-by-own-user", f"{f.name} {fr}", ok if ok or not opaque_in(k) or stale(k, row) else None, f"rows of {fr} are grouped by {short(k, 120)}", loc)
        ok = val in raw_i or val.op == "idx" and is_index_dict(val.a[0]) and val.a[1] in raw_i
        ctx.ob("own-item", f"{f.name} {fr}", ok if ok or not opaque_in(val) or stale(val, row) else None, f"the listed item is {short(val, 120)}", loc)
        if val.op == "idx":
            itemdicts.add(val.a[0])
        userdicts.add(k.a[0] if k.op == "idx" else None)
        byframe[obj] = fr
    ctx.ob("one-item-index", f.name, len(itemdicts) == 1, "recommendations and ground truth number items differently", loc)
    ctx.ob("one-user-index", f.name, len(userdicts) == 1, "recommendations and ground truth number users differently", loc)
    w = I.deep(v, st)
    calls = [x for x in walk(norm(w)) if x.op == "call" and x.a[0].op == "fn" and x.a[0].a[0].endswith("evaluate_list_vs_list")]
    if len(calls) != 1:
        ctx.ob("frame-evaluation", f.name, None, "no native evaluation", loc)
        return
    kw = dict(calls[0].a[2])
    for p, want in (("recommendations", "df_recommendation"), ("ground_truths", "df_ground_truth")):
        t = kw.get(p)
        if t is None or t.op != "comp" or len(t.a[2]) != 1:
            ctx.ob("list-of-own-frame", f"{f.name} {p}", None, short(t, 100) if t is not None else "", loc)
            continue
        alts = [x for _, x in leaves(t.a[1]) if x is not mk("list", ())]
        for x in alts:
            if x.op != "idx":
                ctx.ob("list-of-own-frame", f"{f.name} {p}", None, short(x, 100), loc)
                continue
            srcs = {root(y.a[0].a[0]).a[0] for y in walk(x.a[0]) if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "itertuples" and root(y.a[0].a[0]).op == "sym"}
            ctx.ob("list-of-own-frame", f"{f.name} {p}", want in srcs if srcs else None, f"{p} is built from {sorted(srcs)}", loc)
            ctx.ob("list-of-own-user", f"{f.name} {p}", x.a[1] is elem(t.a[2][0]) and not t.a[3], f"user {short(x.a[1], 80)}", loc)
    rawc = next(x for x in walk(w) if x.op == "call" and x.a[0].op == "fn" and x.a[0].a[0].endswith("evaluate_list_vs_list"))
    a, b = (unwrap(dict(rawc.a[2])[k]) for k in ("recommendations", "ground_truths"))
    if a.op == b.op == "comp":
        ctx.ob("same-user-order", f.name, a.a[2] == b.a[2] and a.a[3] == b.a[3], "recommendations and ground truth enumerate users differently", loc)
    n = kw.get("n_items")
    if len(itemdicts) == 1:
        D = next(iter(itemdicts))
        ctx.ob("item-count", f.name, True if n in (mk("len", D), length(D.a[2][0])) else (None if opaque_in(n) else False), f"n_items is {short(n, 120)}", loc)


def unwrap(t):
    while t.op == "conv":
        t = t.a[1]
    return t


def stale(t, row):
    """The value left over from an earlier loop, nothing of the current row."""
    return not contains(t, row) and any(x.op == "last" for x in walk(t))


def attr_of(row, n):
    return {mk("getattr", row, S(n)), mk("call", mk("ext", "builtins.getattr"), (row, S(n)), (), 0)} | {idx(row, S(n))}


def check(ctx):
    ctx.guard(ctor, ctx, "ItemIDMapper", ["item_ids"])
    ctx.guard(ctor, ctx, "IDMapper", ["item_ids", "user_ids"])
    ctx.guard(profiles, ctx)
    from .c14 import single, batch
    ctx.guard(single, ctx, {"pair"})
    ctx.guard(batch, ctx, {"pair"})
    ctx.guard(recommend, ctx, "ItemIDMapper", "recommend_for_new_user", False, False)
    ctx.guard(recommend, ctx, "ItemIDMapper", "recommend_for_new_user_batch", True, False)
    ctx.guard(recommend, ctx, "IDMapper", "recommend_for_known_user_id", False, True)
    ctx.guard(recommend, ctx, "IDMapper", "recommend_for_known_user_batch", True, True)
    ctx.guard(frame_to_matrix, ctx)
    ctx.guard(export, ctx)
    ctx.guard(concat, ctx)
    ctx.guard(frame_eval, ctx)
