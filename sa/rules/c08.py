"""C08: user splits, read as an algebra of row predicates and ID lists over the caller's frame."""
from ..common import *
from ..norm import norm, eqv
from ..frames import *
import itertools

LEVEL = "proof"
MIN_OBLIGATIONS = 150
EXPLANATION = ("Both user-splitting functions are analysed with symbolic frames, columns, counts and ratios, once per combination of given and omitted options. "
               "The user lists, matrices and item lists that come out are read back as predicates over the rows of the input frame and as pieces of the list of all "
               "users; the pieces must tile that list with the requested sizes, every matrix must hold exactly the rows of its own users (split into two complementary "
               "halves for held-out users), carry the rating of its own row, and be coded against its own user list and the one common item list.")
ASSUMPTIONS = ["pandas and numpy operations (isin, unique, Categorical, factorize, drop_duplicates, groupby/cumcount) behave as documented",
               "shuffling a list in place permutes it", "requested counts are nonnegative integers",
               "the native row split honours C09"]
PAIR = "irspack.split.userwise.UserTrainTestInteractionPair"
S = sym


def dictof(I, st, t):
    d = I.content(t, st)
    if d.op != "dict":
        raise AnalysisError("split result is not a dict display")
    return {k.a[0]: v for k, v in d.a[0]}


class MissingPart(AnalysisError):
    pass


def bundle(I, st, parts):
    out = []
    for name in ("train", "val", "test"):
        o = parts.get(name)
        if o is None:
            raise MissingPart(f"the result has no {name!r} part")
        for a in ("user_ids", "X_train", "X_test", "item_ids"):
            v = st.heap.get(("a", o, a)) if o.op == "new" else None
            if v is None:
                raise AnalysisError(f"{name}.{a} not known")
            out.append(I.deep(v, st))
    return out


def cases(I, st, terms):
    """phi-free alternatives of all terms together."""
    return [(cs, x.a[0]) for cs, x in hoist(norm(mk("tuple", tuple(strip(t) for t in terms))), cap=600)]


class Mat:
    def __init__(self, frame, users, items, val, shape):
        self.frame, self.users, self.items, self.val, self.shape = frame, users, items, val, shape


def matrix(F, t):
    if t.op != "sparse":
        raise Unknown("matrix " + short(t, 200))
    d, r, c, sh = t.a
    gd, vd = F.series(d)
    gr, vr = F.series(r)
    gc, vc = F.series(c)
    if not (gd.rows() == gr.rows() == gc.rows()):
        return Mat(None, None, None, None, None)
    if vr[0] != "code" or vc[0] != "code":
        raise Unknown("matrix index is not an ID code")
    shape = None
    if sh.op == "tuple" and len(sh.a[0]) == 2:
        shape = tuple(F.lst(x.a[0]) if x.op in ("len", "dim") else None for x in sh.a[0])
    return Mat(gd, vr, vc, vd, shape)


def fmt(p):
    return "rows where " + " or ".join(" and ".join(sorted(atom(a) for a in c)) or "true" for c in p) if p else "no rows"


def atom(a):
    if a[0] == "not":
        return "not(" + atom(a[1]) + ")"
    return " ".join(short(x, 80) if isinstance(x, T) else fl(x) for x in a)


def fl(x):
    if isinstance(x, T):
        return short(x, 80)
    if isinstance(x, (tuple, frozenset)):
        return "(" + " ".join(fl(y) for y in x) + ")"
    return str(x)


def check_matrix(ctx, F, who, tag, m, pred, users, items, ucol, icol, val, loc):
    """m holds exactly the rows `pred`, with `val`, coded against users x items."""
    if m.frame is None:
        ctx.ob("rows-aligned", f"{who}{tag}", False, "row index, column index and values come from different rows", loc)
        return
    p, q = F.tidy(m.frame.pred), F.tidy(pred)
    ctx.ob("rows-of-own-users", f"{who}{tag}", p == q, f"{fmt(p)} instead of {fmt(q)}", loc)
    ctx.ob("row-is-user", f"{who}{tag}", m.users[1] == ("col", ucol), f"row index codes {fl(m.users[1])}", loc)
    ctx.ob("column-is-item", f"{who}{tag}", m.items[1] == ("col", icol), f"column index codes {fl(m.items[1])}", loc)
    ctx.ob("own-user-list", f"{who}{tag}", m.users[2] == users, f"rows coded against {fl(m.users[2])}, user list is {fl(users)}", loc)
    ctx.ob("common-item-list", f"{who}{tag}", m.items[2] == items, f"columns coded against {fl(m.items[2])}, item list is {fl(items)}", loc)
    ctx.ob("value", f"{who}{tag}", m.val == val, f"values are {fl(m.val)} instead of {fl(val)}", loc)
    if m.shape is not None:
        ctx.ob("shape", f"{who}{tag}", m.shape == (users, items), f"shape {fl(m.shape)}", loc)


def whole(F, t, base):
    """Every way of writing the number of all users becomes one symbol."""
    t = norm(t)
    m = {}
    for x in walk(t):
        try:
            if x.op in ("len", "dim"):
                if F.lst(x.a[0]) == ("piece", base, ZERO, None):
                    m[x] = S("#users")
            elif x.op == "call" and F.meth(x)[0] == "nunique" and F.uniq(F.meth(x)[1]) == ("piece", base, ZERO, None):
                m[x] = S("#users")
        except Unknown:
            pass
    return norm(subst(t, m)) if m else t


def tiling(ctx, F, tag, ul, counts, base, loc):
    """The three lists are pieces of the list of all users, tile it, and have the requested sizes."""
    ps = {}
    for k, L in ul.items():
        if L[0] == "empty":
            ps[k] = None
            continue
        b, lo, hi = F.piece(L)
        ctx.ob("user-base", f"{k}{tag}", b == base, f"{fl(b)} is not the list of all users {fl(base)}", loc)
        if b != base:
            return
        ps[k] = (lo, hi)
    live = {k: p for k, p in ps.items() if p is not None and not (p[1] is not None and eqv(p[0], p[1]))}
    order, at = [], ZERO
    while True:
        nxt = [k for k, p in live.items() if k not in order and eqv(p[0], at)]
        if not nxt:
            break
        k = nxt[0]
        order.append(k)
        at = live[k][1]
        if at is None:
            break
    ok = at is None and len(order) == len(live)
    ctx.ob("users-tile", f"train/val/test users{tag}", ok, f"pieces {fl(tuple((k, p) for k, p in ps.items()))} do not tile the users", loc)
    for k, n in counts.items():
        p = ps[k]
        if n is None:
            continue
        size = ZERO if p is None else (sub(p[1], p[0]) if p[1] is not None else None)
        ctx.ob("user-count", f"{k}{tag}", size is not None and eqv(whole(F, size, base), whole(F, n, base)),
               f"{short(size, 120) if size is not None else 'open piece'} users instead of {short(n, 120)}", loc)


def spans(ctx, F, tag, lists, none, conds, base, loc):
    """Bounds clipped by bounds they cannot be ordered against: lay the three lists out for a few sizes and compare with what was asked for."""
    class No(Exception):
        pass

    def num(t, env):
        t = whole(F, t, base)

        def go(t):
            if t in env:
                return env[t]
            if t.op == "const" and isinstance(t.a[0], (int, float)):
                return t.a[0]
            if t.op == "toint":
                return int(go(t.a[0]))
            if t.op in ("min", "max"):
                return (min if t.op == "min" else max)(go(x) for x in t.a[0])
            if t.op == "lin":
                c, d = lin_parts(t)
                return c + sum(k * go(x) for x, k in d.items())
            if t.op == "mul":
                r = 1
                for x in t.a[0]:
                    r *= go(x)
                return r
            if t.op in ("lt", "le", "eq"):
                x, y = go(t.a[0]), go(t.a[1])
                return x < y if t.op == "lt" else x <= y if t.op == "le" else x == y
            if t.op == "not":
                return not go(t.a[0])
            raise No
        return go(t)

    def rng_(L, env):
        if L[0] == "empty":
            return range(0)
        b, lo, hi = F.piece(L)
        if b != base:
            raise No
        return range(env[S("#users")])[num(lo, env):None if hi is None else num(hi, env)]

    decided = False
    for N, nv, nt, rv, rt in ((12, 3, 2, 0.5, 0.25), (20, 2, 6, 0.2, 0.3), (12, 4, 0, 0.5, 0.0), (12, 0, 4, 0.0, 0.5), (30, 7, 5, 0.1, 0.4)):
        env = {S("#users"): N, S("n_val_user"): nv, S("n_test_user"): nt, S("val_user_ratio"): rv, S("test_user_ratio"): rt,
               S("heldout_ratio_val"): 0.75, S("heldout_ratio_test"): 0.125, S("n_heldout_val"): 1, S("n_heldout_test"): 8}
        try:
            bad = False
            for c in conds:
                try:
                    bad = bad or not num(c, env)
                except No:
                    pass
            if bad:
                continue
            got = {k: list(rng_(t, env)) for k, t in lists.items()}
        except No:
            continue
        want = {"val": int(N * rv) if none[2] else nv, "test": int(N * rt) if none[3] else nt}
        ok = sorted(got["train"] + got["val"] + got["test"]) == list(range(N))
        decided = True
        if not ok:
            ctx.ob("users-tile", f"train/val/test users{tag}", False, f"of {N} users with {want} requested, train/val/test get positions "
                   + "/".join(f"{g[0]}..{g[-1]}" if g else "none" for g in got.values()), loc)
            return True
        for k in want:
            if len(got[k]) != want[k]:
                ctx.ob("user-count", f"{k}{tag}", False, f"{len(got[k])} of {N} users instead of {want[k]}", loc)
                return True
    return False


def zero_small(conds, terms):
    """Where a branch says a nonnegative count is below one, it is zero."""
    m = {}
    for c in conds:
        if c.op == "lt" and is_const(c.a[1], 1):
            m[c.a[0]] = ZERO
        if c.op == "not" and c.a[0].op == "le" and is_const(c.a[0].a[0], 1):
            m[c.a[0].a[1]] = ZERO
        if c.op == "eq" and ZERO in c.a:
            m[[x for x in c.a if x is not ZERO][0]] = ZERO
        if c.op == "le" and c.a[1] is ZERO:
            m[c.a[0]] = ZERO
        if c.op == "not" and c.a[0].op == "lt" and c.a[0].a[0] is ZERO:
            m[c.a[0].a[1]] = ZERO
        if c.op == "not" and c.a[0].op == "truth":
            m[c.a[0].a[0]] = ZERO
    m.pop(ZERO, None)
    if not m:
        return terms
    return tuple(norm(subst(t, m)) for t in terms)


def partial(ctx):
    f = ctx.proj.func("irspack.split.userwise.split_dataframe_partial_user_holdout")
    for none in itertools.product((True, False), repeat=4):
        ctx.guard(once, ctx, partial_case, ctx, f, none)


def halves(ctx, F, who, tag, tr, te, users, items, r, n, ceil, conds, rating, ucol, icol, loc, timed=None):
    P = frozenset([frozenset([("in", ("col", ucol), users)])]) if users[0] != "empty" else FALSE_P
    val = ("one",) if rating is NONE else ("col", rating)
    sp = next((x for x in (tr, te) if x.op == "idx" and x.a[0].op == "call" and x.a[0].a[0].op == "fn"), None)
    if sp is not None:
        ok = te.op == "idx" and tr.op == "idx" and te.a[0] is tr.a[0]
        ctx.ob("complementary", f"{who}{tag}", ok and is_const(tr.a[1], 0) and is_const(te.a[1], 1),
               "train and held-out parts are not the two results of one split, in this order", loc)
        ctx.ob("time-or-random", f"{who}{tag}", timed is not True, "a time column is given, but the held-out part is drawn at random", loc)
        call = sp.a[0]
        kw = dict(call.a[2])
        name = call.a[0].a[0].split(".")[-1]
        nn = isnone(S(n)) in conds
        want = "rowwise_train_test_split_by_ratio" if nn else "rowwise_train_test_split_by_fixed_n"
        ctx.ob("own-heldout-option", f"{who}{tag}", name == want, f"{name} instead of {want}", loc)
        if name == want:
            if nn:
                ctx.ob("own-heldout-option", f"{who} ratio{tag}", norm(kw["heldout_ratio"]) is S(r), short(kw["heldout_ratio"]), loc)
                ctx.ob("own-heldout-option", f"{who} ceil{tag}", norm(kw["n_test_ceil"]) in (S(ceil), mk("truth", S(ceil))), short(kw["n_test_ceil"]), loc)
            else:
                ctx.ob("own-heldout-option", f"{who} count{tag}", norm(kw["n_held_out"]) is S(n), short(kw["n_held_out"]), loc)
        check_matrix(ctx, F, who, tag, matrix(F, kw["X"]), P, users, items, ucol, icol, val, loc)
        return
    ctx.ob("time-or-random", f"{who}{tag}", timed is not False, "no time column is given, but the held-out part is taken by time", loc)
    a, b = matrix(F, tr), matrix(F, te)
    if a.frame is None or b.frame is None:
        ctx.ob("rows-aligned", f"{who}{tag}", False, "row index, column index and values come from different rows", loc)
        return
    if users[0] == "empty":
        pa = pb = FALSE_P
    else:
        # the held-out predicate restricted to the part's users; the other half must be its complement
        h = frozenset(frozenset(x for x in c if x[0] not in ("in",)) for c in F.tidy(b.frame.pred))
        pb, pa = p_and(P, h), p_and(P, p_not(h))
        at = [x for c in h for x in c]
        ok = len(at) == 1 and at[0][0] == "cmp"
        if ok:
            y = at[0][3]
            if isnone(S(n)) in conds:
                cc = (mk("truth", S(ceil)), S(ceil))
                fn = "ceil" if any(c in conds for c in cc) else "floor" if any(not_(c) in conds for c in cc) else None
                ok = isinstance(y, tuple) and y[0] == fn and y[1][0] == "times" and y[1][2] == (S(r),)
            else:
                ok = y is S(n)
            t_ = ("col", S("time_column"))
            latest = [("rank", ("col", ucol), ((t_, True),), False), ("rank", ("col", ucol), ((t_, False),), True)]
            ctx.ob("latest-of-own-user", f"{who}{tag}", at[0][2] in latest, f"held out by {fl(at[0][2])} instead of the rank from the user's latest interaction", loc)
        ctx.ob("own-heldout-option", f"{who}{tag}", ok, f"held-out part is {fmt(h)}", loc)
    check_matrix(ctx, F, who + " train", tag, a, pa, users, items, ucol, icol, val, loc)
    check_matrix(ctx, F, who + " held-out", tag, b, pb, users, items, ucol, icol, val, loc)


def own_items(ctx, F, who, t, items, loc):
    """the item IDs handed to a part are those its columns are laid out on"""
    try:
        ok = t is NONE or F.lst(t) == items
    except Unknown:
        ok = False if t.op in ("sym", "const") else None
    ctx.ob("common-item-list", who + " IDs", ok, f"item IDs attached to the part are {short(t, 120)}", loc)


def assume_all(c, fs):
    c = strip(c)
    for f in fs:
        c = assume(c, f, False)
    return c


def excludes(c, total, N, w):
    """Does path condition c imply total <= N?"""
    if c.op == "and":
        return any(excludes(x, total, N, w) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a))
    if c.op == "not":
        return c.a[0].op == "lt" and same_diff(c.a[0].a[0], c.a[0].a[1], N, total, w)
    if c.op in ("le", "lt"):
        return same_diff(c.a[0], c.a[1], total, N, w)
    return False


def same_diff(a, b, x, y, w):
    return eqv(w(sub(b, a)), w(sub(y, x)))


def partial_case(ctx, f, none):
    names = ("time_column", "rating_column", "n_val_user", "n_test_user")
    args = {n: NONE for n, x in zip(names, none) if x}
    st = State()
    st.path = tuple(not_(isnone(S(n))) for n, x in zip(names, none) if not x)
    I, st, v = analyse(ctx, f, args=args, st=st)
    if v is None or v.op != "tuple":
        raise AnalysisError("no result")
    path = [assume_all(c, [isnone(S(n)) for n, x in zip(names, none) if not x]) for c in st.path]
    facts = [not_(isnone(S(n))) for n, x in zip(names, none) if not x]
    try:
        terms = bundle(I, st, dictof(I, st, v.a[0][0])) + [I.deep(v.a[0][1], st)]
    except MissingPart as e:
        ctx.ob("three-parts", f"{f.name} {none}", False, str(e), f.loc())
        return
    ctx.ob("three-parts", f"{f.name} {none}", True)
    for c in facts:
        terms = [assume(strip(t), c.a[0], False) for t in terms]
    u, i = S("user_column"), S("item_column")
    df = S("df_all")
    loc = f.loc()
    rating = NONE if none[1] else S("rating_column")
    nn = {S(x) for x in ("n_val_user", "n_test_user", "val_user_ratio", "test_user_ratio")}
    todo = [x for x in cases(I, st, terms)]
    ctx.anchor(todo, "split cases")
    for conds, ts in todo:
        ts = zero_small(conds, ts)
        F = Frames([df], [u, i, S("rating_column"), S("time_column")], nn)
        tag = " [" + ",".join(n for n, x in zip(names, none) if not x) + "; " + " ".join(short(c, 40) for c in conds)[:160] + "]"
        allu = ("uniq", df, TRUE_P, ("col", u))
        ul = {}
        for k, n in enumerate(("train", "val", "test")):
            ul[n] = F.lst(ts[4 * k])
        clipped = any(y.op in ("min", "max") for L in ul.values() if L[0] != "empty" for b in F.piece(L)[1:] if b is not None for y in walk(b))
        if clipped and spans(ctx, F, tag, ul, none, conds, allu, loc):
            continue
        items = F.lst(ts[12])
        for k, n in enumerate(("train", "val", "test")):
            own_items(ctx, F, f"{n}{tag}", ts[4 * k + 3], items, loc)
        N = S("#users")
        wconds = [whole(F, c, allu) for c in conds]
        nval = S("n_val_user") if not none[2] else None
        ntest = S("n_test_user") if not none[3] else None
        cnt = {}
        for part, sy, ratio in (("val", nval, "val_user_ratio"), ("test", ntest, "test_user_ratio")):
            cnt[part] = zero_small(wconds, (sy if sy is not None else mk("toint", mul(N, S(ratio))),))[0]
        if not clipped:
            tiling(ctx, F, tag, ul, cnt, allu, loc)
        total = norm(add(nval if nval is not None else mk("toint", mul(N, S("val_user_ratio"))), ntest if ntest is not None else mk("toint", mul(N, S("test_user_ratio")))))
        ctx.ob("too-many-users-rejected", f"n_val_user + n_test_user{tag}", any(excludes(norm(strip(c)), total, N, lambda t: whole(F, t, allu)) for c in path),
               "nothing rejects more validation and test users than there are users", loc)
        ctx.ob("item-list", f"items{tag}", F.piece(items)[0] == ("uniq", df, TRUE_P, ("col", i)) and F.piece(items)[1:] == (ZERO, None), fl(items), loc)
        P = frozenset([frozenset([("in", ("col", u), ul["train"])])])
        val = ("one",) if rating is NONE else ("col", rating)
        check_matrix(ctx, F, "train", tag, matrix(F, ts[1]), P, ul["train"], items, u, i, val, loc)
        ctx.ob("train-not-held-out", f"train{tag}", ts[2].op == "zeros", short(ts[2], 100), loc)
        halves(ctx, F, "val", tag, ts[5], ts[6], ul["val"], items, "heldout_ratio_val", "n_heldout_val", "ceil_n_heldout", conds, rating, u, i, loc, timed=not none[0])
        halves(ctx, F, "test", tag, ts[9], ts[10], ul["test"], items, "heldout_ratio_test", "n_heldout_test", "ceil_n_heldout", conds, rating, u, i, loc, timed=not none[0])


def once(ctx, fn, *a):
    try:
        fn(*a)
    except Overlap as e:
        ctx.ob("rows-taken-once", fn.__name__, False, str(e), "")


def specified(ctx):
    f = ctx.proj.func("irspack.split.specified.holdout_specific_interactions")
    I, st, v = analyse(ctx, f)
    try:
        terms = [I.deep(v.a[0][0], st)] + bundle(I, st, dictof(I, st, v.a[0][1]))
    except MissingPart as e:
        ctx.ob("three-parts", f.name, False, str(e), f.loc())
        return
    ctx.ob("three-parts", f.name, True)
    df, u, i = S("df"), S("user_column"), S("item_column")
    loc = f.loc()
    a, b = S("validatable_user_ratio_val"), S("validatable_user_ratio_test")
    flag = ("flag", S("interaction_indicator"))
    for conds, ts in cases(I, st, terms):
        tag = " [" + " ".join(short(c, 60) for c in conds)[:160] + "]"
        F = Frames([df], [u, i], {a, b, norm(sub(sub(ONE, a), b))})
        items, ts = F.lst(ts[0]), ts[1:]
        ctx.ob("item-list", f"items{tag}", F.piece(items) == (("uniq", df, TRUE_P, ("col", i)), ZERO, None), fl(items), loc)
        for k, n in enumerate(("train", "val", "test")):
            own_items(ctx, F, f"{n}{tag}", ts[4 * k + 3], items, loc)
        V = ("piece", ("uniq", df, frozenset([frozenset([flag])]), ("col", u)), ZERO, None)
        mats = {}
        for k, n in enumerate(("train", "val", "test")):
            if n != "train" and ts[4 * k + 2].op == "zeros":
                ctx.ob("rows-of-own-users", f"{n} held-out{tag}", False, "no interaction is held out", loc)
                return
            mats[n] = [matrix(F, ts[4 * k + 1])] + ([matrix(F, ts[4 * k + 2])] if n != "train" else [])
            if any(m.frame is None for m in mats[n]):
                ctx.ob("rows-aligned", f"{n}{tag}", False, "row index, column index and values come from different rows", loc)
                return
        ctx.ob("train-not-held-out", f"train{tag}", ts[2].op == "zeros", short(ts[2], 100), loc)
        # which validatable users each part takes
        ul = {}
        for n in ("val", "test"):
            ul[n] = F.lst(ts[4 * ("train", "val", "test").index(n)])
        nin = ("not", ("in", ("col", u), V))
        p = F.tidy(mats["train"][0].frame.pred)
        rest = [c for c in p if c != frozenset([nin])]
        ctx.ob("users-without-flag", f"train{tag}", frozenset([nin]) in p, f"{fmt(p)}: users without flagged interactions are not all in train", loc)
        ok = len(rest) == 0 or (len(rest) == 1 and len(rest[0]) == 1 and next(iter(rest[0]))[0:2] == ("in", ("col", u)))
        ctx.ob("rows-of-own-users", f"train{tag}", ok, fmt(p), loc)
        if not ok:
            continue
        ul["train"] = next(iter(rest[0]))[2] if rest else ("empty",)
        n = length_of(V, F, ts)
        cnt = {}
        tiling(ctx, F, tag, ul, cnt, V[1], loc)
        sizes(ctx, F, tag, ul, a, b, conds, loc)
        tl = F.lst(ts[0])
        m = mats["train"][0]
        check_matrix(ctx, F, "train", tag, m, p, tl, items, u, i, ("one",), loc)
        for n in ("val", "test"):
            P = frozenset([frozenset([("in", ("col", u), ul[n])])]) if ul[n][0] != "empty" else FALSE_P
            fl_ = frozenset([frozenset([flag])])
            check_matrix(ctx, F, n + " train", tag, mats[n][0], p_and(P, p_not(fl_)), ul[n], items, u, i, ("one",), loc)
            check_matrix(ctx, F, n + " held-out", tag, mats[n][1], p_and(P, fl_), ul[n], items, u, i, ("one",), loc)


def length_of(V, F, ts):
    return None


def sizes(ctx, F, tag, ul, a, b, conds, loc):
    """train takes int((1-a-b) n) of the validatable users, validation int(a/(a+b)) of the others (or the analogous split), test the remainder."""
    def n_of(t):
        """Replace counts of the validatable users by one symbol."""
        m = {}
        for x in walk(t):
            if x.op in ("len", "dim"):
                try:
                    L = F.lst(x.a[0])
                except Unknown:
                    continue
                base, lo, hi = F.piece(L)
                if base[0] == "uniq" and base[2] != TRUE_P:
                    N = S("#validatable")
                    m[x] = sub(N if hi is None else hi, lo)
        return norm(subst(t, m)) if m else norm(t)

    def fix(t):
        for _ in range(4):
            r = n_of(t)
            if r is t:
                break
            t = r
        return t
    N = S("#validatable")
    tr = ul["train"]
    ntr = ZERO if tr[0] == "empty" else (F.piece(tr)[2] or N)
    if tr[0] != "empty":
        b_, lo, hi = F.piece(tr)
        ntr = fix(sub(N if hi is None else hi, lo))
        want = norm(mk("toint", mul(N, sub(sub(ONE, a), b))))
        ctx.ob("user-ratio", f"train{tag}", eqv(ntr, want), f"{short(ntr, 200)} of the flagged users instead of {short(want, 200)}", loc)
    else:
        from .c14 import ev, Unknown as Open
        try:
            reach = all(ev(norm(c), {a: 0.25, b: 0.25}) for c in conds)
        except Open:
            reach = False
        ctx.ob("user-ratio", f"train{tag}", not reach, "no flagged user is left for training when the two ratios do not add up to one", loc)
    b_, lo, hi = F.piece(ul["val"]) if ul["val"][0] != "empty" else (None, ZERO, ZERO)
    nv = fix(sub(N if hi is None else hi, lo))
    want = norm(mk("toint", mk("div", mul(sub(N, ntr), a), add(a, b))))
    ctx.ob("user-ratio", f"val{tag}", eqv(nv, want), f"{short(nv, 200)} of the flagged users instead of {short(want, 200)}", loc)


def check(ctx):
    partial(ctx)
    ctx.guard(once, ctx, specified, ctx)
