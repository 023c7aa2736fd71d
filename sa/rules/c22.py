"""C22: the scoring entry points of one model agree."""
from ..common import *
from ..norm import norm, same, eqv
from .c16 import concrete, members

LEVEL = "proof"
TECHNIQUE = "static analysis: relational symbolic dataflow; the value terms of two entry points are compared under the substitution that makes their inputs denote the same users"
MIN_OBLIGATIONS = 30
EXPLANATION = ("Each concrete recommender is constructed and learnt symbolically; on that state every scoring entry point is evaluated. Block scoring must be the index scoring term with rows begin:end as the "
               "index, explicit-embedding scoring must be the regular term when given the model's own embedding, feature-based scoring must be the composition of its parts, and where regular scoring depends "
               "on users only through their interaction rows, cold scoring of those rows must be the same term.")
ASSUMPTIONS = ["row selection commutes with format conversion and with the left factor of a matrix product", "the native user_scores computes user[begin:end] times the transposed item factors (established by the native part)"]
SEL, N = sym("<rows>"), sym("<number of rows>")


class NotOffered(Exception):
    pass


class Model:
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        self.I, st, self.o = construct(ctx, c)
        f = c.find("learn")
        self.I.pending_raises = []
        try:
            self.I.run(f, st=st, selfterm=self.o, cls=c)
        except Unreachable:
            raise AnalysisError(f"{c.name}.learn never returns")
        self.st = st
        # the learnt native object is one unknown object, however it was made
        for k, v in list(st.heap.items()):
            if k[0] == "a" and any(x.op == "new" and native(ctx, x) for _, x in leaves(v)):
                st.heap[k] = sym(f"<{k[2]}>")

    def has(self, name):
        return self.c.find(name) is not None

    def call(self, name, *args, **kw):
        f = self.c.find(name)
        if f is None:
            raise NotOffered(name)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args][1:]
        d = dict(zip(names, args))
        d.update(kw)
        s = self.st.copy()
        n = len(self.I.effects)
        self.I.pending_raises = []
        try:
            v = self.I.run(f, args=d, st=s, selfterm=self.o, cls=self.c, use_defaults=True)
        except Unreachable:
            v = None
        if v is None:
            raise NotOffered(name)
        self.ctx.saw(*self.I.analysed)
        return norm(native_calls(natives(norm(self.I.deep(v, s)))))

    def loc(self, name):
        f = self.c.find(name)
        return f.loc() if f else None


def native(ctx, x):
    c = ctx.proj.find_class(x.a[0]) if isinstance(x.a[0], str) else None
    return c is not None and c.module.is_stub


def rows(t, kind, X=None):
    """Canonical row selection: kind 'index' for user_indices, 'block' for begin:end."""
    m = {}
    U, b, e = sym("user_indices"), sym("begin"), sym("end")
    for x in walk(t):
        if kind == "index":
            if x is U:
                m[x] = SEL
            elif x.op == "dim" and x.a[0] is U or x.op == "len" and x.a[0] is U:
                m[x] = N
        else:
            if x.op == "slice" and x.a[0] is b and x.a[1] is e and x.a[2] is NONE:
                m[x] = SEL
            elif x.op in ("arange", "range") and x.a[0] is b and x.a[1] is e and is_const(x.a[2], 1):
                m[x] = SEL
            elif x.op == "lin" and x is sub(e, b):
                m[x] = N
            elif x.op == "len" and x.a[0].op in ("arange", "range") and x.a[0].a[0] is b and x.a[0].a[1] is e:
                m[x] = N
            elif x.op == "dim" and x.a[0].op in ("arange", "range") and x.a[0].a[0] is b and x.a[0].a[1] is e:
                m[x] = N
    return norm(subst_top(t, m))


def subst_top(t, m):
    """Outermost match first."""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r
    return go(t)


def natives(t):
    """The native block scorer is rows begin:end of the user factors times the transposed item factors."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        y = rebuild(x, go)
        if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "user_scores":
            core = y.a[0].a[0]
            k = dict(y.a[2])
            b, e = (y.a[1] + (None, None))[:2]
            b, e = b or k.get("begin") or k.get("userblock_begin"), e or k.get("end") or k.get("userblock_end")
            if b is None or e is None:
                memo[x] = y
                return y
            y = matmul(idx(mk("attr", core, "user"), mk("slice", b, e, NONE)), transpose(mk("attr", core, "item")))
        memo[x] = y
        return y
    return go(t)


def native_calls(t):
    """Methods of the learnt native object are part of the judged semantics."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        y = rebuild(x, go)
        if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[0].op == "sym" and str(y.a[0].a[0].a[0]).startswith("<"):
            y = mk("call", mk("fn", "irspack.native." + y.a[0].a[1]), (y.a[0].a[0],) + y.a[1], y.a[2], *y.a[3:])
        memo[x] = y
        return y
    return go(t)


def judge(ctx, rule, what, a, b, loc):
    r, why = same(a, b)
    ctx.ob(rule, what, r, why or f"{short(a, 200)} instead of {short(b, 200)}", loc)


def one(ctx, c):
    M = Model(ctx, c)
    U = sym("user_indices")
    base = rows(M.call("get_score", U), "index")
    # block
    try:
        blk = rows(M.call("get_score_block", sym("begin"), sym("end")), "block")
    except NotOffered:
        blk = None
    if blk is not None:
        judge(ctx, "block-is-index", f"{c.name}.get_score_block", blk, base, M.loc("get_score_block"))
    # cold
    try:
        X = sym("X")
        cold = M.call("get_score_cold_user", X)
    except NotOffered:
        cold = None
    if cold is not None:
        train = norm(M.I.deep(mk("attr", M.o, "X_train_all"), M.st)) if False else norm(M.call_attr("X_train_all"))
        row = norm(idx(train, SEL))
        asrow = subst_top(base, {row: X, N: dim(X, 0), norm(dim(row, 0)): dim(X, 0)})
        if SEL not in set(walk(asrow)):
            judge(ctx, "cold-is-row", f"{c.name}.get_score_cold_user", subst_top(cold, {mk("len", X): dim(X, 0)}), norm(asrow), M.loc("get_score_cold_user"))
        elif base.op == "matmul" and cold.op in ("div", "mul", "lin"):
            ctx.ob("cold-uses-same-factors", f"{c.name}.get_score_cold_user", False, f"{short(cold, 160)} is rescaled, regular scoring is not", M.loc("get_score_cold_user"))
        elif base.op == "matmul" and cold.op == "matmul":
            judge(ctx, "cold-uses-same-factors", f"{c.name}.get_score_cold_user", cold.a[1], base.a[1], M.loc("get_score_cold_user"))
        chunks(ctx, c, M, cold, X)
    # embeddings
    emb = iemb = None
    if M.has("get_user_embedding"):
        emb = M.call("get_user_embedding")
        sc = M.call("get_score_from_user_embedding", sym("E"))
        got = norm(subst_top(sc, {sym("E"): idx(emb, SEL)}))
        judge(ctx, "user-embedding-scores", f"{c.name}.get_score_from_user_embedding", got, base, M.loc("get_score_from_user_embedding"))
        if cold is not None and M.has("compute_user_embedding"):
            e2 = M.call("compute_user_embedding", sym("X"))
            judge(ctx, "cold-is-embedding-score", f"{c.name}.get_score_cold_user", cold, norm(subst_top(sc, {sym("E"): e2})), M.loc("get_score_cold_user"))
    if M.has("get_item_embedding"):
        iemb = M.call("get_item_embedding")
        sc = rows(M.call("get_score_from_item_embedding", U, sym("F")), "index")
        got = norm(subst_top(sc, {sym("F"): iemb}))
        want = base
        if base.op == "lin":
            # a per-item bias is not part of the item embedding
            c0, d = lin_parts(base)
            ms = [x for x in d if x.op == "matmul"]
            if len(ms) == 1 and d[ms[0]] == 1:
                want = ms[0]
        judge(ctx, "item-embedding-scores", f"{c.name}.get_score_from_item_embedding", got, want, M.loc("get_score_from_item_embedding"))
    # features
    if cold is not None and M.has("compute_user_embedding"):
        cu = c.find("get_score_cold_user")
        if len(cu.node.args.args) > 2:
            compose(ctx, M, "get_score_cold_user", ["X", "user_features"], "get_score_from_user_embedding", lambda: [M.call("compute_user_embedding", sym("X"), sym("user_features"))])
    compose(ctx, M, "get_score_cold_user_from_features", ["user_features"], "get_score_from_user_embedding", lambda: [M.call("compute_user_embedding_from_features", sym("user_features"))])
    compose(ctx, M, "get_score_from_item_features", ["user_indices", "item_features"], "get_score_from_item_embedding",
            lambda: [U, M.call("compute_item_embedding_from_features", sym("item_features"))])
    if M.has("compute_user_embedding_from_features"):
        for side, F in (("user", "user_features"), ("item", "item_features")):
            got = M.call(f"compute_{side}_embedding_from_features", sym(F))
            Xe = sym("X")
            ref = M.call(f"compute_{side}_embedding", Xe, **{F: sym(F)})
            n, m = dim(sym(F), 0), dim(train_of(M), 1 if side == "user" else 0)
            shape = (n, m) if side == "user" else (m, n)
            judge(ctx, "features-only-is-empty-history", f"{c.name}.compute_{side}_embedding_from_features", got, norm(subst_top(ref, {Xe: mk("zeros", mk("tuple", shape))})),
                  M.loc(f"compute_{side}_embedding_from_features"))
    if M.has("_create_cold_user_with_item_features_scorer") and M.has("compute_item_embedding_from_features"):
        got = M.call("get_score_cold_user_with_item_features", sym("X"), sym("item_features"))
        with_features(ctx, M, got)


def chunks(ctx, c, M, t, X):
    """Scoring in chunks: every row once and in order."""
    n = dim(X, 0)
    for x in walk(t):
        if x.op != "comp" or len(x.a) < 3:
            continue
        bases = x.a[2] if isinstance(x.a[2], tuple) else ()
        rs = [b for b in bases if b.op == "range" and any(y is X for y in walk(b))]
        if len(rs) != 1:
            continue
        r = rs[0]
        start, stop, step = r.a
        e = None
        sl = []
        for y in walk(x.a[1]):
            if y.op == "idx" and y.a[0] is X:
                sl.append(y.a[1])
        for i in sl:
            if i.op != "slice" or i.a[2] is not NONE:
                ctx.ob("chunks-cover-rows", f"{c.name}.get_score_cold_user", None, f"index {short(i, 80)}", M.loc("get_score_cold_user"))
                continue
            es = [y for y in walk(i) if y.op == "elem" and y.a[0] is r]
            e = es[0] if es else None
            lo = ZERO if i.a[0] is NONE else i.a[0]
            hi = i.a[1]
            good = e is not None and is_const(start, 0) and eqv(stop, n) and eqv(lo, e) and (eqv(hi, add(e, step)) or eqv(hi, minmax("min", [add(e, step), n])))
            ctx.ob("chunks-cover-rows", f"{c.name}.get_score_cold_user", good, f"chunks [{short(lo, 60)}:{short(hi, 80)}] over {short(r, 80)} do not cover every row once", M.loc("get_score_cold_user"))


def with_features(ctx, M, got):
    X, F = sym("X"), sym("item_features")
    cold = M.call("get_score_cold_user", X)
    e = M.call("compute_user_embedding", X)
    ie = M.call("compute_item_embedding_from_features", F)
    want = norm(matmul(e, transpose(ie)))
    loc = M.loc("get_score_cold_user_with_item_features")
    got, want, cold = (norm(assume(x, isnone(F), False)) for x in (got, want, cold))
    for cs, leaf in hoist(got):
        cold_, want_ = under(cold, cs), under(want, cs)
        w = f"{M.c.name}.get_score_cold_user_with_item_features"
        parts = concat_parts(leaf)
        if parts is None or len(parts) != 2:
            ctx.ob("features-appended", w, None, f"not recognised: {short(leaf, 120)}", loc)
            continue
        judge(ctx, "known-items-first", w, parts[0], cold_, loc)
        if any(is_zero_rows(x) for x in walk(parts[1])):
            continue
        judge(ctx, "features-appended", w, parts[1], want_, loc)


def under(t, cs):
    for c in cs:
        t = assume(t, *((c.a[0], False) if c.op == "not" else (c, True)))
    return norm(t)


def is_zero_rows(x):
    s = x.a[1][0] if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("numpy.empty", "numpy.zeros") and x.a[1] else x.a[0] if x.op == "zeros" else None
    return s is not None and s.op == "tuple" and is_const(s.a[0][0], 0)


def concat_parts(t):
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.concatenate", "numpy.hstack", "numpy.block", "numpy.append", "numpy.column_stack"):
        q = t.a[0].a[0]
        if q == "numpy.concatenate":
            ax = dict(t.a[2]).get("axis", t.a[1][1] if len(t.a[1]) > 1 else ZERO)
            if not (is_int(ax) and ax.a[0] in (1, -1)):
                return None
        a = t.a[1][0]
        if a.op in ("list", "tuple"):
            return list(a.a[0])
    return None


def train_of(M):
    return norm(M.call_attr("X_train_all"))


def compose(ctx, M, name, params, outer, inner):
    if not M.has(name):
        return
    got = M.call(name, *[sym(p) for p in params])
    ref = M.call(outer, *inner())
    judge(ctx, "composition", f"{M.c.name}.{name}", got, ref, M.loc(name))


def call_attr(self, name):
    s = self.st.copy()
    return self.I.deep(self.I.getattr_(self.o, name, s, None), s)


Model.call_attr = call_attr


def check(ctx):
    n = 0
    for c in concrete(ctx):
        n += 1
        ctx.guard(one, ctx, c)
    ctx.ob("classes-found", "recommenders", None if n < 10 else True, f"{n} classes")
