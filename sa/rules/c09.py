"""C09: per-user hold-out."""
from ..common import *
from ..norm import norm, eqv
from ..frames import *
from .c08 import fmt, fl, cases
import ast
import itertools

from ..entries import entries
from .c11 import ieval, atoms_of, NoVal

LEVEL = "proof"
MIN_OBLIGATIONS = 8
EXPLANATION = ("The time-based split is read as a row predicate over the caller's frame: the two results must be complementary, and the held-out one must be the rows whose "
               "rank counted from the latest interaction of the same user is below the fixed count, or below floor/ceil of ratio times that user's own number of rows. "
               "The matrix split must hand the caller's matrix, the ratio or the count and the rounding option to the matching native split, and return its two results in order. In the native split, every stored entry of every row must go to exactly one side, at its own row, column and value, and the number held out must be the count or the rounded ratio of the row.")
ASSUMPTIONS = ["pandas sort_values/groupby/cumcount/value_counts behave as documented"]
S = sym


def last_n(ctx):
    f = ctx.proj.func("irspack.split.time.split_last_n_interaction_df")
    I, st, v = analyse(ctx, f)
    loc = f.loc()
    df, u, t = S("df"), S("user_column"), S("timestamp_column")
    if v is None or v.op != "tuple" or len(v.a[0]) != 2:
        raise AnalysisError("no pair of frames")
    for conds, (a, b) in cases(I, st, [I.deep(x, st) for x in v.a[0]]):
        tag = " [" + " ".join(short(c, 60) for c in conds) + "]"
        F = Frames([df], [u, t], {S("n_heldout"), S("heldout_ratio")})
        try:
            fa, fb = F.frame(a), F.frame(b)
        except Misaligned as e:
            ctx.ob("row-alignment", f.name + tag, False, str(e), loc)
            continue
        ctx.ob("row-alignment", f.name + tag, True)
        ctx.ob("complementary", f.name + tag, p_not(fb.pred) == fa.pred and fa.dedup is None and fb.dedup is None,
               f"first part is {fmt(fa.pred)}, held-out part is {fmt(fb.pred)}", loc)
        ctx.ob("columns-kept", f.name + tag, fa.sel is None and fb.sel is None, "columns are dropped", loc)
        at = [x for c in fb.pred for x in c]
        none = isnone(S("n_heldout")) in conds
        latest = [("rank", ("col", u), ((("col", t), True),), False), ("rank", ("col", u), ((("col", t), False),), True)]
        ok = len(at) == 1 and at[0][0] == "cmp"
        if ok:
            _, op, vk, y = at[0]
            ctx.ob("latest-first", f.name + tag, vk in latest, f"rank is {fl(vk)}", loc)
            ctx.ob("strict", f.name + tag, op == "lt", f"rank {op} n", loc)
            if none:
                ce = any(c in (S("ceil_n_heldout"), mk("truth", S("ceil_n_heldout"))) for c in conds)
                want = ("ceil" if ce else "floor", ("times", ("count", ("col", u), (df, TRUE_P, None)), (S("heldout_ratio"),)))
                ctx.ob("held-out-number", f.name + tag, y == want, f"{fl(y)} instead of {fl(want)}", loc)
            else:
                ctx.ob("held-out-number", f.name + tag, isinstance(y, T) and norm(y) is S("n_heldout"), fl(y), loc)
        else:
            ctx.ob("held-out-number", f.name + tag, False if at and any(x[0] == "cut" for x in at) else None, fmt(fb.pred), loc)


def rowwise(ctx):
    f = ctx.proj.func("irspack.utils.rowwise_train_test_split")
    I, st, v = analyse(ctx, f)
    loc = f.loc()
    X = S("X")
    if v is None or v.op != "tuple" or len(v.a[0]) != 2:
        raise AnalysisError("no pair of matrices")
    for conds, (a, b) in cases(I, st, [I.deep(x, st) for x in v.a[0]]):
        tag = " [" + " ".join(short(c, 40) for c in conds) + "]"
        ok = a.op == b.op == "idx" and a.a[0] is b.a[0] and is_const(a.a[1], 0) and is_const(b.a[1], 1)
        known = all(x.op == "idx" and x.a[0].op == "call" and x.a[0].a[0].op == "fn" for x in (a, b))
        ctx.ob("both-halves", f.name + tag, ok if known else None, f"results {short(a, 150)} and {short(b, 150)}", loc)
        if not known:
            continue
        kw = dict(a.a[0].a[2])
        name = a.a[0].a[0].a[0].split(".")[-1]
        none = isnone(S("n_test")) in conds
        want = "rowwise_train_test_split_by_" + ("ratio" if none else "fixed_n")
        ctx.ob("split-kind", f.name + tag, name == want, f"{name} instead of {want}", loc)
        ctx.ob("own-matrix", f.name + tag, norm(kw["X"]) is X, short(kw["X"]), loc)
        if name == want:
            for k, p in ((("heldout_ratio", "test_ratio"), ("n_test_ceil", "ceil_n_heldout")) if none else (("n_held_out", "n_test"),)):
                ctx.ob("split-argument", f"{f.name} {p}{tag}", norm(kw[k]) in (S(p), mk("truth", S(p))), f"{k}={short(kw[k])}", loc)


# ---------------------------------------------------------------- the native split

ROUND = {"ceil": "ceil", "floor": "floor", "trunc": "floor", "round": "near", "rint": "near", "nearbyint": "near", "lround": "near", "llround": "near"}


class RowSplit:
    """The two triplet lists of a native row-wise split, read as sets of positions within a row."""

    def __init__(self, I, X):
        self.I, self.X = I, X
        self.rows = rng(ZERO, dim(X, 0), ONE)
        self.R = elem(self.rows, 0)
        ptr = mk("attr", X, "indptr")
        self.lo, self.hi = mk("idx", ptr, self.R), mk("idx", ptr, add(self.R, ONE))
        self.NZ = S("$nnz")
        self.memo = {}
        self.broken = None

    def canon(self, t):
        """Row lengths become one symbol."""
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._canon(rebuild(t, self.canon))
        return r

    def _canon(self, x):
        if x.op == "sumover" and is_const(x.a[0], 1) and not x.a[2] and self.is_row(x.a[1]):
            return self.NZ
        if x.op == "len":
            o = x.a[0]
            while o.op == "algo":
                o = o.a[1]
            if self.is_row(o) or (o.op == "comp" and len(o.a[2]) == 1 and not o.a[3] and self.is_row(o.a[2][0])):
                return self.NZ
        if x.op == "lin" and x is sub(self.hi, self.lo):
            return self.NZ
        if x.op == "range" and x is rng(ZERO, self.NZ, ONE):
            return x
        return x

    def is_row(self, d):
        return d.op == "range" and (d is rng(self.lo, self.hi, ONE) or d is rng(ZERO, self.NZ, ONE) or d is rng(ZERO, sub(self.hi, self.lo), ONE))

    def offset(self, t):
        """Position within the row when t runs over the stored entries of the row, else None."""
        k = sub(t, self.lo)
        return k if k.op == "elem" and self.is_row(self.canon(k.a[0])) else None

    def entries_of(self, t):
        """'indices'/'data' when t lists that array over the stored entries of the row in order."""
        if t.op != "comp" or len(t.a[2]) != 1 or t.a[3] or not self.is_row(self.canon(t.a[2][0])):
            return None
        e = t.a[1]
        if e.op == "idx" and e.a[0].op == "attr" and e.a[0].a[0] is self.X:
            k = sub(e.a[1], self.lo)
            if k.op == "elem" and self.is_row(self.canon(k.a[0])):
                return e.a[0].a[1]
        return None

    def identity(self, t):
        """t is the list 0, 1, ..., nnz - 1."""
        if t.op == "range":
            return t.a[0] is ZERO and is_const(t.a[2], 1) and self.canon(t.a[1]) is self.NZ
        if t.op != "comp" or len(t.a[2]) != 1 or t.a[3] or not self.is_row(self.canon(t.a[2][0])):
            return None
        e = self.canon(t.a[1])
        env = {}
        for x in walk(e):
            if x.op == "elem" and self.canon(x.a[0]) is rng(ZERO, self.NZ, ONE):
                env[x] = 0
            elif x.op == "mu":
                for lp in self.I.all_loops:
                    for h, (i, n) in lp.mus.items():
                        if (h is x or self.canon(h) is x) and is_const(strip(i), 0) and sub(strip(n), h) is ONE:
                            env[x] = 0
        if not env:
            return None
        try:
            return all(ieval(e, {x: k for x in env}) == k for k in range(6))
        except NoVal:
            return None

    def permutation(self, t):
        """t is a rearrangement of all positions of the row: the generator's term, else None."""
        n = 0
        gens = []
        while t.op == "algo" and t.a[1].op in ("algo", "comp", "range", "list"):
            if t.a[0] not in ("shuffle", "reverse", "sort", "stable_sort"):
                return None
            # the whole list is rearranged
            r = [x for x in t.a[2] if isinstance(x, T)]
            if len(r) < 2 or not is_const(r[0], 0) or self.canon(r[1]) is not self.NZ:
                return None
            gens += r[2:]
            t = t.a[1]
        ok = self.identity(t)
        if ok is False:
            self.broken = t
        return gens if ok else None

    def position(self, t):
        """(array name, permutation or None, index within it) of an entry's column or value."""
        if t.op != "idx":
            return None
        base, p = t.a
        if base.op == "attr" and base.a[0] is self.X:
            k = base.a[1]
            p = sub(p, self.lo)
        else:
            k = self.entries_of(base)
        if k is None:
            return None
        if p.op == "idx":
            g = self.permutation(p.a[0])
            return None if g is None else (k, p.a[0], p.a[1], g)
        return k, None, p, []

    def positions(self, comp, env, pos):
        """Positions handled, in order, for one valuation."""
        _, _, gens, conds = comp.a
        r = self.canon(gens[1])
        a, b = ieval(r.a[0], env), ieval(r.a[1], env)
        i = [elem(gens[1], 0), elem(r, 0)]
        base = r.a[0]
        if not is_const(base, 0):
            z = rng(ZERO, sub(r.a[1], r.a[0]), ONE)
            i.append(elem(z, 0))
        out = []
        q = self.canon(pos)
        for k in range(a, b):
            e = dict(env)
            e[i[0]] = e[i[1]] = k
            if len(i) > 2:
                e[i[2]] = k - a
            if all(ieval(self.canon(c), e) for c in conds):
                out.append(ieval(q, e))
        return out


def native_split(ctx, N):
    for e in entries(N):
        if not e.reg.name.startswith("rowwise_train_test_split_by_"):
            continue
        ratio = e.reg.name.endswith("ratio")
        q, loc = e.qual, e.func.loc()
        ctx.saw(loc)
        I, st, v = N.run(e.func, e.cls)
        names = e.func.all_params()
        X = S(names[0])
        amount = S(names[2])
        t = I.deep(v, st)
        if t.op != "tuple" or len(t.a[0]) != 2:
            raise AnalysisError("no pair of matrices")
        P = RowSplit(I, X)
        shape = mk("tuple", (dim(X, 0), dim(X, 1)))
        got = []
        for side, x in zip(("train", "test"), t.a[0]):
            n = f"{q} {side}"
            if x.op != "triplets":
                ctx.ob("native-entries", n, None, short(x, 150), loc)
                continue
            sh = x.a[0]
            while sh.op == "attr" and sh.a[1] == "shape":
                sh = sh.a[0]
            if sh.op in ("zeros", "empty"):
                sh = sh.a[0]
            ctx.ob("native-shape", n, sh is shape, f"the matrix is created with shape {short(sh, 150)}", loc)
            c = x.a[1]
            ok = c.op == "comp" and c.a[0] == "list" and len(c.a[2]) == 2 and isinstance(c.a[1], T) and c.a[1].op == "tuple" and len(c.a[1].a[0]) == 3
            if not ok:
                ctx.ob("native-entries", n, None, short(c, 150), loc)
                continue
            r, col, val = c.a[1].a[0]
            ctx.ob("native-own-row", n, r is elem(c.a[2][0], 0) and (c.a[2][0] is P.rows or None), f"an entry of row {short(P.R, 60)} is stored under row {short(r, 60)} of rows {short(c.a[2][0], 60)}", loc)
            pc, pv = P.position(col), P.position(val)
            if pc is None or pv is None:
                ctx.ob("native-entries", n, None if P.broken is None else False, f"the order of a row is drawn from {short(P.broken, 200)}, not from all its positions" if P.broken else short(c.a[1], 200), loc)
                continue
            ctx.ob("native-entries", n, pc[0] == "indices" and pv[0] == "data" and pc[1] is pv[1] and pc[2] is pv[2],
                   f"the column is {pc[0]}[{short(pc[2], 80)}] and the value {pv[0]}[{short(pv[2], 80)}]", loc)
            got.append((side, c, pc))
        if len(got) != 2:
            continue
        same_perm = got[0][2][1] is got[1][2][1]
        ctx.ob("native-one-order", q, same_perm, "the two halves are cut from different orders of the row", loc)
        flags = [x for x in names[3:]]
        for ceil in ((True, False) if ratio else (None,)):
            def case(t):
                return assume(t, mk("truth", S(flags[0])), ceil) if ceil is not None else t
            NH = S("$n")
            tag = "" if ceil is None else " ceil" if ceil else " floor"
            want = mk("min", tuple(sorted((amount, P.NZ), key=str))) if not ratio else None
            bad, unk = None, False
            k = 0

            def val(t, env, nz):
                def f(x):
                    x = rebuild(x, f)
                    if ratio and x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].split(".")[-1] in ROUND and len(x.a[1]) == 1:
                        y = norm(x.a[1][0])
                        if y is norm(mul(P.NZ, amount)):
                            return S("$" + ROUND[x.a[0].a[0].split(".")[-1]])
                    return x
                return f(t)
            try:
                sides = []
                for side, c, pc in got:
                    cc = mk("comp", c.a[0], c.a[1], (c.a[2][0], val(P.canon(case(c.a[2][1])), None, None)), tuple(val(P.canon(case(x)), None, None) for x in c.a[3]))
                    sides.append((cc, val(P.canon(case(pc[2])), None, None)))
                for nz in range(0, 6):
                    for n in range(0, 8):
                        if not ratio:
                            envs, exp = [{P.NZ: nz, amount: n}], min(n, nz)
                            cases_ = [(envs[0], exp)]
                        else:
                            if n > nz:
                                continue
                            # floor and ceil of a product differ by at most one
                            cases_ = [({P.NZ: nz, S("$floor"): n, S("$ceil"): m, S("$near"): z}, m if ceil else n) for m in (n, n + 1) if m <= nz for z in {n, m}]
                        for env, exp in cases_:
                            tr = P.positions(sides[0][0], env, sides[0][1])
                            te = P.positions(sides[1][0], env, sides[1][1])
                            k += 1
                            if bad is None and (len(te) != exp or sorted(tr + te) != list(range(nz))):
                                bad = f"a row of {nz} interactions with {exp} to hold out gives test positions {te} and train positions {tr}"
            except NoVal:
                unk = True
            ctx.ob("native-partition", q + tag, None if unk else bad is None, bad or "positions not evaluable", loc)


def on_request(ctx):
    """rounding up happens only when asked for: every ceil switch defaults to off"""
    for mn, m in sorted(ctx.proj.modules.items()):
        if not mn.startswith("irspack.split"):
            continue
        for f in m.funcs.values():
            a = f.node.args
            pos = a.posonlyargs + a.args
            ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for arg, d in ds:
                if arg.arg.startswith("ceil") and isinstance(d, ast.Constant):
                    ctx.ob("ceil-on-request", f"{f.name}({arg.arg})", not d.value, "rounds up without being asked", f.loc())


def pair_parts(ctx):
    """the pair object keeps both sides and their sum, and an absent test side is empty"""
    c = ctx.proj.find_class("irspack.split.userwise.UserTrainTestInteractionPair")
    for given in (True, False):
        fact = not_(isnone(S("X_test"))) if given else isnone(S("X_test"))
        I, st, o = construct(ctx, c, facts=[fact])
        loc = c.find("__init__").loc()
        tag = "X_test given" if given else "no X_test"

        def got(a):
            v = st.heap.get(("a", o, a))
            if v is None:
                return None
            v = norm(strip(I.deep(v, st)))
            return norm(assume(v, isnone(S("X_test")), not given))
        tr, te, al = S("X_train"), S("X_test"), got("X_all")
        x = got("X_train")
        ctx.ob("pair-keeps-both", f"X_train [{tag}]", x is tr, short(x) if x is not None else "not set", loc)
        y = got("X_test")
        if given:
            ctx.ob("pair-keeps-both", f"X_test [{tag}]", y is te, short(y) if y is not None else "not set", loc)
        else:
            ok = y is not None and y.op == "zeros"
            ctx.ob("pair-keeps-both", f"X_test [{tag}]", ok or (False if y is None or y in (tr, NONE) else None), short(y) if y is not None else "not set", loc)
        if al is None:
            ctx.ob("pair-sum", f"X_all [{tag}]", False, "not set", loc)
        elif y is not None:
            want = norm(add(tr, y))
            ok = al is want or (not given and al is tr)
            ctx.ob("pair-sum", f"X_all [{tag}]", ok or (None if has_opaque(al) else False), f"X_all is {short(al)}", loc)
        for a, k in (("n_users", 0), ("n_items", 1)):
            z = got(a)
            ok = z in (norm(dim(tr, k)), norm(dim(te, k)), norm(mk("len", S("user_ids"))) if k == 0 else None)
            ctx.ob("pair-sizes", f"{a} [{tag}]", ok or (False if z is None or z.op in ("dim", "lin", "const", "sym", "idx") else None), short(z) if z is not None else "not set", loc)


def check(ctx):
    ctx.guard(pair_parts, ctx)
    ctx.guard(on_request, ctx)
    ctx.guard(native_split, ctx, ctx.native())
    ctx.guard(last_n, ctx)
    ctx.guard(rowwise, ctx)
