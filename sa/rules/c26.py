"""C26: learnt weights are the documented function of the training matrix."""
from ..common import *
from ..norm import norm, eqv, opaque_in
from .c16 import concrete, outcome
from .c19 import full_range, zero
from .c24 import Opaque, Q, atom, num

LEVEL = "proof"
TECHNIQUE = "static analysis: entrywise abstract evaluation of the symbolic value of every learnt weight matrix (off-diagonal and diagonal entry, rational normal form), compared with the closed form; structure of the native calls"
MIN_OBLIGATIONS = 14
EXPLANATION = ("Learning is analysed symbolically on every option path. The weight matrices of the closed-form models are evaluated at a generic off-diagonal and a generic diagonal entry over independent atoms (Gram matrix entries, "
               "entries of inverses, hyperparameters) and compared with the documented solution. For the models learnt natively, the matrices, their orientation and the coefficients handed to the native code are compared.")
ASSUMPTIONS = ["arithmetic is exact", "the matrices inverted are invertible", "the native computers follow their formulas (C25)"]
NEG = num(-1)


def rank(t):
    op = t.op
    if op in ("const", "sym", "dim", "nnz", "len", "max", "min"):
        return 2 if op == "sym" and t.a[0].startswith("X") else 0
    if op == "conv":
        return rank(t.a[1])
    if op in ("matmul",):
        return 2
    if op == "T":
        return rank(t.a[0])
    if op == "store":
        return rank(t.a[0])
    if op in ("mul",):
        return max(rank(x) for x in t.a[0])
    if op == "lin":
        return max([rank(x) for x in lin_parts(t)[1]] + [0])
    if op in ("div", "pow"):
        return max(rank(t.a[0]), rank(t.a[1]))
    if op == "idx":
        i = t.a[1]
        if i is NONE:
            return rank(t.a[0]) + 1
        if i.op == "tuple":
            xs = i.a[0]
            if any(x is NONE for x in xs):
                return rank(t.a[0]) + sum(x is NONE for x in xs)
            if len(xs) == 2 and eqv(*xs) and xs[0].op in ("arange", "range"):
                return 1
    if op == "call":
        f = t.a[0]
        if f.op == "ext":
            n = f.a[0]
            if n.endswith("linalg.inv") or n in ("numpy.eye", "numpy.identity", "numpy.diagflat") or n.endswith(".solve"):
                return 2
            if n in ("numpy.diag", "numpy.diagonal"):
                return 3 - rank(t.a[1][0])
            if n in ("numpy.ones", "numpy.zeros"):
                a = t.a[1][0]
                return len(a.a[0]) if a.op == "tuple" else 1
            if n in ("numpy.add", "numpy.multiply", "numpy.divide", "numpy.subtract", "numpy.true_divide"):
                return max(rank(x) for x in t.a[1])
            if n in ("numpy.reciprocal", "numpy.negative", "numpy.asarray", "numpy.array"):
                return rank(t.a[1][0])
        if f.op == "attr" and f.a[1] == "diagonal":
            return 1
        if f.op == "attr" and f.a[1] in ("multiply", "copy"):
            return rank(f.a[0])
        if f.op == "attr" and f.a[1] == "reshape":
            return len(t.a[1][0].a[0]) if t.a[1] and t.a[1][0].op == "tuple" else len(t.a[1])
    if op in ("zeros", "empty", "full", "ones"):
        return len(t.a[0].a[0]) if t.a and t.a[0].op == "tuple" else 1
    raise Opaque(short(t, 100))


class Entries:
    """Value of a term at index tags."""

    def __init__(self, n):
        self.n = n

    def bc(self, t, ix):
        r = rank(t)
        if r > len(ix):
            raise Opaque("rank of " + short(t, 60))
        return self.ev(t, ix[len(ix) - r:] if r else ())

    def ev(self, t, ix):
        op = t.op
        if is_num(t):
            return num(t.a[0])
        if op == "conv":
            return self.ev(t.a[1], ix)
        if op == "sym" and not ix:
            return atom("param", t.a[0])
        if op == "dim":
            return atom("dim", pp(t.a[0]), t.a[1])
        if op in ("max", "min") and not any(is_num(x) for x in t.a[0]):
            return atom(op, *sorted(map(str, (self.ev(x, ()).key() for x in t.a[0]))))
        if op == "lin":
            c, ps = lin_parts(t)
            r = num(c)
            for x, k in ps.items():
                r = r + num(k) * self.bc(x, ix)
            return r
        if op == "mul":
            r = num(1)
            for x in t.a[0]:
                r = r * self.bc(x, ix)
            return r
        if op == "div":
            return self.bc(t.a[0], ix) * self.bc(t.a[1], ix).inv()
        if op == "pow" and is_num(t.a[1]) and t.a[1].a[0] in (-1, 1, 2):
            b = self.bc(t.a[0], ix)
            return b.inv() if t.a[1].a[0] == -1 else b if t.a[1].a[0] == 1 else b * b
        if op == "T":
            return self.ev(t.a[0], ix[::-1])
        if op == "matmul" and len(ix) == 2:
            return self.product(t.a[0], t.a[1], ix)
        if op == "idx":
            return self.index(t.a[0], t.a[1], ix)
        if op == "store":
            return self.stored(t, ix)
        if op == "call":
            return self.call(t, ix)
        raise Opaque(short(t, 100))

    def product(self, a, b, ix):
        a, b = plain(a), plain(b)
        for x, y, left in ((a, b, True), (b, a, False)):
            d = diag_of(x)
            if d is not None:
                return self.bc(d, (ix[0] if left else ix[1],)) * self.ev(y, ix)
        if eqv(a, norm(mk("T", b))):
            return atom("gram", pp(b), *sorted(ix))
        return atom("product", pp(a), pp(b), *ix)

    def index(self, m, i, ix):
        if i is NONE:
            return self.bc(m, ix[1:])
        if i.op == "tuple":
            xs = i.a[0]
            if any(x is NONE for x in xs):
                if len(xs) != len(ix) or any(x is not NONE and not whole(x) for x in xs):
                    raise Opaque("index " + short(i, 60))
                return self.ev(m, tuple(k for k, x in zip(ix, xs) if x is not NONE))
            if len(xs) == 2 and eqv(*xs):
                r = full_range(xs[0], self.n)
                if r and len(ix) == 1:
                    return self.ev(m, ix * 2)
                if r and len(ix) == 2:       # a row of an np.matrix
                    return self.ev(m, ix[1:] * 2)
        raise Opaque("index " + short(i, 60))

    def stored(self, t, ix):
        o, i, v = t.a
        if len(ix) != 2:
            raise Opaque("store")
        d = is_const(i) and i.a[0] == "diag"
        if not d:
            if not (i.op == "tuple" and len(i.a[0]) == 2 and eqv(*i.a[0])):
                raise Opaque("store at " + short(i, 60))
            r = full_range(i.a[0][0], self.n)
            if r is None:
                raise Opaque("store at " + short(i, 60))
            if r is False:
                return self.ev(o, ix) if ix[0] != ix[1] else atom("part of the diagonal")
        if ix[0] != ix[1]:
            return self.ev(o, ix)
        return self.bc(v, ix[1:])

    def call(self, t, ix):
        f, args, kw = t.a[0], t.a[1], dict(t.a[2])
        if f.op == "ext":
            n = f.a[0]
            if n.endswith("linalg.inv") and args:
                return self.inverse(args[0], ix)
            if n.endswith("linalg.solve") and len(args) == 2 and unit(args[1]):
                return self.inverse(args[0], ix)
            if n in ("numpy.diag", "numpy.diagonal", "numpy.diagflat") and len(args) == 1 and not kw:
                if rank(args[0]) == 2 and len(ix) == 1:
                    return self.ev(args[0], ix * 2)
                if rank(args[0]) == 1 and len(ix) == 2:
                    return self.ev(args[0], ix[1:]) if ix[0] == ix[1] else num(0)
                if rank(args[0]) == 0 and len(ix) == 2:
                    raise Opaque("diag of a scalar")
            if n in ("numpy.eye", "numpy.identity") and len(ix) == 2:
                return num(1 if ix[0] == ix[1] else 0)
            if n == "numpy.ones":
                return num(1)
            if n == "numpy.zeros":
                return num(0)
            if n in ("numpy.add", "numpy.multiply", "numpy.divide", "numpy.subtract", "numpy.true_divide") and len(args) == 2:
                a, b = (self.bc(x, ix) for x in args)
                k = n.split(".")[1]
                return a + b if k == "add" else a * b if k == "multiply" else a + NEG * b if k == "subtract" else a * b.inv()
            if n == "numpy.reciprocal":
                return self.bc(args[0], ix).inv()
            if n == "numpy.negative":
                return NEG * self.bc(args[0], ix)
            if n in ("numpy.asarray", "numpy.array"):
                return self.ev(args[0], ix)
        if f.op == "attr":
            o, m = f.a
            if m == "diagonal" and not args and len(ix) == 1:
                return self.ev(o, ix * 2)
            if m == "copy" and not args:
                return self.ev(o, ix)
            if m == "multiply" and len(args) == 1:
                return self.bc(o, ix) * self.bc(args[0], ix)
            if m == "reshape" and rank(o) == 1 and len(ix) == 2:
                xs = args[0].a[0] if args and args[0].op == "tuple" else args
                if len(xs) == 2 and is_const(xs[0], 1):
                    return self.ev(o, ix[1:])
                if len(xs) == 2 and is_const(xs[1], 1):
                    return self.ev(o, ix[:1])
        raise Opaque(short(t, 100))

    def inverse(self, m, ix):
        off, off2, dg = self.ev(m, ("i", "j")), self.ev(m, ("j", "i")), self.ev(m, ("i", "i"))
        return inv_atom(off, dg, ix if not off.same(off2) else tuple(sorted(ix)))


INVERSES = []       # matrices inverted so far: generic off-diagonal and diagonal entry


def inv_atom(off, dg, ix):
    for k, (o, d) in enumerate(INVERSES):
        if o.same(off) and d.same(dg):
            break
    else:
        k = len(INVERSES)
        INVERSES.append((off, dg))
    return atom("inverse", k, *ix)


def whole(x):
    return x.op == "slice" and x.a[0] in (NONE, ZERO) and x.a[1] is NONE and x.a[2] in (NONE, ONE)


def unit(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.eye", "numpy.identity")


def plain(t):
    while t.op == "conv":
        t = t.a[1]
    return t


def diag_of(t):
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.diag", "numpy.diagflat", "scipy.sparse.diags"):
        try:
            if rank(t.a[1][0]) == 1:
                return t.a[1][0]
        except Opaque:
            pass
    return None


def bare(t):
    """Without conversions of type and format, anywhere."""
    t = norm(t)
    m = {x: x.a[1] for x in walk(t) if x.op == "conv"}
    while m:
        t2 = norm(subst(t, m))
        if t2 is t:
            break
        t = t2
        m = {x: x.a[1] for x in walk(t) if x.op == "conv"}
    return t


def closed_form(ctx, c, leaf, X, loc, lam):
    E = Entries(dim(X, 1))
    g = lambda a, b: atom("gram", pp(X), *sorted((a, b)))
    P = lambda a, b: inv_atom(g("i", "j"), g("i", "i") + lam(g("i", "i")), tuple(sorted((a, b))))
    for name, ix, want in (("off-diagonal", ("i", "j"), NEG * P("i", "j") * P("j", "j").inv()), ("diagonal", ("i", "i"), num(0))):
        try:
            got = E.ev(leaf, ix)
            ctx.ob("closed-form", f"{c.name} {name} weight", got.same(want), f"the {name} weight is {show(got)}", loc)
        except Opaque as e:
            ctx.ob("closed-form", f"{c.name} {name} weight", None, str(e), loc)


def show(x):
    def poly(p):
        return " + ".join((f"{v}*" if v != 1 or not k else "") + "*".join(s.replace("'", "").replace("\\", "").replace('"', "")[:90] for s in k) for k, v in sorted(p.items()))[:300]
    return f"({poly(x.n)}) / ({poly(x.d)})"


def kwargs_of(t):
    return dict(t.a[2]) if t.op == "call" else {}


def native_call(t):
    """The neighbourhood computation inside a leaf, with what is around it."""
    seen = []
    while True:
        if t.op == "conv":
            t = t.a[1]
        elif t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0].endswith(".remove_diagonal"):
            xs = list(t.a[1]) + [v for _, v in t.a[2]]
            if len(xs) != 1:
                return None, seen
            t = xs[0]
        elif t.op == "T":
            seen.append("T")
            t = t.a[0]
        elif t.op == "withdata":
            seen.append("data")
            t = t.a[0]
        else:
            break
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("compute_similarity", "compute_W"):
        return t, seen
    return None, seen


def same_matrix(got, want):
    """Is got the wanted matrix; None if not understood."""
    got = bare(got)
    if got.op == "phi":
        r = [same_matrix(x, want) for _, x in leaves(got)]
        return False if False in r else None if None in r else True
    if got is norm(want) or eqv(got, want):
        return True
    known = all(x.op in ("sym", "T", "const", "fn", "call", "tuple") for x in walk(got))
    return False if known and not opaque_in(got) else None


def neighbours(ctx, c, leaf, cs, X, loc, item):
    k, around = native_call(leaf)
    W = (lambda x: mk("T", x)) if item else (lambda x: x)
    lab = f"{c.name}" + (f" when {' and '.join(short(x, 50) for x in cs)}" if cs else "")
    if k is None:
        ctx.ob("neighbours", lab, None, short(leaf, 100), loc)
        return
    ctx.ob("orientation", lab, "T" not in around, "the similarity matrix is transposed", loc)
    if k.a[0].a[1] == "compute_W":
        normalised(ctx, lab, plain(leaf), k, cs, loc)
    n = k.a[0].a[0]
    args = list(k.a[1]) + [v for _, v in k.a[2]]
    ctx.ob("compared", lab, same_matrix(args[0], W(X)) if args else None, f"the rows compared are those of {short(args[0], 100) if args else ''}", loc)
    nk = [v for kk, v in n.a[2]] if n.op == "new" and len(n.a) > 2 else []
    ctor = list(n.a[1]) + nk if n.op == "new" and isinstance(n.a[1], tuple) else None
    if not ctor:
        ctor = [v for x in n.a[1:] if isinstance(x, tuple) for v in ([y for y in x if isinstance(y, T)] + [y[1] for y in x if isinstance(y, tuple)])]
    if not ctor:
        ctx.ob("features", lab, None, short(n, 100), loc)
        return
    used, clear = set(), True
    for _, x in leaves(norm(ctor[0])):
        y = bare(x)
        core = norm(mk("T", y)) if item else y
        if core.op == "call" and core.a[0].op == "fn":
            name = core.a[0].a[0].split(".")[-1]
            src = (list(core.a[1]) + [v for _, v in core.a[2]])[0]
            ok = same_matrix(src, X) if name in ("tf_idf_weight", "okapi_BM_25_weight") else None
            used.add(name)
            clear = clear and ok is not None
            ctx.ob("features", f"{lab} {name}", ok, f"{name} weights {short(src, 60)}", loc)
        else:
            ok = same_matrix(y, W(X))
            used.add("plain")
            clear = clear and ok is not None
            ctx.ob("features", f"{lab} plain", ok, f"against the rows of {short(y, 100)}", loc)
    init = c.find("__init__")
    if any(a.arg == "feature_weighting" for a in init.node.args.args + init.node.args.kwonlyargs):
        missing = {"plain", "tf_idf_weight", "okapi_BM_25_weight"} - used
        ctx.ob("weighted", lab, True if not missing else (False if clear and len(used) == 1 else None), f"the features are never weighted by {', '.join(sorted(missing))}", loc)


def normalised(ctx, lab, leaf, k, cs, loc):
    """Rows are divided by their sum exactly when asked for."""
    p = mk("truth", sym("normalize_weight"))
    if p not in cs and not_(p) not in cs:
        ds = [d for q, d in leaves(leaf.a[1]) if p in q] if leaf.op == "withdata" else []
        if leaf.op == "withdata" and not ds:
            ctx.ob("normalised", lab, None, "condition not understood", loc)
            return
    if not_(p) in cs:
        ctx.ob("normalised", lab, leaf.op != "withdata" if not opaque_in(leaf) else None, "the weights are rescaled although this was not asked for", loc)
        return
    if leaf.op != "withdata":
        ok = False if leaf is k and p in cs else None
        if p in cs or leaf is k and not_(p) not in cs and not any(contains(x, sym("normalize_weight")) for x in cs):
            ctx.ob("normalised", lab, False if leaf is k else ok, "rows are not normalised although this was asked for", loc)
        return
    M = sym("M")
    want = {norm(mk("div", mk("attr", M, "data"), idx(s, mk("attr", M, "indices")))) for s in row_sums(M)}
    for q, d in leaves(leaf.a[1]):
        if not_(p) in q:
            continue
        d = bare(subst(norm(d), {k: M}))
        bad = d.op == "div" and d.a[0] is mk("attr", M, "data") and all(x.op in ("attr", "call", "idx", "sym", "const", "div", "lin") for x in walk(d)) and not opaque_in(d)
        ctx.ob("normalised", lab, True if d in want else (False if d is mk("attr", M, "data") or bad and wrong_axis(d, M) else None), f"a weight becomes {short(d, 120)}", loc)


def row_sums(M):
    for ax in (ONE, const(-1)):
        s = mk("call", mk("attr", M, "sum"), (), (("axis", ax),))
        for s in (s, mk("call", mk("attr", M, "sum"), (ax,), ())):
            yield mk("attr", s, "A1")
            yield mk("call", mk("attr", mk("attr", s, "A"), "ravel"), (), ())
            yield mk("call", mk("attr", mk("call", mk("ext", "numpy.asarray"), (s,), ()), "ravel"), (), ())
            yield mk("call", mk("attr", mk("call", mk("ext", "numpy.asarray"), (s,), ()), "flatten"), (), ())


def wrong_axis(d, M):
    """A division by sums along the other axis, or not by the row of the entry."""
    for x in walk(d):
        if x.op == "call" and x.a[0] is mk("attr", M, "sum"):
            ax = dict(x.a[2]).get("axis", x.a[1][0] if x.a[1] else None)
            return ax is None or is_num(ax) and ax.a[0] % 2 == 0
    return False


def slim(ctx, c, leaf, cs, X, loc):
    t = plain(leaf)
    lab = f"{c.name}" + (f" when {' and '.join(short(x, 50) for x in cs)}" if cs else "")
    if not (t.op == "call" and t.a[0].op == "fn" and "slim_weight" in t.a[0].a[0]):
        ctx.ob("slim", lab, None, short(t, 100), loc)
        return
    kw = dict(t.a[2])
    E = Entries(dim(X, 1))
    n, a, l1 = atom("dim", pp(X), 0), atom("param", "alpha"), atom("param", "l1_ratio")
    for k, want in (("l1_coeff", n * a * l1), ("l2_coeff", n * a * (num(1) + NEG * l1))):
        try:
            got = E.ev(norm(kw[k]), ())
            ctx.ob("slim", f"{lab} {k}", got.same(want), f"{k} is {short(kw[k], 100)}", loc)
        except (Opaque, KeyError) as e:
            ctx.ob("slim", f"{lab} {k}", None, str(e), loc)
    ctx.ob("slim", f"{lab} matrix", same_matrix(kw["X"], X) if "X" in kw else None, f"the native solver gets {short(kw.get('X', NONE), 60)}", loc)
    p = mk("truth", sym("positive_only"))
    pos = t.a[0].a[0].endswith("positive_only")
    if p in cs or not_(p) in cs:
        ctx.ob("slim", f"{lab} sign", pos == (p in cs), "the sign constraint is turned around", loc)


def popularity(ctx, c, leaf, X, loc):
    t = bare(leaf)
    while t.op in ("attr",) and t.a[1] in ("A", "A1") or t.op == "call" and (t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.asarray", "numpy.array", "numpy.atleast_2d") or t.a[0].op == "attr" and t.a[0].a[1] in ("reshape", "ravel", "flatten", "toarray")):
        t = t.a[0] if t.op == "attr" else t.a[1][0] if t.a[0].op == "ext" else t.a[0].a[0]
    ok = None
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("sum", "mean", "max", "getnnz", "count_nonzero"):
        o, kw = t.a[0].a[0], dict(t.a[2])
        ax = kw.get("axis", t.a[1][0] if t.a[1] else None)
        if ax is not None and is_num(ax) and o in (X, norm(mk("T", X))):
            a = ax.a[0] % 2
            ok = t.a[0].a[1] == "sum" and (a == 0) == (o is X)
    ctx.ob("popularity", c.name, ok, f"the score is {short(t, 100)}", loc)


def one(ctx, c, acc):
    I, st, o = construct(ctx, c)
    f = c.find("learn")
    v, s, effs = outcome(ctx, c, f, o, st, I)
    ctx.saw(*I.analysed)
    if v is None:
        ctx.ob("learns", c.name, False, "learning never completes", f.loc())
        return
    w, s2, _ = outcome(ctx, c, c.find(acc), o, s, I)
    if w is None:
        raise AnalysisError(f"{acc} is not available after learning")
    init = c.find("__init__")
    X = sym([a.arg for a in init.node.args.args][1])
    loc = (c.find("_learn") or f).loc()
    for cs, leaf in leaves(norm(I.deep(w, s2))):
        if leaf is NONE:
            continue
        cs = [x for x in cs if not any(y.op == "isnone" for y in walk(x))]
        if c.name == "DenseSLIMRecommender":
            closed_form(ctx, c, leaf, X, loc, lambda g: atom("param", "reg"))
        elif c.name == "EDLAERecommender":
            p = atom("param", "dropout_p")
            closed_form(ctx, c, leaf, X, loc, lambda g: atom("param", "reg") + p * (num(1) + NEG * p).inv() * g)
        elif c.name == "SLIMRecommender":
            slim(ctx, c, leaf, cs, X, loc)
        elif acc == "score":
            popularity(ctx, c, leaf, X, loc)
        else:
            neighbours(ctx, c, leaf, cs, X, loc, acc == "W")


def check(ctx):
    n = 0
    for c in concrete(ctx):
        names = {k.name for k in c.mro()}
        acc = "W" if "BaseSimilarityRecommender" in names else "U" if "BaseUserSimilarityRecommender" in names else "score" if c.name == "TopPopRecommender" else None
        if acc is None:
            continue
        n += 1
        ctx.guard(one, ctx, c, acc)
    ctx.ob("classes-found", "recommenders with a documented weight matrix", None if n < 8 else True, f"{n} classes")
