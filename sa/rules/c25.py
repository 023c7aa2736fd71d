"""C25: similarities and weightings follow their formulas."""
from fractions import Fraction

from ..common import *
from ..norm import norm
from .c21 import field, post
from .c24 import ONEP, Opaque, Q, atom, num

LEVEL = "proof"
TECHNIQUE = "static analysis: the value stored in every entry of a sparse result is extracted from the clang syntax tree as a function of the entry, its row and its column, brought to rational normal form and compared with the formula"
MIN_OBLIGATIONS = 14
EXPLANATION = ("Loops over the entries of a sparse matrix are summarised entrywise: what is stored in an entry as a function of its old value, and vectors accumulated over rows or columns as sums of a summand. "
               "Tables the constructor fills are substituted. The resulting expression is compared with the published formula as a rational function over independent atoms (powers and logarithms canonical).")
ASSUMPTIONS = ["arithmetic is exact", "sparse matrices hold each entry once"]


# ---------------------------------------------------------------- powers
def power(b, e):
    """b ** e"""
    if e.same(num(1)):
        return b
    if e.zero() or b.same(num(1)):
        return num(1)
    if len(b.n) == 1 and list(b.n.values()) == [1] and len(b.d) == 1 and list(b.d) == [()]:
        (k,) = b.n
        if len(k) == 1 and k[0] in POW:
            b0, e0 = POW[k[0]]
            return power(b0, e0 * e)
    if not e.atoms() and e.n and e.same(num(2)):
        return b * b
    a = atom("pow", b.key(), e.key())
    POW[next(iter(a.n))[0]] = (b, e)
    return a


POW = {}


def log(x):
    return atom("log", x.key())


class Entry:
    """Reads terms as functions of one entry of a sparse matrix."""

    def __init__(self, base, ctor=None, params=(), block=None, rows=None):
        self.base = base          # the matrix (copies stripped)
        self.ctor = ctor or {}    # field -> term over constructor parameters
        self.params = set(params)
        self.block = block        # (matrix, start): the rows of base belong to these rows of the matrix
        self.r = self.pos = None

    def at_entry(self, idx_, loops):
        if len(loops) < 2 or loops[-1].dom is None or loops[-2].dom is None:
            raise Opaque("not a loop over entries")
        outer, inner = strip(loops[-2].dom), strip(loops[-1].dom)
        self.r = elem(outer)
        self.enter(outer, inner)
        if norm(strip(idx_)) not in self.pos:
            raise Opaque("position " + short(idx_, 80))
        return outer

    def enter(self, outer, inner):
        b = self.base
        r = elem(outer)
        lo, hi = idx(mk("attr", b, "indptr"), r), idx(mk("attr", b, "indptr"), add(r, ONE))
        if inner is not mk("range", lo, hi, ONE) and norm(inner) is not norm(mk("range", lo, hi, ONE)):
            raise Opaque("entries " + short(inner, 80))
        self.r = r
        e = elem(inner)
        self.pos = {norm(strip(e)), norm(strip(add(lo, elem(rng(ZERO, sub(hi, lo), ONE)))))}

    # ------------------------------------------------------------ scalars
    def q(self, t):
        t = strip(t)
        if is_num(t):
            return atom("eps") if 0 < abs(t.a[0]) < 1e-4 else num(t.a[0])
        if t.op == "lin":
            c, ps = lin_parts(t)
            r = num(0) if not c else atom("eps") if 0 < abs(c) < 1e-4 else num(c)
            if c and isinstance(c, (float, Fraction)) and not 0 < abs(c) < 1e-4:
                whole_ = round(float(c))
                if whole_ and 0 < abs(float(c) - whole_) < 1e-4:
                    r = num(whole_) + atom("eps")
            for x, k in ps.items():
                r = r + num(k) * self.q(x)
            return r
        if t.op == "mul":
            r = num(1)
            for x in t.a[0]:
                r = r * self.q(x)
            return r
        if t.op == "div":
            return self.q(t.a[0]) * self.q(t.a[1]).inv()
        if t.op == "pow":
            return power(self.q(t.a[0]), self.q(t.a[1]))
        if t.op == "call":
            f = t.a[0]
            if f.op == "ext":
                n = f.a[0].split(".")[-1]
                if n in ("pow", "power") and len(t.a[1]) == 2:
                    return power(self.q(t.a[1][0]), self.q(t.a[1][1]))
                if n == "sqrt" and len(t.a[1]) == 1:
                    return power(self.q(t.a[1][0]), num(Fraction(1, 2)))
                if n == "log" and len(t.a[1]) == 1:
                    return log(self.q(t.a[1][0]))
            if f.op == "attr" and not t.a[1] and f.a[1] in ("sum", "norm", "squaredNorm"):
                return self.reduce(f.a[0], f.a[1])
        if t.op == "attr" and t.a[1] == "size" or t.op == "dim" and t.a[0].op in ("loopout", "store", "empty", "zeros"):
            n = length(t.a[0])
            if n is not None:
                return self.q(n)
        if t.op == "attr" and t.a[0] is sym("self"):
            v = self.ctor.get(t.a[1])
            if v is not None and v.op in ("sym", "const", "dim"):
                return self.q(v)
        if t.op == "sym":
            return atom("param", t.a[0])
        if t.op == "dim":
            return atom("dim", pp(t.a[0]), t.a[1])
        if t.op == "idx":
            return self.at(t.a[0], t.a[1])
        raise Opaque(short(t, 120))

    # ------------------------------------------------------------ vectors
    def where(self, i):
        i = norm(strip(i))
        if i is norm(self.r):
            return "outer"
        b = self.base
        if i.op == "idx" and i.a[0] is mk("attr", b, "indices") and norm(i.a[1]) in self.pos:
            return "inner"
        raise Opaque("index " + short(i, 80))

    def at(self, v, i):
        v = strip(v)
        r = root_data(v)
        if r is not None:
            if r is mk("attr", self.base, "data") and norm(strip(i)) in self.pos:
                return self.data(v)
            raise Opaque("another entry " + short(i, 60))
        return self.vec(v, i)

    def scalar(self, t):
        return not any(x.op in ("loopout", "mu", "store", "empty", "zeros") for x in walk(t))

    def vec(self, v, i):
        v = strip(v)
        if v.op == "attr" and v.a[0] is sym("self") and v.a[1] in self.ctor:
            return self.vec(self.ctor[v.a[1]], i)
        if v.op in ("lin", "mul", "div", "pow") or v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0].split(".")[-1] in ("log", "pow", "power", "sqrt"):
            if v.op == "lin":
                c, ps = lin_parts(v)
                r = num(c)
                for x, k in ps.items():
                    r = r + num(k) * self.vec(x, i)
                return r
            if v.op == "mul":
                r = num(1)
                for x in v.a[0]:
                    r = r * self.vec(x, i)
                return r
            if v.op == "div":
                return self.vec(v.a[0], i) * self.vec(v.a[1], i).inv()
            if v.op == "pow":
                return power(self.vec(v.a[0], i), self.vec(v.a[1], i))
            n = v.a[0].a[0].split(".")[-1]
            xs = [self.vec(x, i) for x in v.a[1]]
            return log(xs[0]) if n == "log" else power(xs[0], num(Fraction(1, 2))) if n == "sqrt" else power(*xs)
        if v.op == "loopout":
            d, init, nxt = v.a
            if nxt.op == "loopout":
                return self.accumulated(v, i)
            if nxt.op == "store" and nxt.a[0].op == "mu" and d.op == "range" and is_const(d.a[0], 0) and is_const(d.a[2], 1) and nxt.a[1] is elem(d):
                val = nxt.a[2]
                if any(x.op == "mu" for x in walk(val)):
                    raise Opaque("recurrence")
                return self.q(subst(val, {elem(d): i}))
        if self.scalar(v):
            return self.q(v)
        raise Opaque("vector " + short(v, 80))

    def accumulated(self, v, i):
        """vec[row or column of the entry] += summand, over all entries of a matrix."""
        outer, init, nxt = v.a
        inner, m, s = nxt.a
        if not zero(init) or s.op != "store" or s.a[0].op != "mu":
            raise Opaque("accumulation " + short(v, 80))
        ix, val = s.a[1], s.a[2]
        b = next((x.a[0] for x in walk(inner) if x.op == "attr" and x.a[1] == "indptr"), None)
        if b is None:
            raise Opaque("accumulation over " + short(inner, 60))
        E = Entry(strip(b), self.ctor, self.params)
        E.enter(strip(outer), strip(inner))
        d = sub(val, idx(s.a[0], ix))
        if contains(d, s.a[0]):
            raise Opaque("accumulation " + short(val, 80))
        axis = E.where(ix)
        w = axis if strip(b) is self.base and False else axis
        here = self.where(i) if i is not None else "all"
        full = outer.op == "range" and is_const(outer.a[0], 0) and is_const(outer.a[2], 1) and norm(outer.a[1]) in outer_sizes(strip(b))
        if not full:
            if outer.op == "range" and (is_num(outer.a[0]) and outer.a[0].a[0] > 0 or any(is_num(sub(outer.a[1], z)) for z in outer_sizes(strip(b)))):
                return atom("partial", w, here)
            raise Opaque("rows " + short(outer, 60))
        if strip(b) is not self.base and here != "all":
            raise Opaque("sums over another matrix")
        return atom("acc", w, here, E.q(d).key())

    def reduce(self, x, what):
        x = strip(x)
        if not self.scalar(x):
            if what != "sum":
                raise Opaque(what)
            return self.vec_total(x)
        sq = False
        if x.op == "mul" and len(x.a[0]) == 2 and x.a[0][0] is x.a[0][1]:
            x, sq = x.a[0][0], True
        if x.op == "pow" and is_const(x.a[1], 2):
            x, sq = x.a[0], True
        who = self.row(x)
        if what == "norm" and not sq:
            return power(atom("squares", *who), num(Fraction(1, 2)))
        if what == "squaredNorm" and not sq or what == "sum" and sq:
            return atom("squares", *who)
        if what == "sum":
            return atom("rowsum", *who)
        raise Opaque(what)

    def vec_total(self, x):
        if x.op == "loopout" and x.a[2].op == "loopout":
            return self.accumulated(x, None)
        raise Opaque("sum of " + short(x, 60))

    def row(self, x):
        if x.op == "T":
            x = x.a[0]
        if x.op == "idx":
            m, i = x.a
            if m.op == "T":
                raise Opaque("row " + short(x, 60))
            if self.block is not None:
                mat, start = self.block
                if m is mat and norm(sub(i, start)) is norm(self.r):
                    return ("own", "target")
                if m is idx(mat, mk("slice", start, *self.block_end)) and norm(i) is norm(self.r):
                    return ("own", "target")
                if m is mat and norm(i) is norm(self.r):
                    return ("row without the block's start", "target")
            if m.op == "sym":
                return (self.where(i), m.a[0])
        raise Opaque("row " + short(x, 60))

    # ------------------------------------------------------------ entries of the matrix itself
    def data(self, d):
        d = strip(d)
        if d.op == "attr":
            return atom("V")
        if d.op == "mu":
            return self.data(d.a[3])
        if d.op == "loopout" and d.a[2].op == "loopout" and d.a[2].a[2].op == "store":
            s = d.a[2].a[2]
            if norm(strip(s.a[1])) not in self.pos or strip(d.a[0]) is not strip(self.outer):
                raise Opaque("an earlier pass over other entries")
            return self.q(s.a[2])
        raise Opaque("entry " + short(d, 80))


def zero(t):
    return t.op == "zeros" or t.op == "store" and is_const(t.a[2], 0) and t.a[0].op == "empty"


def length(t):
    """The length of a vector that is filled element by element."""
    t = strip(t)
    while t.op in ("loopout", "store", "mu"):
        t = strip(t.a[{"loopout": 1, "store": 0, "mu": 3}[t.op]])
    if t.op in ("empty", "zeros") and t.a and t.a[0].op in ("tuple", "t") and len(t.a[0].a[0] if isinstance(t.a[0].a[0], tuple) else t.a[0].a) == 1:
        return (t.a[0].a[0] if isinstance(t.a[0].a[0], tuple) else t.a[0].a)[0]
    return None


def outer_sizes(b):
    return {norm(dim(b, 0)), norm(dim(b, 1)) if b.op == "T" else norm(dim(b, 0)), norm(dim(b.a[0], 0)) if b.op == "T" else norm(dim(b, 0))}


def root_data(t):
    while True:
        if t.op in ("mu",):
            t = t.a[3]
        elif t.op == "loopout":
            t = t.a[1]
        elif t.op == "store":
            t = t.a[0]
        elif t.op == "conv":
            t = t.a[1]
        else:
            break
        if not isinstance(t, T):
            return None
    return t if t.op == "attr" and t.a[1] == "data" else None


# ---------------------------------------------------------------- the formulas
V = lambda: atom("V")
P = lambda n: atom("param", n)
E_ = lambda: atom("eps")


def similarity(name):
    sX, sT = atom("squares", "inner", "X_arg"), atom("squares", "own", "target")
    nX, nT = atom("rowsum", "inner", "X_arg"), atom("rowsum", "own", "target")
    half = num(Fraction(1, 2))
    rest = P("shrinkage") + E_()
    return {
        "CosineSimilarityComputer": V() * (power(sX, half) * power(sT, half) + rest).inv(),
        "AsymmetricCosineSimilarityComputer": V() * (power(sX, num(1) + num(-1) * P("alpha")) * power(sT, P("alpha")) + rest).inv(),
        "JaccardSimilarityComputer": V() * (nX + nT + num(-1) * V() + rest).inv(),
        "TverskyIndexComputer": V() * (V() + P("beta") * (nX + num(-1) * V()) + P("alpha") * (nT + num(-1) * V()) + rest).inv(),
    }[name]


def acc(axis, here, d):
    return atom("acc", axis, here, d.key())


def ctor_fields(N, c):
    I, st, v = post(N, c.methods["__init__"], c)
    S = sym("self")
    out = {}
    for k in st.heap:
        if k[0] == "a" and k[1] is S:
            out[k[2]] = norm(field(I, st, S, k[2]))
    return I, st, out


def data_stores(I):
    return [e for e in I.effects if e.kind == "store" and e.obj is not None and e.obj.op == "attr" and e.obj.a[1] == "data"]


def extra(e, st):
    """Conditions of an effect that do not hold on every normal return."""
    return [x for x in e.path if x not in st.path]


def covers(e, sizes):
    """The loop visits every row."""
    d = norm(strip(e.loops[-2].dom))
    if d.op != "range":
        return None
    if is_const(d.a[0], 0) and is_const(d.a[2], 1) and d.a[1] in sizes:
        return True
    if is_num(d.a[0]) and d.a[0].a[0] > 0 or any(is_num(sub(d.a[1], z)) and sub(d.a[1], z).a[0] < 0 for z in sizes):
        return False
    return None


def judge(ctx, rule, label, got, want, loc):
    if isinstance(got, Opaque):
        ctx.ob(rule, label, None, str(got), loc)
    else:
        ctx.ob(rule, label, got.same(want), f"an entry becomes {show(got)}", loc)


def show(x):
    def poly(p):
        return " + ".join((f"{v}*" if v != 1 or not k else "") + "*".join(s.replace("'", "").replace("\\", "").replace('"', "") for s in k) for k, v in sorted(p.items()))[:200]
    return f"({poly(x.n)}) / ({poly(x.d)})"


def similarities(ctx, N, c):
    I0, st0, flds = ctor_fields(N, c)
    f = c.methods["compute_similarity_imple"]
    ctx.saw(f.qual)
    ps = [a.arg for a in f.node.args.args][1:]
    tgt, start, end = (sym(x) for x in ps[:3])
    I, st, v = post(N, f, c)
    loc = f.loc()
    X = sym("X_arg")
    xt = next((k for k, t in flds.items() if t is norm(mk("T", X))), None)
    rs = [(cs, norm(strip(l))) for cs, l in leaves(I.deep(v, st))] if v is not None else []
    want = mk("matmul", idx(tgt, mk("slice", start, end, NONE)), mk("attr", sym("self"), xt)) if xt else None
    for cs, l in rs:
        ok = l is norm(want) if want is not None else None
        und = l.op != "matmul"
        ctx.ob("product", f"{c.qual} {' '.join(short(x, 30) for x in cs)}", True if ok else (None if und or want is None else (False if swapped(l, want) else None)), f"entries come from {short(l, 120)}", loc)
    binary = c.name in ("JaccardSimilarityComputer", "TverskyIndexComputer")
    stores = data_stores(I)
    res = [e for e in stores if strip(e.obj.a[0]).op == "matmul"]
    if binary:
        ones = [e for e in stores if strip(e.obj.a[0]).op != "matmul"]
        ok = None
        if not stores or not ones:
            ok = False if all(strip(l).op == "matmul" for _, l in rs) and not any(e.kind == "call" and "constant" in pp(e.fn).lower() for e in I.effects) else None
        elif all(is_const(strip(e.val), 1) and not extra(e, st) for e in ones):
            ok = covers(ones[0], {norm(dim(strip(ones[0].obj.a[0]), 0)), norm(sub(end, start))})
        elif any(is_num(strip(e.val)) for e in ones):
            ok = False
        ctx.ob("binary", f"{c.qual} target", ok, "the target's values are not replaced by one", ones[0].loc if ones else loc)
        ones = data_stores(I0)
        nrm = [k for k, e in enumerate(I0.effects) if e.kind == "store" and e not in ones and e.obj.op != "attr"]
        ok = None
        if not ones:
            ok = False if all(e.fn.op != "opaque" for e in I0.effects if e.kind == "call") else None
        elif all(is_const(strip(e.val), 1) and not extra(e, st0) for e in ones):
            ok = covers(ones[0], {norm(dim(X, 0))})
            if ok and nrm and I0.effects.index(ones[0]) > nrm[0]:
                ok = False
        elif any(is_num(strip(e.val)) for e in ones):
            ok = False
        ctx.ob("binary", f"{c.qual} features", ok, "the features' values are not replaced by one before they are counted", ones[0].loc if ones else c.methods["__init__"].loc())
    base = norm(want) if want is not None else None
    q = f"{c.qual}.compute_similarity_imple"
    want_q = similarity(c.name)
    if not res:
        ctx.ob("formula", q, False if rs and all(l.op == "matmul" for _, l in rs) else None, "the products are returned as they are", loc)
        return
    for e in res[-1:]:
        M = strip(e.obj.a[0])
        R = Entry(M, flds, ps, (tgt, start))
        R.block_end = (end, NONE)
        R.outer = e.loops[-2].dom if len(e.loops) > 1 else None
        try:
            R.at_entry(e.idx, e.loops)
            got = R.q(strip(e.val)) if len(res) == 1 else raise_(Opaque("several passes"))
        except Opaque as ex:
            got = ex
        judge(ctx, "formula", q, got, want_q, e.loc)
        cov = covers(e, {norm(sub(end, start)), norm(dim(M, 0)), norm(dim(e.obj.a[0], 0))})
        ctx.ob("all-entries", q, cov, "some rows keep the bare product", e.loc)
        cond = extra(e, st)
        nflag = mk("truth", mk("attr", sym("self"), "normalize"))
        if c.name == "CosineSimilarityComputer":
            ok = True if cond == [nflag] else (False if not cond or cond == [not_(nflag)] else None)
        else:
            ok = True if not cond else (False if any(contains(x, sym("self")) for x in cond) else None)
        ctx.ob("when", q, ok, f"the formula applies {'when ' + short(cond[0], 60) if cond else 'always'}", e.loc)


def raise_(e):
    raise e


def swapped(l, want):
    """A product of the same matrices that is certainly another one."""
    return l.op == "matmul" and {x for x in walk(l) if x.op in ("sym", "attr")} <= {x for x in walk(want) if x.op in ("sym", "attr")}


def walks(ctx, N, c):
    rp3 = c.name.startswith("RP3")
    I0, st0, flds = ctor_fields(N, c)
    a = P("alpha")
    va = power(V(), a)
    I1, st1, _ = post(N, c.methods["compute_W"], c)
    for I, st, name, axis, loc in ((I0, st0, "__init__", "outer", c.methods["__init__"].loc()), (I1, st1, "compute_W", "inner", c.methods["compute_W"].loc())):
        ctx.saw(c.methods[name].qual)
        stores = data_stores(I)
        q = f"{c.qual}.{name}"
        if not stores:
            ctx.ob("formula", q, False, "the weights are used as given", loc)
            continue
        e = stores[-1]
        if len({e2.obj for e2 in stores}) != 1:
            ctx.ob("formula", q, None, "several matrices are changed", loc)
            continue
        R = Entry(strip(e.obj.a[0]), flds if name != "__init__" else {}, ())
        R.outer = e.loops[-2].dom if len(e.loops) > 1 else None
        if name == "__init__":
            R.ctor = {k: t for k, t in flds.items() if t.op in ("sym", "const")}
        want = va * acc(axis, axis, va).inv()
        if rp3 and name == "compute_W":
            want = want * power(acc("outer", "outer", V()), P("beta")).inv()
        try:
            R.at_entry(e.idx, e.loops)
            got = R.q(strip(e.val))
        except Opaque as ex:
            got = ex
        judge(ctx, "formula", q, got, want, e.loc)
        b = strip(e.obj.a[0])
        ctx.ob("all-entries", q, covers(e, outer_sizes(b)), "some entries are left out", e.loc)
        ctx.ob("when", q, True if not extra(e, st) else None, "", e.loc)
    I, st, v = post(N, c.methods["compute_similarity_imple"], c)
    ps = [x.arg for x in c.methods["compute_similarity_imple"].node.args.args][1:]
    tgt, start, end = (sym(x) for x in ps[:3])
    xt = next((k for k, t in flds.items() if t is norm(mk("T", sym("X_arg")))), None)
    l = norm(strip(I.deep(v, st))) if v is not None else NONE
    want = norm(mk("matmul", idx(tgt, mk("slice", start, end, NONE)), mk("attr", sym("self"), xt))) if xt else None
    ctx.ob("product", f"{c.qual}.compute_similarity_imple", True if l is want else (False if want is not None and swapped(l, want) or data_stores(I) else None), short(l, 120), c.methods["compute_similarity_imple"].loc())


def weights(ctx, N, f, which):
    I, st, v = N.run(f, None)
    ctx.saw(f.qual)
    loc = f.loc()
    X = sym([a.arg for a in f.node.args.args][0])
    stores = data_stores(I)
    q = f.qual
    if v is None or strip(I.deep(v, st)) is not X and strip(v) is not X:
        ctx.ob("formula", q, None, f"returns {short(v, 80) if v is not None else ''}", loc)
        return
    if not stores:
        ctx.ob("formula", q, False, "the weights are the given values", loc)
        return
    e = stores[-1]
    R = Entry(X, {}, ())
    R.outer = e.loops[-2].dom if len(e.loops) > 1 else None
    n = atom("dim", pp(X), 0)
    df = acc("inner", "inner", num(1))
    if which == "tfidf":
        want = V() * log(n * (df + P("smooth")).inv())
    else:
        k1, b = P("k1"), P("b")
        avg = acc("outer", "all", V()) * n.inv()
        reg = k1 * (num(1) + num(-1) * b + b * acc("outer", "outer", V()) * avg.inv())
        want = log(n * (df + num(1)).inv() + num(1)) * V() * (k1 + num(1)) * (V() + reg).inv()
    try:
        R.at_entry(e.idx, e.loops)
        got = R.q(strip(e.val))
    except Opaque as ex:
        got = ex
    judge(ctx, "formula", q, got, want, e.loc)
    ctx.ob("all-entries", q, covers(e, outer_sizes(X)), "some entries keep their value", e.loc)
    ctx.ob("when", q, True if not extra(e, st) else None, "", e.loc)


def check(ctx):
    N = ctx.native()
    for c in N.mods["_knn"].classes.values():
        if "compute_similarity_imple" not in c.methods:
            continue
        if "compute_W" in c.methods:
            ctx.guard(walks, ctx, N, c)
        else:
            ctx.guard(similarities, ctx, N, c)
    fs = N.mods["_util_cpp"].funcs
    for n, w in (("tf_idf_weight", "tfidf"), ("okapi_BM_25_weight", "bm25")):
        ks = [k for k in fs if k.split("__")[0] == n]
        ctx.anchor(bool(ks), n)
        for k in ks:
            ctx.guard(weights, ctx, N, fs[k], w)
