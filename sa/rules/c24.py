"""C24: every reported metric is accumulated by its defining formula."""
import ast
from fractions import Fraction

from ..common import *
from ..norm import norm
from . import c21
from .c21 import AVG, accumulators, dict_items, field, post

LEVEL = "proof"
TECHNIQUE = "static analysis: extraction of each metric's formula from the clang syntax tree as a sum over the ranking, brought to rational normal form and compared with the definition"
MIN_OBLIGATIONS = 9
EXPLANATION = ("The effect of one user's update on every accumulator, and every item-distribution value of the report, is extracted as an expression over sums (bounds, condition, summand) by data flow over the clang "
               "syntax tree. Sums, quotients and logarithms are brought to the normal form of rational functions over independent atoms and compared with the definition; a formula that leaves this fragment is undecided.")
ASSUMPTIONS = ["arithmetic is exact (rounding is not modelled)", "item counts are not negative", "the positions of a ranking are those of the list handed to the update"]

ONEP = {(): Fraction(1)}
ZEROP = {}


class Opaque(Exception):
    pass


# ---------------------------------------------------------------- polynomials and quotients over atoms
def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
        if not r[k]:
            del r[k]
    return r


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l))
            r[m] = r.get(m, 0) + v * w
            if not r[m]:
                del r[m]
    return r


def frozen(p):
    return tuple(sorted((k, v) for k, v in p.items()))


class Q:
    """num / den"""

    def __init__(self, n, d=None):
        self.n, self.d = n, d or ONEP

    def __add__(self, o):
        if frozen(self.d) == frozen(o.d):
            return Q(padd(self.n, o.n), self.d)
        return Q(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __mul__(self, o):
        return Q(pmul(self.n, o.n), pmul(self.d, o.d))

    def inv(self):
        if not self.n:
            raise Opaque("division by zero")
        return Q(self.d, self.n)

    def key(self):
        """Canonical enough: common monomial factors removed, leading coefficient one."""
        n, d = self.n, self.d
        if not n:
            return ((), frozen(ONEP))
        for x in {x for k in d for x in k}:
            while all(x in k for k in n) and all(x in k for k in d):
                n, d = drop(n, x), drop(d, x)
        if len(d) > 1 and set(n) == set(d):
            r = {n[k] / d[k] for k in d}
            if len(r) == 1:
                return (frozen({(): r.pop()}), frozen(ONEP))
        lead = d[min(d)]
        return (frozen({k: v / lead for k, v in n.items()}), frozen({k: v / lead for k, v in d.items()}))

    def same(self, o):
        return frozen(pmul(self.n, o.d)) == frozen(pmul(o.n, self.d))

    def zero(self):
        return not self.n

    def atoms(self):
        return {x for p in (self.n, self.d) for k in p for x in k}


def drop(p, x):
    r = {}
    for k, v in p.items():
        k = list(k)
        k.remove(x)
        r[tuple(k)] = v
    return r


def atom(*a):
    return Q({(repr(a),): Fraction(1)})


def num(v):
    f = Fraction(v)
    return Q({(): f} if f else {})


# ---------------------------------------------------------------- atoms of the metric formulas
I_ = ("I",)


class Fragment:
    """Reads terms as rational functions over ranking, ground truth and item counts."""

    def __init__(self, tables, counts=None, recs=None, gt=None, prefixes=None):
        self.tables = tables          # field name -> (variable, value) of precomputed tables
        self.counts, self.recs, self.gt = counts, recs, gt
        self.prefixes = prefixes or {}
        self.index = None             # terms that are the running position
        self.item = None
        self.cnt = None               # (term, sorted?) of the running count

    def q(self, t):
        if is_num(t):
            return num(t.a[0])
        if t in (TRUE, FALSE):
            return num(1 if t is TRUE else 0)
        if self.index is not None and t in self.index:
            return atom("I")
        if t.op == "lin":
            c, ps = lin_parts(t)
            r = num(c)
            for x, k in ps.items():
                r = r + num(k) * self.q(x)
            return r
        if t.op == "mul":
            r = num(1)
            for x in t.a[0]:
                r = r * self.q(x)
            return r
        if t.op == "div":
            return self.q(t.a[0]) * self.q(t.a[1]).inv()
        if t.op == "pow" and is_const(t.a[1], -1):
            return self.q(t.a[0]).inv()
        if t.op == "pow" and is_const(t.a[1], 2):
            return self.q(t.a[0]) * self.q(t.a[0])
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("math.log", "math.log2", "math.log10") and len(t.a[1]) == 1:
            x = self.q(t.a[1][0])
            if x.n and x.same(num(1)):
                return num(0)
            inner = self.log(x)
            base = {"math.log": None, "math.log2": 2, "math.log10": 10}[t.a[0].a[0]]
            return inner if base is None else inner * self.log(num(base)).inv()
        if t.op == "len":
            if t.a[0] is self.recs:
                return atom("K")
            if t.a[0] is self.gt:
                return atom("G")
            if t.a[0].op == "comp" and t.a[0].a[1] is not None and len(t.a[0].a[2]) == 1:
                c = t.a[0]
                return self.total(c.a[2][0], ONE, c.a[3])
            if t.a[0].op == "attr" and t.a[0].a[1] in self.tables:
                return atom("size", t.a[0].a[1])
        if t.op == "min" and any(x is mk("len", self.recs) for x in t.a[0] if self.recs is not None):
            # a ranking is never longer than a table over all items
            xs = [x for x in t.a[0] if not (x.op == "len" and x.a[0].op == "attr" and x.a[0].a[1] in self.tables)]
            if len(xs) == 1:
                return self.q(xs[0])
            return atom("min", *sorted(self.q(x).key() for x in xs))
        if t.op in ("min", "max") and len(t.a[0]) > 1:
            return atom(t.op, *sorted(self.q(x).key() for x in t.a[0]))
        if t.op == "dim" and t.a[0] is self.counts and t.a[1] == 0 or t.op == "len" and t.a[0] is self.counts:
            return atom("N")
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "sum" and t.a[0].a[0] is self.counts and not t.a[1]:
            return atom("T")
        if t.op == "idx":
            b = t.a[0]
            if b.op == "attr" and b.a[1] in self.tables:
                var, val = self.tables[b.a[1]]
                return self.q(norm(subst(val, {var: t.a[1]})))
            s = self.counted(b)
            if s is not None and self.index is not None and t.a[1] in self.index:
                return atom("cnt", s)
        if t.op == "elem" and self.counted(t.a[0]) is not None:
            return atom("cnt", self.counted(t.a[0]))
        if t.op == "loopout":
            return self.loop(t)
        if t.op == "sumover":
            return self.total(t.a[1], t.a[0], t.a[2])
        if t.op == "mu":
            d = self.prefixes.get(t)
            if d is not None:
                return atom("before", d.key())
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].endswith("accumulate"):
            a = t.a[1]
            if len(a) == 5 and a[0] is a[2] and a[0].op == "attr" and a[0].a[1] in self.tables and is_const(a[1], 0):
                var, val = self.tables[a[0].a[1]]
                v = sym("#i")
                return self.sum_(self.q(a[3]), norm(subst(val, {var: v})), (), [v]) + self.q(a[4])
        if t.op == "conv" and t.a[0] in ("float", "int"):
            return self.q(t.a[1])
        if t.op == "in" and self.index is not None:
            return atom("if", self.cond(t))
        raise Opaque(short(t, 100))

    def log(self, x):
        return atom("log", x.key())

    def counted(self, b):
        if self.counts is None:
            return None
        if b is self.counts:
            return "given"
        if b.op == "algo" and b.a[0] == "sort" and b.a[1] is self.counts:
            rest = b.a[2:]
            return "sorted" if len(rest) == 1 and whole(rest[0], self.counts) else None
        return None

    def bound(self, base):
        """(upper bound, terms denoting the position) of a loop over base."""
        if base.op == "range":
            if not is_const(base.a[0], 0) or not is_const(base.a[2], 1):
                raise Opaque("loop bounds")
            e = elem(base)
            ts = [e, mk("elem", base, 0)]
            if self.recs is not None and base.a[1] is mk("len", self.recs):
                ts += [mk("pos", self.recs, 0)]
            return self.q(base.a[1]), ts
        if base is self.recs:
            return atom("K"), [mk("pos", base, 0)]
        if self.counted(base) is not None:
            return atom("N"), [mk("pos", base, 0)]
        raise Opaque("loop over " + short(base, 60))

    def cond(self, c):
        """Canonical condition of a summand."""
        neg = False
        while c.op == "not":
            neg, c = not neg, c.a[0]
        if c.op == "in" and self.recs is not None and c.a[1] is self.gt:
            if c.a[0] in (mk("elem", self.recs, 0), elem(self.recs)) or c.a[0].op == "idx" and c.a[0].a[0] is self.recs and c.a[0].a[1] in self.index:
                return ("relevant", not neg)
        if c.op in ("eq", "lt", "le") and len(c.a) == 2:
            x, y = c.a
            if c.op == "eq" and any(is_const(z, 0) for z in c.a):
                z = y if is_const(x, 0) else x
                if z.op in ("in", "not"):
                    return self.cond(z if neg else not_(z))
            if c.op == "lt" and is_const(x, 0) and y.op == "in":
                return self.cond(not_(y) if neg else y)
            cx, cy = is_num(x), is_num(y)
            if cx != cy:
                k, t = (x, y) if cx else (y, x)
                z = self.q(t)
                if z.key() in (atom("cnt", "given").key(), atom("cnt", "sorted").key()):
                    if c.op == "eq" and k.a[0] == 0 or c.op == "le" and cy and k.a[0] == 0 or c.op == "lt" and cy and k.a[0] == 1:
                        return ("counted", neg)
                    if c.op == "lt" and cx and k.a[0] == 0 or c.op == "le" and cx and k.a[0] == 1:
                        return ("counted", not neg)
                    return ("count", c.op, cx, k.a[0], neg)
        raise Opaque("condition " + short(c, 80))

    def total(self, base, d, conds):
        b, ix = self.bound(base)
        if any(moving(x) for x in b.atoms()):
            raise Opaque("nested loop")
        return self.sum_(b, d, conds, ix)

    def sum_(self, b, d, conds, ix):
        old, self.index = self.index, list(ix)
        try:
            body = self.q(d)
            cs = {self.cond(c) for c in conds}
        finally:
            self.index = old
        return self.mksum(b, body, cs)

    def mksum(self, b, body, cs):
        """Sum of body below b: split by linearity, factors that do not move taken out."""
        r = num(0)
        for k, v in body.n.items():
            r = r + num(v) * self.term(b, Q({k: Fraction(1)}, body.d), set(cs))
        return r

    def term(self, b, body, cs):
        out = num(1)
        for x in sorted(body.atoms()):
            if x.startswith("('if',"):
                if any(x in k for k in body.d) or any(len(k) - len([y for y in k if y != x]) > 1 for k in body.n):
                    raise Opaque("truth value used as a number")
                body = Q(drop(body.n, x), body.d)
                cs = cs | {ast.literal_eval(x)[1]}
        for x in sorted(body.atoms()):
            if moving(x):
                continue
            while all(x in k for k in body.d):
                body = Q(body.n, drop(body.d, x))
                out = out * Q(ONEP, {(x,): Fraction(1)})
            while all(x in k for k in body.n):
                body = Q(drop(body.n, x), body.d)
                out = out * Q({(x,): Fraction(1)})
        txt = plain(repr(body.key()))
        if "(cnt, " in txt:
            if "(I,)" not in txt:
                body = Q(rename(body.n, "sorted", "given"), rename(body.d, "sorted", "given"))
            c1 = repr(("cnt", "given")), repr(("cnt", "sorted"))
            if "(log, " not in txt and all(any(x in c1 for x in k) for k in body.n) and not any(x in c1 for k in body.d for x in k):
                cs = {c for c in cs if c != ("counted", True)}
            if not cs and body.same(atom("cnt", "given")) and b.same(atom("N")):
                return out * atom("T")
        return out * atom("sum", b.key(), tuple(sorted(map(repr, cs))), body.key())

    def loop(self, t):
        base, init, nxt = t.a
        h, branches = step(t)
        if h is None:
            raise Opaque("loop " + short(t, 100))
        r = self.q(init)
        for cs, d in branches:
            if is_num(d) and d.a[0] == 0:
                continue
            r = r + self.total(base, d, cs)
        return r


def whole(t, counts):
    if t is NONE or t == ():
        return True
    xs = t if isinstance(t, tuple) else t.a[0] if t.op == "tuple" else ()
    return len(xs) == 2 and is_const(xs[0], 0) and xs[1] in (dim(counts, 0), mk("len", counts))


def rename(p, a, b):
    r = {}
    for k, v in p.items():
        k2 = tuple(sorted(x.replace(f"('cnt', '{a}')", f"('cnt', '{b}')").replace(f"(\\'cnt\\', \\'{a}\\')", f"(\\'cnt\\', \\'{b}\\')") for x in k))
        r[k2] = r.get(k2, 0) + v
    return r


def plain(x):
    return x.replace("\\", "").replace('"', "").replace("'", "")


def moving(x):
    if x.startswith("('sum',"):
        return False
    y = plain(x)
    return "(I,)" in y or "(cnt, " in y or "(before, " in y or "(if, " in y


def step(t):
    """(loop variable, [(conditions, increment)]) of an accumulating loop."""
    base, init, nxt = t.a
    for h in [x for x in walk(nxt) if x.op == "mu"]:
        ls = leaves(nxt)
        ds = [(cs, sub(l, h)) for cs, l in ls]
        if all(not contains(d, h) for _, d in ds) and all(not contains(c, h) for cs, _ in ds for c in cs):
            return h, ds
    return None, None


def loops_of(t):
    return [x for x in walk(t) if x.op == "loopout" and len(x.a) == 3]


def table(I, st, c, N):
    """Fields the constructor fills with a function of the position."""
    out = {}
    S = sym("self")
    f = c.methods.get("__init__")
    if f is None:
        return out
    I, st, v = post(N, f, c)
    for k in st.heap:
        if k[0] != "a" or k[1] is not S:
            continue
        t = norm(field(I, st, S, k[2]))
        if t.op == "loopout" and t.a[2].op == "store" and t.a[2].a[0].op == "mu" and t.a[0].op == "range" and is_const(t.a[0].a[0], 0) and is_const(t.a[0].a[2], 1):
            i, val = t.a[2].a[1], t.a[2].a[2]
            if i is elem(t.a[0]) and not any(x.op == "mu" for x in walk(val)):
                out[k[2]] = (i, val)
        elif t.op == "comp" and t.a[0] == "list" and len(t.a[2]) == 1 and not t.a[3] and t.a[2][0].op == "range" and is_const(t.a[2][0].a[0], 0):
            out[k[2]] = (elem(t.a[2][0]), t.a[1])
    return out


# ---------------------------------------------------------------- the definitions
def definitions():
    K, G = atom("K"), atom("G")
    R = Fragment({})
    rel = {("relevant", True)}
    disc = R.log(num(2)) * R.log(atom("I") + num(2)).inv()
    H = R.mksum(K, num(1), rel)
    small = atom("min", *sorted((K.key(), G.key())))
    before = atom("before", H.key())
    ap = R.mksum(K, (before + num(1)) * (atom("I") + num(1)).inv(), rel)
    return {
        "precision": {None: H * K.inv()},
        "recall": {True: H * small.inv(), False: H * G.inv()},
        "ndcg": {None: R.mksum(K, disc, rel) * R.mksum(small, disc, set()).inv()},
        "map": {None: ap * G.inv()},
    }, H


def distribution():
    R = Fragment({})
    N, T_ = atom("N"), atom("T")
    c = atom("cnt", "given")
    p = c * T_.inv()
    s = atom("cnt", "sorted")
    return {
        "appeared_item": R.mksum(N, num(1), {("counted", True)}),
        "entropy": R.mksum(N, num(-1) * p * R.log(p), {("counted", True)}),
        "gini_index": R.mksum(N, (num(2) * atom("I") + num(1)) * s, set()) * (N * T_).inv() + num(-1) * R.mksum(N, c, set()) * T_.inv(),
    }


def freeze(t, table_):
    """Loops replaced by symbols, so that alternatives outside them can be listed."""
    m = {}
    for x in sorted(loops_of(t), key=lambda x: -sum(1 for _ in walk(x))):
        if not any(contains(y, x) for y in m):
            m[x] = sym(f"#loop{len(table_) + len(m)}")
    table_.update({v: k for k, v in m.items()})
    return subst(t, m)


def thaw(t, table_):
    return subst(t, table_)


def empty_list(cs, recs):
    n = mk("len", recs)
    if any(c in (eq(n, ZERO), le(n, ZERO), lt(n, ONE)) for c in cs):
        return True
    if any(c in (not_(eq(n, ZERO)), lt(ZERO, n), le(ONE, n)) for c in cs):
        return False
    return None


def update(ctx, N, c, f):
    S = sym("self")
    I, st, v = post(N, f, c)
    ps = [a.arg for a in f.node.args.args][1:]
    recs, gt = sym(ps[0]), sym(ps[1])
    loc = next((e.loc for e in I.effects if e.kind in ("setattr", "store")), c.qual)
    tables = table(I, st, c, N)
    terms = {n: norm(field(I, st, S, c21.F(n))) for n in AVG if n != "hit"}
    hit = norm(field(I, st, S, c21.F("hit")))
    pre = {}
    for t in list(terms.values()) + [hit]:
        for l in loops_of(t):
            h, ds = step(l)
            if h is None:
                continue
            try:
                pre[h] = Fragment(tables, None, recs, gt, {}).loop(l)
            except Opaque:
                pass
    defs, H = definitions()
    for n, want in defs.items():
        if n not in terms:
            continue
        q = f"{c.qual}.{f.name} {n}"
        tb = {}
        cases = hoist(freeze(terms[n], tb))
        seen = set()
        for cs, leaf in cases:
            cs = tuple(thaw(x, tb) for x in cs)
            if any(not_(x) in cs for x in cs):
                continue
            d = sub(thaw(leaf, tb), mk("attr", S, c21.F(n)))
            e = empty_list(cs, recs)
            flag = next((k for k in cs for p in ps[2:] if contains(k, sym(p))), None)
            rest = [x for x in cs if x is not flag and not emptiness(x, recs, gt)]
            lab = f"{q} [{' '.join(short(x, 40) for x in cs)}]"
            if e:
                ctx.ob("no-recommendation", lab, is_num(d) and d.a[0] == 0 or (None if d.op != "div" else False), f"an empty list adds {short(d, 80)}", loc)
                continue
            if rest:
                rest = [x for x in rest if not nothing_found(x, tables, recs, gt, pre, H)]
                zero = len([x for x in cs if nothing_found(x, tables, recs, gt, pre, H) is True])
                if rest:
                    ctx.ob("definition", lab, None, f"{n} depends on {short(rest[0], 100)}", loc)
                    continue
                if any(nothing_found(x, tables, recs, gt, pre, H) == "zero" for x in cs):
                    ctx.ob("definition", lab, True if is_num(d) and d.a[0] == 0 else None, f"nothing found adds {short(d, 80)}", loc)
                    continue
            try:
                got = Fragment(tables, None, recs, gt, pre).q(d)
            except Opaque as ex:
                ctx.ob("definition", lab, None, f"{n}: {ex}", loc)
                continue
            key = None if None in want else (flag.op != "not") if flag is not None else "both"
            for k, w in want.items():
                if key in (k, "both"):
                    ctx.ob("definition", lab + f" {k}", got.same(w), f"{n} accumulates {short(d, 200)}", loc)
            if e is None and any(x in repr(got.key()[1]) for x in ("'K'",)) and n == "precision":
                ctx.ob("no-recommendation", lab, False, f"{n} is not a number for an empty list", loc)
            seen.add(key)
    # hit: one exactly when something relevant was recommended
    tb = {}
    for cs, leaf in hoist(freeze(hit, tb)):
        cs = tuple(thaw(x, tb) for x in cs)
        d = sub(thaw(leaf, tb), mk("attr", S, c21.F("hit")))
        lab = f"{c.qual}.{f.name} hit [{' '.join(short(x, 40) for x in cs)}]"
        if empty_list(cs, recs):
            ctx.ob("no-recommendation", lab, is_num(d) and d.a[0] == 0 or None, short(d, 80), loc)
            continue
        kinds = {nothing_found(x, tables, recs, gt, pre, H) for x in cs if not emptiness(x, recs, gt)}
        if kinds == {"some"} or kinds == {"zero"}:
            ctx.ob("definition", lab, is_const(d, 1 if kinds == {"some"} else 0), f"a user with {'a' if kinds == {'some'} else 'no'} relevant recommendation adds {short(d, 60)}", loc)
        elif kinds and all(isinstance(k, tuple) for k in kinds):
            ctx.ob("definition", lab, False, f"hit is counted under {short(cs[-1], 120)}", loc)
        else:
            ctx.ob("definition", lab, None, short(cs[-1] if cs else d, 100), loc)


def emptiness(x, recs, gt):
    while x.op == "not":
        x = x.a[0]
    ok = {mk("len", recs), mk("len", gt)}
    return x.op in ("eq", "lt", "le") and all(is_num(y) and y.a[0] in (0, 1) or y in ok for y in x.a) and any(y in ok for y in x.a)


def nothing_found(x, tables, recs, gt, pre, H):
    """'zero' / 'some': the condition says that no / some recommended item is relevant; a tuple: it asks for another number of them."""
    neg = False
    while x.op == "not":
        neg, x = not neg, x.a[0]
    if x.op == "truth":
        x, neg = eq(x.a[0], ZERO), not neg
        while x.op == "not":
            neg, x = not neg, x.a[0]
    if x.op not in ("eq", "lt", "le") or not any(is_num(y) for y in x.a):
        return None
    left = is_num(x.a[0])
    k, t = (x.a[0], x.a[1]) if left else (x.a[1], x.a[0])
    try:
        z = Fragment(tables, None, recs, gt, pre).q(t)
    except Opaque:
        return None
    if not z.same(H):
        return None
    k = k.a[0]
    zero = x.op == "eq" and k == 0 or not left and (x.op == "le" and k == 0 or x.op == "lt" and k == 1)
    some = left and (x.op == "lt" and k == 0 or x.op == "le" and k == 1)
    if zero or some:
        return "zero" if zero != neg else "some"
    return ("other", x.op, k)


def distributions(ctx, N, c, f):
    S = sym("self")
    I, st, v = post(N, f, c)
    items = dict_items(strip(I.deep(v, st))) if v is not None else None
    loc = I.effects[-1].loc if I.effects else c.qual
    if items is None:
        ctx.ob("definition", f"{c.qual}.{f.name}", None, "the report is not a mapping", loc)
        return
    for k, want in distribution().items():
        if k not in items:
            continue
        t = norm(items[k])
        cnts = sorted({x for x in walk(t) if x.op == "attr" and x.a[0] is S and any(y.op in ("dim", "idx", "algo", "attr") and y.a[1 if y.op == "algo" else 0] is x for y in walk(t))}, key=lambda x: x.a[1])
        if len(cnts) != 1:
            ctx.ob("definition", f"{c.qual}.{f.name} {k}", None, short(t, 100), loc)
            continue
        tb = {}
        for cs, leaf in hoist(freeze(t, tb)):
            cs = tuple(thaw(x, tb) for x in cs)
            d = thaw(leaf, tb)
            lab = f"{c.qual}.{f.name} {k} [{' '.join(short(x, 40) for x in cs)}]"
            F_ = Fragment({}, cnts[0])
            none = None
            try:
                for x in cs:
                    w = counted_any(F_, x)
                    none = w if none is None else none
                    if w is None:
                        raise Opaque("condition " + short(x, 80))
                got = F_.q(d)
            except Opaque as ex:
                ctx.ob("definition", lab, None, str(ex), loc)
                continue
            if none == "zero":
                ctx.ob("definition", lab, False if "'T'" in repr(got.key()[1]) else True, f"{k} is not a number when nothing was recommended", loc)
                continue
            ctx.ob("definition", lab, got.same(want), f"{k} is {short(d, 260)}", loc)
            if none is None and "'T'" in repr(got.key()[1]) and k == "gini_index":
                ctx.ob("definition", lab + " nothing recommended", False, f"{k} is not a number when nothing was recommended", loc)


def counted_any(F_, x):
    neg = False
    while x.op == "not":
        neg, x = not neg, x.a[0]
    if x.op not in ("eq", "lt", "le") or not any(is_num(y) and y.a[0] == 0 for y in x.a):
        return None
    left = is_num(x.a[0])
    z = F_.q(x.a[1] if left else x.a[0])
    if not z.same(atom("T")):
        return None
    zero = x.op == "eq" or x.op == "le" and not left
    some = x.op == "lt" and left
    return None if not zero and not some else ("zero" if zero != neg else "some")


def check(ctx):
    N = ctx.native()
    for m, c in accumulators(N):
        ctx.saw(c.qual)
        c21.aliases(N, c, list(c.annots))
        for f in c21.changing(c):
            S = sym("self")
            I, st, v = post(N, f, c)
            touched = {k[2] for k in st.heap if k[0] == "a" and k[1] is S and field(I, st, S, k[2]) is not mk("attr", S, k[2])}
            if set(map(c21.F, AVG)) <= touched and len(f.node.args.args) >= 3:
                ctx.saw(f.qual)
                ctx.guard(update, ctx, N, c, f)
        f = c.methods.get("as_dict")
        if f is not None:
            ctx.saw(f.qual)
            ctx.guard(distributions, ctx, N, c, f)
