"""C28: the factor updates use the documented weights, regularisation and Gram matrix."""
import ast
import math
from fractions import Fraction as Fr
from ..common import *
from ..norm import norm
from .c11 import NoVal
from .c21 import field

LEVEL = "proof"
TECHNIQUE = "static analysis: the accumulations over a row's interactions are extracted from the clang syntax tree as symbolic increments; each is compared, as a polynomial in weight, factor row, prediction and settings, with the term of the normal equation it stands for"
MIN_OBLIGATIONS = 12
EXPLANATION = ("For every solver of the implicit ALS the increments over the interactions of a row are extracted: the right-hand side must grow by (b + x) v, the matrix by x v v', the residual and the matrix-vector product by x (v.y) v, the gradient of "
               "the subspace solvers by (x (prediction - 1) - b) v, b being alpha0 for the original loss and zero for the iALS++ loss. The Gram matrix must be alpha0 times the sum over all rows of the other side, and the diagonal term "
               "reg (alpha0 m + n)^nu with n the interactions of the row and m the size of the other side, entering with the sign of the Gram term.")
ASSUMPTIONS = ["polynomials of degree at most two in each symbol are compared on grids of at least three values per symbol", "real arithmetic"]


class Ev:
    """Value of a term for one assignment of the abstract quantities."""

    def __init__(self, S, **env):
        self.S, self.env, self.leaf, self.used = S, env, None, set()

    def g(self, k):
        self.used.add(k)
        if k not in self.env:
            raise NoVal
        return self.env[k]

    def __call__(self, t):
        t = strip(t)
        op, S = t.op, self.S
        if op == "const":
            v = t.a[0]
            return Fr(v) if isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v) else v
        if op == "lin":
            return Fr(t.a[0]) + sum(Fr(k) * self(x) for x, k in t.a[1])
        if op == "mul":
            r = Fr(1)
            for x in t.a[0]:
                r *= self(x)
            return r
        if op == "div":
            d = self(t.a[1])
            if d == 0:
                raise NoVal
            return self(t.a[0]) / d
        if op == "isnone" and "none" in self.env:
            return self.env["none"]
        if op == "mu" and "none" in self.env and isinstance(t.a[2], str) and t.a[0].op == "while":
            return Fr(0)           # a buffer of the worker, cleared before
        if op == "phi" and "state" in self.env and strip(t.a[0]).op in ("truth", "not") and any(x.op == "attr" for x in walk(t.a[0])) and not any(x.op == "sym" and x is not sym("self") for x in walk(t.a[0])):
            return self(t.a[1] if self.env["state"] else t.a[2])
        if op == "phi":
            return self(t.a[1]) if self(t.a[0]) else self(t.a[2])
        if op == "eq":
            return self(t.a[0]) == self(t.a[1])
        if op in ("lt", "le"):
            a, b = self(t.a[0]), self(t.a[1])
            if isinstance(a, str) or isinstance(b, str):
                raise NoVal
            return a < b if op == "lt" else a <= b
        if op in ("min", "max"):
            return (min if op == "min" else max)(self(x) for x in t.a[0])
        if op == "not":
            return not self(t.a[0])
        if op in ("and", "or"):
            xs = [self(x) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a)]
            return all(xs) if op == "and" else any(xs)
        if op == "attr" and t.a[1] in ("alpha0", "reg", "nu", "loss_type"):
            return self.g(t.a[1])
        if op == "T":
            return self(t.a[0])
        if op == "call" and is_pow(t):
            return self.g("R")
        if op == "call" and is_sqrt(t):
            r = self(t.a[1][0])
            n = math.isqrt(int(r)) if r == int(r) and r >= 0 else -1
            if n * n != r:
                raise NoVal
            return Fr(n)
        if op == "sumover":
            return self.g("h")
        if op == "matmul":
            if any(S.row(x) for x in t.a[:2]):
                return self.g("d")
            if any(S.gram(x) for x in t.a[:2]):
                return self.g("g")
            raise NoVal
        if op == "idx":
            if S.row(t):
                return self.g("v")
            k = t.a[1]
            b = strip(t.a[0])
            if b.op == "attr" and b.a[1] == "data":
                return self.g("x")
            if b.op == "attr" and b.a[1] in ("indptr", "indices"):
                raise NoVal
            if S.gram(t):
                return self.g("g")
            if S.at_entry(k):
                return self.g("q")
        if S.gram(t):
            return self.g("g")
        if op in ("idx", "mu", "loopout"):
            if self.leaf is not None and self.leaf is not t:
                raise NoVal
            self.leaf = t
            return self.g("y")
        raise NoVal


def is_pow(t):
    return t.op == "call" and callee(t) in ("math.pow", "pow") and len(t.a[1]) == 2


def is_sqrt(t):
    return t.op == "call" and callee(t) in ("math.sqrt", "sqrt") and len(t.a[1]) == 1


def callee(t):
    f = t.a[0]
    return f if isinstance(f, str) else f.a[0] if f.op in ("ext", "sym", "const", "fn") and isinstance(f.a[0], str) else None


class Shape:
    def __init__(self, dom=None):
        self.dom = dom

    def row(self, t):
        """A row of the other side, picked by the column of the current interaction."""
        t = strip(t)
        while t.op == "T":
            t = strip(t.a[0])
        return t.op == "idx" and any(j.op == "idx" and strip(j.a[0]).op == "attr" and strip(j.a[0]).a[1] == "indices" for j in self.parts(t.a[1]))

    def parts(self, k):
        k = strip(k)
        return [strip(x) for x in k.a[0]] if k.op == "tuple" else [k]

    def gram(self, t):
        t = strip(t)
        while t.op in ("idx", "T"):
            t = strip(t.a[0])
        return t.op == "attr" and t.a[1] == "P" and t.a[0].op in ("sym", "self", "param", "new")

    def at_entry(self, k):
        """The position of the current interaction."""
        k = strip(k)
        first = lambda z: strip(z).op == "idx" and strip(strip(z).a[0]).op == "attr" and strip(strip(z).a[0]).a[1] == "indptr"
        return self.dom is not None and (k.op == "mu" and first(k.a[-1]) or any(x.op == "elem" for x in walk(k)) and any(x.op == "attr" and x.a[1] == "indptr" for x in walk(k)))


XS, VS, QS, DS, AS, YS = (0, 1, 4, 9), (-1, 1, 2, 3), (-2, 0, 1, 3), (-1, 1, 2, 5), (0, 1, 4), (-1, 1, 2, 5)
LOSS = ("LossType.IALSPP", "LossType.ORIGINAL")


def grid(**ks):
    out = [{}]
    for k, vs in ks.items():
        out = [dict(e, **{k: Fr(v) if not isinstance(v, str) else v}) for e in out for v in vs]
    return out


def losses(t):
    names = [y.a[0] for x in walk(t) if x.op == "eq" and any(z.op == "attr" and z.a[1] == "loss_type" for z in x.a) for y in x.a if y.op == "const"]
    return names


def increment(S, d):
    """(kind, sign -> problem) of one increment; raises NoVal."""
    probe = Ev(S, x=Fr(4), v=Fr(2), q=Fr(3), d=Fr(5), alpha0=Fr(7), loss_type=LOSS[0])
    probe(d)
    probe2 = Ev(S, x=Fr(4), v=Fr(2), q=Fr(3), d=Fr(5), alpha0=Fr(7), loss_type=LOSS[1])
    probe2(d)
    u = probe.used | probe2.used
    if "v" not in u or u - {"x", "v", "q", "d", "alpha0", "loss_type"}:
        return None, None
    val = lambda e: Ev(S, **e)(d)
    sq = False
    if "d" in u:
        kind, want = "product", lambda e: e["x"] * e["d"] * e["v"]
    elif "q" in u:
        kind, want = "gradient", lambda e: (e["x"] * (e["q"] - 1) - b_(e)) * e["v"]
    else:
        e0 = dict(x=Fr(4), q=Fr(3), d=Fr(5), alpha0=Fr(7), loss_type=LOSS[1])
        a, b, z = (val(dict(e0, v=Fr(k))) for k in (1, 2, -1))
        sq = a == z and a != 0
        if sq:
            kind, want = "matrix", lambda e: e["x"] * e["v"] * e["v"]
        else:
            kind, want = "right-hand side", lambda e: (e["x"] + b_(e)) * e["v"]

    def problem(sign):
        for e in grid(x=XS, v=VS, q=QS if "q" in u else (3,), d=DS if "d" in u else (5,), alpha0=AS, loss_type=LOSS):
            if val(e) != sign * want(e):
                keys = [k for k in ("x", "v", "q", "d", "alpha0", "loss_type") if k in u or k in ("alpha0", "loss_type")]
                return f"grows by {val(e)} where {sign * want(e)} is due (" + ", ".join(f"{k}={e[k]}" for k in keys) + ")"
        return None
    return kind, problem


def b_(e):
    return Fr(0) if e["loss_type"] == LOSS[0] else e["alpha0"]


def leaves(t):
    t = strip(t)
    return leaves(t.a[1]) + leaves(t.a[2]) if t.op == "phi" else [t]


def initial(ctx, S, q, name, init, loc, kind, I, d):
    """Sign of the Gram term in what the accumulation starts from."""
    sign = None
    for t in leaves(init):
        has = any(is_pow(x) for x in walk(t)) or any(x.op == "attr" and x.a[1] == "reg" for x in top(t)) or kind in ("gradient", "product") and any(x.op == "matmul" for x in top(t))
        if not has or kind == "matrix":
            continue
        try:
            def val(**e):
                return Ev(S, **dict(dict(none=True, reg=Fr(1), R=Fr(0), g=Fr(0), h=Fr(0), y=Fr(1)), **{k: Fr(v) for k, v in e.items()}))(t)
            s = val(g=1) - val()

            def fits(on):
                return all(val(g=g, R=r, reg=l, h=h, y=y) == s * g + on * (s or 1) * r * l * y + (h if s < 0 else 0)
                           for g in (0, 1, 3) for r in (0, 1, 5) for l in (0, 1, 7) for h in ((0, 2) if s < 0 else (0,)) for y in YS)
            ok = fits(1) and s in (0, 1, -1)
            if not ok and s in (1, -1) and fits(0):
                ok = later(I, S, d, s)
            ctx.ob("regularised", f"{q} {name}", ok, f"the regularisation does not enter {name} once with the sign of the Gram term", loc)
            sign = s or sign
        except NoVal:
            ctx.ob("regularised", f"{q} {name}", None, short(t, 100), loc)
    return sign


def later(I, S, d, s):
    """Where the finished sum is used: does the regularisation join it there?"""
    ts = [norm(strip(t)) for lp in I.all_loops for v in lp.mus.values() for t in v]
    ts += [norm(strip(e.val)) for e in I.effects if e.kind == "store" and "val" in e.d]
    nd = norm(sub(const(0), d))
    seen, found = set(), None
    for t in ts:
        for x in walk(t):
            if x.op != "lin" or x in seen:
                continue
            seen.add(x)
            if not any(y.op == "sumover" and norm(strip(y.a[0])) in (d, nd) for y, k in x.a[1]):
                continue
            try:
                val = lambda **e: Ev(S, **dict(dict(none=True, reg=Fr(1), R=Fr(0), g=Fr(0), h=Fr(0), y=Fr(1)), **{k: Fr(v) for k, v in e.items()}))(x)
                z = val()
                if all(val(R=r, reg=l, y=y) - z == s * r * l * y for r in (0, 1, 5) for l in (0, 1, 7) for y in YS):
                    return True
                found = False
            except NoVal:
                return None
    return found


def positions(S, d):
    """Weight, column and prediction of the same interaction?"""
    ks = {}
    for x in walk(d):
        if x.op == "idx" and strip(x.a[0]).op == "attr" and strip(x.a[0]).a[1] in ("data", "indices"):
            ks.setdefault(norm(strip(x.a[1])), strip(x.a[0]).a[1])
    return ks


def solver(ctx, N, c, f):
    I, st, v = N.run(f, c)
    ctx.saw(f.qual)
    q = f"{c.name}.{f.name}"
    roles = roles_of(I)
    n = 0
    grad = None
    for lp in I.all_loops:
        dom = lp.dom
        if dom is None or dom.op != "range" or not any(x.op == "attr" and x.a[1] == "indptr" for x in walk(dom)):
            continue
        S = Shape(dom)
        for h, (i, nx) in lp.mus.items():
            nx, hh = norm(strip(nx)), norm(strip(h))
            if not contains(nx, hh) or nx.op in ("store", "phi") or isinstance(h.a[2], tuple):
                continue
            d = norm(sub(nx, hh))
            if not contains_row(S, d):
                continue
            name = h.a[2] if isinstance(h.a[2], str) else short(h.a[2], 30)
            n += 1
            try:
                kind, problem = increment(S, d)
            except NoVal:
                ctx.ob("increment", f"{q} {name}", None, short(d, 120), lp.loc)
                continue
            if kind is None:
                ctx.ob("increment", f"{q} {name}", None, short(d, 120), lp.loc)
                continue
            init = norm(strip(i))
            sign = initial(ctx, S, q, name, init, lp.loc, kind, I, d)
            signs = [sign] if sign in (1, -1) else [1, -1]
            why = None
            for s in signs:
                why = problem(s)
                if why is None:
                    break
            ctx.ob("increment", f"{q} {name} ({kind})", why is None, f"{name} {why}", lp.loc)
            if kind == "gradient" and why is None:
                qs = {root(x.a[0]) for x in walk(d) if x.op == "idx" and S.at_entry(x.a[1]) and not S.row(x) and root(x.a[0]).op == "sym"}
                grad = (s, qs)
            ks = positions(S, d)
            ctx.ob("same-interaction", f"{q} {name}", True if len(ks) == 1 else None, "", lp.loc)
    rank = []
    ranked = [norm(strip(e.args[0])) for e in I.effects if e.kind == "call" and e.d.get("fn") is not None and e.args and pp(e.fn).endswith("rankUpdate")]
    step, diag = {}, 0
    for e in I.effects:
        S = Shape(None)
        if e.kind == "store" and "val" in e.d and "idx" in e.d and e.d["idx"] is not None:
            val, ix = norm(strip(e.val)), strip(e.idx)
            k = [norm(strip(x)) for x in ix.a[0]] if ix.op == "tuple" else []
            if contains_row(S, val) and any(contains(r, val) for r in ranked):
                judge(ctx, "rank-one", q, e.loc, S, val, grid(x=XS, v=VS), lambda z: z["x"] * z["v"] ** 2, sq=True)
                n += 1
            elif len(k) == 2 and (any(is_pow(x) for x in top(val)) or k[0] is k[1] and k[0].op == "elem"):
                ctx.ob("diagonal-place", q, k[0] is k[1] if all(x.op == "elem" for x in k) else None, "regularisation off the diagonal", e.loc)
                judge(ctx, "diagonal", q, e.loc, S, val, grid(y=YS, R=(1, 2, 5), reg=(0, 1, 3)), lambda z: z["y"] + z["reg"] * z["R"])
                n += 1
                diag += 1
            elif val.op == "lin":
                for x, k in val.a[1]:
                    if x.op == "div" or x.op == "call" and pp(x.a[0]).endswith("solve"):
                        step[x] = (k, e)
                    if x.op == "div":
                        judge(ctx, "diagonal", q, e.loc, S, x.a[1], grid(g=(0, 1, 4), h=(0, 2, 3), R=(1, 2, 5), reg=(0, 1, 3)), lambda z: z["g"] + z["h"] + z["reg"] * z["R"])
                        n += 1
        if e.kind == "call":
            fn = e.d.get("fn")
            s = pp(fn) if fn is not None else ""
            args = [norm(strip(x)) for x in e.args]
            if s.endswith("iop_") and "diagonal" in s and len(args) == 2:
                ok = args[0].op == "const" and args[0].a[0] == "+"
                ctx.ob("diagonal-sign", q, ok, f"the diagonal is changed with {short(args[0], 20)}", e.loc)
                judge(ctx, "diagonal", q, e.loc, S, args[1], grid(R=(1, 2, 5), reg=(0, 1, 3)), lambda z: z["reg"] * z["R"])
                n += 1
                diag += 1
            elif s.endswith("rankUpdate") and args:
                k = args[1] if len(args) > 1 else ONE
                row = args[0]
                while row.op == "T":
                    row = strip(row.a[0])
                if S.row(row):
                    judge(ctx, "rank-one", q, e.loc, S, k, grid(x=XS), lambda z: z["x"])
                    n += 1
                else:
                    ctx.ob("rank-one-scale", q, k.a[0] == 1 if is_num(k) else None, f"collected rows are added with weight {short(k, 20)}", e.loc)
                    rank.append((e, row))
            elif is_powcall(fn) and len(args) == 2:
                strength(ctx, q, e.loc, args, roles)
                n += 1
    if rank:
        inside = lambda e: any(l.dom is not None and any(y.op == "attr" and y.a[1] == "indptr" for y in walk(l.dom)) for l in e.loops)
        after = any(not inside(e) for e, r in rank)
        full = all(any(x.op in ("lt", "le") and any(y.op == "mu" for y in walk(x)) for p in e.path for x in walk(p if not isinstance(p, tuple) else p[0])) for e, r in rank)
        ctx.ob("flushed", q, True if after else False if full else None, "the rows collected last are never added to the matrix", rank[0][0].loc)
    if ranked and not diag and any(e.kind == "call" and e.d.get("fn") is not None and pp(e.fn).endswith("solve") for e in I.effects):
        ts = [t for e in I.effects if not (e.kind == "call" and is_powcall(e.d.get("fn"))) for t in [e.d.get("val"), e.d.get("fn"), e.d.get("obj")] + list(e.d.get("args") or ()) if t is not None]
        used = any(bare_pow(x) for t in ts for x in walk(norm(strip(t))))
        ctx.ob("diagonal", q, None if used else False, "the regularisation never enters the matrix", f.loc())
    if grad is not None and len(step) == 1:
        (d, (k, e)), = step.items()
        ctx.ob("descends", q, k == -grad[0], f"the step is taken {k} times along {-grad[0]} times the gradient", e.loc)
        upd = [x for x in I.effects if x.kind == "store" and "val" in x.d and x is not e and root(x.obj) in grad[1]]
        if not upd:
            ctx.ob("predictions", q, False, "the predictions of the row are not updated after its step", e.loc)
        for u in upd:
            t = norm(strip(u.val))
            S = Shape(None)
            rest = [(x, c_) for x, c_ in t.a[1] if x.op != "idx" or root(x) is not root(u.obj)] if t.op == "lin" else []
            ok = None
            if len(rest) == 1 and not rest[0][0].op == "phi":
                x, c_ = rest[0]
                fs = [strip(y) for y in (x.a[0] if x.op == "mul" else x.a[:2] if x.op == "matmul" else [x])]
                fs = [strip(y.a[0]) if y.op == "T" else y for y in fs]
                mine = [y for y in fs if y is d]
                rows = [y for y in fs if S.row(y)]
                if len(mine) == len(rows) == 1 and len(fs) == 2:
                    ok = c_ == k
                elif not contains(t, d):
                    ok = False
                elif all(is_num(y) or y is d or S.row(y) for y in fs):
                    ok = False
            ctx.ob("predictions", q, ok, f"the predictions change by {short(t, 100)} for a step of {k} times the solution", u.loc)
    conjugate(ctx, I, q)
    return n


def bare_pow(t):
    """The regularisation by itself, not as the weight of a vector."""
    return t.op == "mul" and any(is_pow(strip(x)) for x in t.a[0]) and all(is_pow(strip(x)) or strip(x).op == "attr" or is_num(strip(x)) for x in t.a[0])


def root(t):
    t = strip(t)
    while t.op in ("idx", "T", "mu", "store", "loopout"):
        t = strip(t.a[-1] if t.op == "mu" else t.a[1] if t.op == "loopout" else t.a[0])
    return t


class Vec:
    """Terms over vectors of two rationals."""

    def __init__(self, env):
        self.env = env

    def __call__(self, t):
        t = strip(t)
        if t in self.env:
            return self.env[t]
        if is_num(t):
            return Fr(t.a[0])
        if t.op == "lin":
            r = Fr(t.a[0])
            for x, k in t.a[1]:
                r = self.bin(r, self.bin(Fr(k), self(x), lambda a, b: a * b), lambda a, b: a + b)
            return r
        if t.op == "mul":
            r = Fr(1)
            for x in t.a[0]:
                r = self.bin(r, self(x), lambda a, b: a * b)
            return r
        if t.op == "T":
            return self(t.a[0])
        if t.op == "div":
            b = self(t.a[1])
            if isinstance(b, tuple) or b == 0:
                raise NoVal
            return self.bin(self(t.a[0]), b, lambda x, y: x / y)
        if t.op == "matmul":
            a, b = self(t.a[0]), self(t.a[1])
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                raise NoVal
            return sum(x * y for x, y in zip(a, b))
        if t.op == "call" and not t.a[1] and not isinstance(t.a[0], str) and t.a[0].op == "attr" and t.a[0].a[1] == "sum":
            a = self(t.a[0].a[0])
            return sum(a) if isinstance(a, tuple) else a
        raise NoVal

    def bin(self, a, b, f):
        if isinstance(a, tuple) or isinstance(b, tuple):
            a = a if isinstance(a, tuple) else (a, a)
            b = b if isinstance(b, tuple) else (b, b)
            return tuple(f(x, y) for x, y in zip(a, b))
        return f(a, b)


def conjugate(ctx, I, q):
    """The recurrences of conjugate gradients: x, r and p from r, p and A p."""
    S = Shape(None)
    for lp in I.all_loops:
        if lp.dom is None or lp.dom.op != "range" or any(x.op == "attr" and x.a[1] == "indptr" for x in walk(lp.dom)):
            continue
        mus = {norm(strip(h)): norm(strip(nx)) for h, (i, nx) in lp.mus.items() if isinstance(h.a[2], str)}
        init = {norm(strip(h)): norm(strip(i)) for h, (i, nx) in lp.mus.items() if isinstance(h.a[2], str)}
        prod = [h for h, nx in mus.items() if not contains(nx, h) and any(x.op == "matmul" and any(S.gram(y) for y in x.a[:2]) for x in top(nx))]
        if len(prod) != 1:
            continue
        A = mus[prod[0]]
        rest = [h for h in mus if h is not prod[0]]
        ps = [h for h in rest if contains(A, h)]
        new = {h: mus[h] for h in rest}
        if not ps or any(x.op == "mu" and x.a[0] is lp.dom and x not in ps for x in walk(A)):
            continue
        xs = [h for h in rest if not any(contains(new[g], h) for g in rest if g is not h) and h not in ps]
        rs = [h for h in rest if h not in ps and h not in xs]
        if not (len(ps) == len(xs) == len(rs) == 1):
            ctx.ob("recurrence", q, None, f"{len(ps)} directions, {len(rs)} residuals, {len(xs)} solutions", lp.loc)
            continue
        x, r, p = xs[0], rs[0], ps[0]
        same = True if init[p] is init[r] else None
        if not same:
            try:
                ev = lambda t, e: Ev(S, none=True, **e)(t)
                if any(ev(init[p], e) != ev(init[r], e) for e in grid(g=(0, 1, 3), h=(0, 2), R=(0, 1), reg=(1, 5), y=(1, 2))):
                    same = False
            except NoVal:
                pass
        ctx.ob("first-direction", q, same, "the first direction is not the first residual", lp.loc)
        parts = [y for y in top(A) if y.op in ("matmul", "sumover")]
        pws = [y for y in top(A) if is_pow(y)]
        res = {"solution": x, "residual": r, "direction": p}
        vals = [((Fr(1), Fr(-2)), (Fr(2), Fr(1)), (Fr(3), Fr(5)), (Fr(4), Fr(7))), ((Fr(2), Fr(3)), (Fr(-1), Fr(4)), (Fr(1), Fr(2)), (Fr(0), Fr(3)))]
        for nm, h in res.items():
            ok, why = True, ""
            try:
                for rv, pv, av, xv in vals:
                    env = {x: xv, r: rv, p: pv}
                    env.update({y: tuple(Fr(w + i_) for w in z) for i_, (y, z) in enumerate(zip(parts, [av] * len(parts)))})
                    env.update({y: Fr(2) for y in pws})
                    env.update({y: Fr(3) for y in walk(A) if y.op == "attr" and y.a[1] == "reg"})
                    V = Vec(env)
                    av = V(A)
                    rr = sum(a * a for a in rv)
                    al = rr / sum(a * b for a, b in zip(pv, av))
                    r1 = tuple(a - al * b for a, b in zip(rv, av))
                    want = {"solution": tuple(a + al * b for a, b in zip(xv, pv)), "residual": r1,
                            "direction": tuple(a + sum(c * c for c in r1) / rr * b for a, b in zip(r1, pv))}[nm]
                    got = V(new[h])
                    if got != want:
                        ok, why = False, f"the next {nm} is ({', '.join(map(str, got)) if isinstance(got, tuple) else got}) where ({', '.join(map(str, want))}) is due"
            except NoVal:
                ok, why = None, short(new[h], 120)
            ctx.ob("recurrence", f"{q} {nm}", ok, why, lp.loc)


def top(t):
    """Factors and summands, not what is inside indices and loops."""
    t = strip(t)
    yield t
    if t.op == "lin":
        for x, k in t.a[1]:
            yield from top(x)
    elif t.op == "mul":
        for x in t.a[0]:
            yield from top(x)
    elif t.op == "phi":
        for x in t.a[1:]:
            yield from top(x)


def judge(ctx, rule, q, loc, S, t, envs, want, sq=False):
    bad, und = None, False
    for e in envs:
        try:
            g = Ev(S, **dict(dict(alpha0=Fr(3), loss_type=LOSS[1]), **e))(t)
        except NoVal:
            und = True
            continue
        if (g * g if sq else g) != want(e):
            bad = bad or f"{g * g if sq else g} where {want(e)} is due (" + ", ".join(f"{k}={x}" for k, x in e.items()) + ")"
    ctx.ob(rule, q, False if bad else None if und else True, bad or short(t, 120), loc)


def is_powcall(fn):
    return fn is not None and pp(fn) in ("math.pow", "pow")


def strength(ctx, q, loc, args, roles):
    """reg (alpha0 m + n) ** nu: the base of the power."""
    base, ex = args

    class B(Ev):
        def __call__(self, t):
            t = strip(t)
            if t.op == "dim":
                r = t.a[0]
                while r.op in ("idx", "T", "mu", "store"):
                    r = r.a[0] if r.op != "mu" else r.a[-1]
                return self.env["m"] if r.op == "sym" and "other" in roles.get(r, ()) else self.env["t"] if r.op == "sym" and "target" in roles.get(r, ()) else self.g("?")
            if t.op == "sumover" and is_const(t.a[0], 1) and not t.a[2]:
                d = t.a[1]
                return self(d.a[1]) - self(d.a[0])
            if t.op == "sumover" and not t.a[2] and strip(t.a[0]).op == "idx" and strip(strip(t.a[0]).a[0]).op == "attr" and strip(strip(t.a[0]).a[0]).a[1] == "data":
                return 3 * self.env["n"] + 1
            if t.op == "idx" and strip(t.a[0]).op == "attr" and strip(t.a[0]).a[1] == "indptr":
                k = norm(strip(t.a[1]))
                return Fr(10) + (self.env["n"] if k.op == "lin" and k.a[0] == 1 else 0)
            return super().__call__(t)
    ok, why = True, ""
    try:
        if not (ex.op == "attr" and ex.a[1] == "nu"):
            ok = False if ex.op == "attr" and ex.a[1] in ("alpha0", "reg") or ex.op == "const" else None
            why = f"the exponent is {short(ex, 40)}"
        else:
            for e in grid(alpha0=AS, m=(2, 5), n=(0, 1, 4), t=(3, 11)):
                g = B(Shape(None), **e)(base)
                if g != e["alpha0"] * e["m"] + e["n"]:
                    ok, why = False, f"the regularisation is scaled by ({g})^nu where ({e['alpha0'] * e['m'] + e['n']})^nu is due (alpha0={e['alpha0']}, {e['m']} rows on the other side, {e['n']} interactions)"
                    break
    except NoVal:
        ok, why = None, short(base, 100)
    ctx.ob("strength", q, ok, why, loc)


def contains_row(S, t):
    return any(x.op == "idx" and S.row(x) for x in walk(t))


def roles_of(I):
    """Which parameter is the side solved for, which the other side."""
    out = {}

    S = Shape(None)
    for e in I.effects:
        for k in ("val", "obj", "idx"):
            t = e.d.get(k)
            if t is None:
                continue
            for x in walk(t):
                if x.op == "idx" and S.row(x):
                    out.setdefault(root(x), set()).add("other")
        if e.kind == "store" and "obj" in e.d:
            r = root(e.obj)
            if r.op == "sym":
                out.setdefault(r, set()).add("target")
    return out


def gram(ctx, N, c, f):
    I, st, v = N.run(f, c)
    ctx.saw(f.qual)
    q = f"{c.name}.{f.name}"
    p = norm(field(I, st, sym("self"), "P"))

    class G(Ev):
        def __call__(self, t):
            if t.op == "new":
                zs = [z for k, z in st.heap.items() if k[0] == "c" and (k[1] is t or norm(k[1]) is t)]
                if zs and all(strip(z).op == "zeros" for z in zs):
                    return Fr(0)
                raise NoVal
            if t.op == "zeros":
                return Fr(0)
            if t.op == "matmul" and norm(strip(t.a[0])) is norm(mk("T", strip(t.a[1]))) or t.op == "matmul" and norm(strip(t.a[1])) is norm(mk("T", strip(t.a[0]))):
                return self.g("m")
            if t.op == "loopout" and t.a[0].op != "range" and t.a[2].op != "loopout":
                return self.g("h")
            return super().__call__(t)
    try:
        bad = None
        for e in grid(alpha0=AS, h=(0, 1, 5), g=(1, 7), state=(0, 1)):
            g = G(Shape(None), **e)(p)
            if g != e["alpha0"] * e["h"]:
                bad = bad or f"{g} where {e['alpha0'] * e['h']} is due (alpha0={e['alpha0']}, sum of products {e['h']}, left from before {e['g']})"
        ctx.ob("gram", q, bad is None, bad or "", f.loc())
    except NoVal:
        ctx.ob("gram", q, None, short(p, 120), f.loc())
    n, single = 0, None
    for lp in I.all_loops:
        for h, (i, nx) in lp.mus.items():
            nx, hh = norm(strip(nx)), norm(strip(h))
            if nx.op in ("store", "append"):
                continue
            if not contains(nx, hh):
                single = single or (lp.loc if lp.dom is None and nx.op == "matmul" else None)
                continue
            d = norm(sub(nx, hh))
            if d.op != "matmul" and not any(x.op == "matmul" for x in top(d)):
                continue
            n += 1
            try:
                g = {m: G(Shape(None), m=Fr(m), alpha0=Fr(3))(d) for m in (1, 4)}
                ctx.ob("gram-block", q, g == {1: 1, 4: 4}, f"a block enters {g[1]} times", lp.loc)
            except NoVal:
                left, right = next((x.a for x in top(d) if x.op == "matmul"))[:2]
                ctx.ob("gram-block", q, None, short(d, 120), lp.loc)
    ctx.ob("gram-found", q, True if n else False if single else None, "only the last block of rows enters the Gram matrix" if single else f"{n} block products", single)


def check(ctx):
    N = ctx.native()
    cs = [x for x in N.mods["_ials_core"].classes.values() if "compute_reg" in x.methods or x.name == "Solver"]
    ctx.anchor(bool(cs), "Solver")
    for c in cs:
        k = 0
        for f in c.methods.values():
            src = ast.dump(f.node)
            if f.name == "prepare_p":
                ctx.guard(gram, ctx, N, c, f)
            elif "fetch_add" in src or "claim" in src:
                k += ctx.guard(solver, ctx, N, c, f) or 0
        ctx.ob("found", c.name, True if k > 10 else None, f"{k} accumulations")
