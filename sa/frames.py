"""Abstract semantics of data-frame pipelines: which rows of the input survive, which value each row carries, and which ID list it is coded against.

A frame is the input frame restricted by a row predicate; a series is one value per surviving row; a list is an ordered set of IDs.
Everything is expressed over the rows of the caller's frame, so two expressions that select the same rows compare equal
however they were written.  Anything outside this vocabulary raises Unknown (the obligation is then undecided)."""
from .common import *
from .norm import norm, eqv


class Unknown(AnalysisError):
    pass


class Overlap(Unknown):
    """Rows that are certainly taken twice."""


TRUE_P = frozenset([frozenset()])
FALSE_P = frozenset()


def neg_atom(a):
    return a[1] if a[0] == "not" else ("not", a)


def p_and(p, q):
    out = set()
    for x in p:
        for y in q:
            z = x | y
            if any(neg_atom(a) in z for a in z):
                continue
            out.add(frozenset(z))
    return simplify(out)


def p_or(p, q):
    return simplify(set(p) | set(q))


def p_not(p):
    r = TRUE_P
    for c in p:
        r = p_and(r, frozenset(frozenset([neg_atom(a)]) for a in c))
    return r


def simplify(cs):
    out = set(cs)
    for a in list(out):
        for b in list(out):
            if a is not b and a in out and b in out and b > a:
                out.discard(b)
    return frozenset(out)


class Frame:
    def __init__(self, base, pred=TRUE_P, cols=(), sel=None, order=(), dedup=None):
        self.base, self.pred, self.cols, self.sel, self.order, self.dedup = base, pred, tuple(cols), sel, tuple(order), dedup

    def but(self, **k):
        d = dict(base=self.base, pred=self.pred, cols=self.cols, sel=self.sel, order=self.order, dedup=self.dedup)
        d.update(k)
        return Frame(**d)

    def col(self, c):
        for k, v in reversed(self.cols):
            if k is c:
                return v
            if not distinct(k, c):
                raise Unknown("column aliasing")
        if self.sel is not None and c not in self.sel:
            raise Unknown("column not selected: " + short(c))
        return ("col", c)

    def rows(self):
        return (self.base, self.pred, self.dedup)

    def key(self):
        return ("frame",) + self.rows()


class Misaligned(Unknown):
    """rows of one order addressed by positions of another"""


def positional(t):
    return any(x.op in ("nzidx", "nonzero") or (x.op == "attr" and x.a[1] in ("values", "to_numpy", "array")) or
               (x.op == "ext" and isinstance(x.a[0], str) and x.a[0].startswith("numpy.")) for x in walk(t))


def ordered(f):
    return "sorted by " + short(f.order[0][0], 60) if f.order else "in the caller's order"


def distinct(a, b):
    if a is b:
        return False
    if a.op == "const" and b.op == "const":
        return True
    return any(x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].startswith("uuid.") for y in (a, b) for x in walk(y))


class Frames:
    """bases: the terms that denote caller frames; cols: terms that denote column names."""

    def __init__(self, bases, cols, nonneg=()):
        self.bases, self.colnames, self.nonneg_syms = list(bases), list(cols), set(nonneg)
        self.memo = {}

    # ------------------------------------------------------------------ helpers
    def meth(self, t):
        if t.op == "call" and t.a[0].op == "attr":
            return t.a[0].a[1], t.a[0].a[0], t.a[1], dict(t.a[2])
        if t.op == "call" and t.a[0].op == "ext":
            return t.a[0].a[0], None, t.a[1], dict(t.a[2])
        return None, None, (), {}

    def iscol(self, t):
        return t in self.colnames or (t.op == "const" and isinstance(t.a[0], str)) or (t.op in ("fstr", "tostr", "call") and any(
            x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].startswith("uuid.") for x in walk(t)))

    # ------------------------------------------------------------------ frames
    def frame(self, t):
        k = ("f", t)
        if k not in self.memo:
            try:
                self.memo[k] = self._frame(t)
            except Unknown as e:
                self.memo[k] = e
        r = self.memo[k]
        if isinstance(r, Unknown):
            raise r
        return r

    def is_frame(self, t):
        try:
            self.frame(t)
            return True
        except Overlap:
            raise
        except Unknown:
            return False

    def _frame(self, t):
        if t in self.bases:
            return Frame(t)
        m, o, a, kw = self.meth(t)
        if m in ("copy", "reset_index", "sort_index") and o is not None:
            return self.frame(o)
        if m == "sort_values" and o is not None:
            by = a[0] if a else kw.get("by")
            return self.frame(o).but(order=((by, kw.get("ascending", TRUE)),))
        if m in ("head", "tail", "sample", "dropna", "nlargest", "nsmallest", "truncate") and o is not None:
            f = self.frame(o)
            return f.but(pred=p_and(f.pred, frozenset([frozenset([("cut", m, a, tuple(sorted(kw.items())))])])))
        if m == "drop_duplicates" and o is not None:
            f = self.frame(o)
            sub = a[0] if a else kw.get("subset")
            if sub is None or sub.op not in ("list", "tuple") or kw.get("keep") is not None:
                raise Unknown("drop_duplicates")
            return f.but(dedup=frozenset(sub.a[0]))
        if m == "assign" and o is not None and not a:
            f = self.frame(o)
            for c, v in kw.items():
                f = self.assign(f, const(c), v)
            return f
        if m == "drop" and o is not None:
            f = self.frame(o)
            cs = kw.get("columns")
            cs = cs.a[0] if cs is not None and cs.op in ("list", "tuple") else (cs,)
            if None in cs or not all(self.iscol(c) for c in cs):
                raise Unknown("drop")
            return f
        if m == "pandas.concat" and a and a[0].op in ("list", "tuple"):
            fs = [self.frame(x) for x in a[0].a[0]]
            if len({(f.base, f.cols, f.dedup) for f in fs}) != 1:
                raise Unknown("concat of different frames")
            p = fs[0].pred
            for f in fs[1:]:
                both = self.tidy(p_and(p, f.pred))
                if both != FALSE_P:
                    raise (Overlap if any(self.inhabited(c) for c in both) else Unknown)("concat of overlapping frames: rows of " + str(next((a for c in both for a in c if a[0] == "in"), ""))[:200])
                p = p_or(p, f.pred)
            return fs[0].but(pred=p, order=())
        if t.op == "store":
            return self.assign(self.frame(t.a[0]), t.a[1], t.a[2])
        if t.op == "idx":
            o, i = t.a
            if o.op == "attr" and o.a[1] == "loc":
                if i.op == "tuple" and len(i.a[0]) == 2:
                    f = self.frame(o.a[0])
                    f = f if is_full(i.a[0][0]) else f.but(pred=p_and(f.pred, self.mask(i.a[0][0], f)))
                    if i.a[0][1].op == "list":
                        return f.but(sel=frozenset(i.a[0][1].a[0]))
                    raise Unknown("loc")
                o = o.a[0]
                if i.op == "list" and all(self.iscol(x) for x in i.a[0]):
                    raise Unknown("loc rows")
            if o.op == "attr" and o.a[1] == "iloc":
                f = self.frame(o.a[0])
                return f.but(pred=p_and(f.pred, self.mask(i, f, mk("nonzero", i))))
            f = self.frame(o)
            if i.op in ("list", "tuple") and all(self.iscol(x) for x in i.a[0]):
                return f.but(sel=frozenset(i.a[0]))
            return f.but(pred=p_and(f.pred, self.mask(i, f)))
        raise Unknown("frame " + short(t, 200))

    def assign(self, f, c, v):
        if not self.iscol(c):
            raise Unknown("assigned column " + short(c))
        if v.op == "const":
            return f.but(cols=f.cols + ((c, ("const", v)),))
        g, vk = self.series(v, f)
        if g.rows() != f.rows():
            raise Unknown("assigned series of other rows")
        return f.but(cols=f.cols + ((c, vk),), sel=None if f.sel is None else f.sel | {c})

    def disjoint(self, p, q):
        return self.tidy(p_and(p, q)) == FALSE_P

    def inhabited(self, c):
        """Rows of one piece of users, outside other pieces that are disjoint from it."""
        pos = [a for a in c if a[0] != "not"]
        if len(pos) != 1 or pos[0][0] != "in" or pos[0][2][0] == "empty":
            return False
        for a in c:
            if a[0] != "not":
                continue
            n = a[1]
            try:
                if n[0] != "in" or n[1] != pos[0][1] or not self.pieces_disjoint(pos[0][2], n[2]):
                    return False
            except Unknown:
                return False
        return True

    def tidy(self, p):
        """Drop conjunctions that contradict the piece structure of their ID lists."""
        out = set()
        for c in p:
            ins = [a for a in c if a[0] == "in"]
            outs = [a[1] for a in c if a[0] == "not" and a[1][0] == "in"]
            bad = False
            for a in ins:
                for b in ins:
                    if a is not b and a[1] == b[1] and self.pieces_disjoint(a[2], b[2]):
                        bad = True
                for b in outs:
                    if a[1] == b[1] and self.subset(a[2], b[2]):
                        bad = True
            if not bad:
                out.add(c)
        return simplify(out)

    # ------------------------------------------------------------------ lists of IDs
    def pieces_disjoint(self, x, y):
        if x[0] == "empty" or y[0] == "empty":
            return True
        bx, lx, hx = self.piece(x)
        by, ly, hy = self.piece(y)
        if bx != by:
            return False
        return (hx is not None and self.leq(hx, ly)) or (hy is not None and self.leq(hy, lx))

    def subset(self, x, y):
        if x[0] == "empty" or x == y:
            return True
        bx, lx, hx = self.piece(x)
        by, ly, hy = self.piece(y)
        return bx == by and self.leq(ly, lx) and (hy is None or (hx is not None and self.leq(hx, hy)))

    def piece(self, x):
        return (x[1], x[2], x[3]) if x[0] == "piece" else (x, ZERO, None)

    def leq(self, a, b):
        """a <= b for every value of nonnegative quantities."""
        d = norm(sub(b, a))
        if is_num(d):
            return d.a[0] >= 0
        c, parts = lin_parts(d)
        return c >= 0 and all(k >= 0 and self.nonneg(t) for t, k in parts.items())

    def nonneg(self, t):
        if t.op == "const":
            return isinstance(t.a[0], (int, float)) and t.a[0] >= 0
        if t in self.nonneg_syms or t.op in ("len", "dim"):
            return True
        if t.op in ("toint", "floor", "ceil"):
            return self.nonneg(t.a[0])
        if t.op == "mul":
            return all(self.nonneg(x) for x in t.a[0])
        if t.op == "div":
            return self.nonneg(t.a[0]) and self.nonneg(t.a[1])
        if t.op == "phi":
            return self.nonneg(t.a[1]) and self.nonneg(t.a[2])
        if t.op == "lin":
            c, parts = lin_parts(t)
            return c >= 0 and all(k >= 0 and self.nonneg(x) for x, k in parts.items())
        return False

    def lst(self, t):
        """An ID list: ("uniq", rows, value) | ("piece", base, lo, hi) | ("empty",)"""
        if t.op in ("list", "tuple") and not t.a[0]:
            return ("empty",)
        if t.op == "zeros" and t.a[0].op == "tuple" and t.a[0].a[0] == (ZERO,):
            return ("empty",)
        m, o, a, kw = self.meth(t)
        if m in ("unique", "drop_duplicates") and o is not None and not a:
            return self.uniq(o)
        if m in ("tolist", "to_list", "copy", "to_numpy") and o is not None:
            return self.lst(o)
        if m in ("permutation",) and o is not None and a:
            return self.lst(a[0])
        if m in ("numpy.random.permutation", "builtins.sorted", "builtins.list", "numpy.sort", "pandas.Index", "numpy.array") and a:
            return self.lst(a[0])
        if m in ("numpy.unique", "pandas.unique") and a and not kw:
            return self.uniq(a[0])
        if m in ("builtins.dict.fromkeys", "builtins.set") and a:
            return self.uniq(a[0])
        if m == "pandas.Categorical" and False:
            return None
        if t.op == "set" and len(t.a) == 1 and isinstance(t.a[0], T):
            return self.uniq(t.a[0])
        if t.op == "attr" and t.a[1] in ("categories",):
            return self.categorical(t.a[0])[2]
        if t.op == "attr" and t.a[1] == "values":
            return self.lst(t.a[0])
        if t.op == "idx" and t.a[1].op == "slice":
            b = self.lst(t.a[0])
            lo, hi, step = t.a[1].a
            if step is not NONE and not is_const(step, 1):
                raise Unknown("stepped slice")
            return self.cut(b, lo, hi)
        if t.op == "idx" and is_const(t.a[1], 1):
            return self.factorized(t.a[0])[2]
        if t.op == "idx" and is_const(t.a[1], 0):
            m, o, a, kw = self.meth(t.a[0])
            if m == "numpy.unique" and kw and a and all(v is TRUE or v is FALSE for v in kw.values()):
                return self.uniq(a[0])
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.set",):
            return self.uniq(t.a[1][0])
        raise Unknown("list " + short(t, 200))

    def uniq(self, s):
        g, vk = self.series(s)
        return self.mkuniq(g, vk)

    def mkuniq(self, g, vk):
        """Distinct values of a column over some rows.  When the rows are all rows of the members of a list piece, it is that piece."""
        if g.pred == FALSE_P:
            return ("empty",)
        if len(g.pred) == 1:
            (c,) = g.pred
            if len(c) == 1:
                (a,) = c
                if a[0] == "in" and a[1] == vk:
                    return a[2]
        pred = g.pred
        if g.dedup is not None and not (vk[0] == "col" and vk[1] in g.dedup):
            raise Unknown("distinct values after dropping duplicates")
        base = ("uniq", g.base, pred, vk)
        return ("piece", base, ZERO, None)

    def cut(self, b, lo, hi):
        if b[0] == "empty":
            return b
        base, l0, h0 = self.piece(b)
        l = l0 if lo is NONE else norm(add(l0, lo))
        if hi is NONE:
            h = h0
        else:
            if hi.op == "const" and hi.a[0] < 0:
                raise Unknown("negative bound")
            h = norm(add(l0, hi))
            if h0 is not None and not self.leq(h, h0):
                h = h0 if self.leq(h0, h) else norm(min_(h, h0))
        if lo is not NONE and lo.op == "const" and lo.a[0] < 0:
            raise Unknown("negative bound")
        return ("piece", base, l, h)

    def categorical(self, t):
        """-> (frame, value, list)"""
        m, o, a, kw = self.meth(t)
        if m == "astype" and o is not None:
            raise Unknown("astype category")
        if m != "pandas.Categorical" or not a:
            raise Unknown("categorical " + short(t, 100))
        g, vk = self.series(a[0])
        L = kw.get("categories", a[1] if len(a) > 1 else NONE)
        return g, vk, (self.mkuniq(g, vk) if L is NONE else self.lst(L))

    def factorized(self, t):
        m, o, a, kw = self.meth(t)
        if m == "factorize" and o is not None:
            g, vk = self.series(o)
        elif m == "pandas.factorize" and a:
            g, vk = self.series(a[0])
        else:
            raise Unknown("factorize " + short(t, 100))
        return g, vk, self.mkuniq(g, vk)

    # ------------------------------------------------------------------ series
    def series(self, t, ctxf=None):
        """-> (Frame, value-kind)"""
        m, o, a, kw = self.meth(t)
        if t.op == "attr" and t.a[1] in ("values", "array"):
            return self.series(t.a[0], ctxf)
        if m in ("to_numpy", "copy", "tolist", "to_list", "astype", "reset_index") and o is not None:
            return self.series(o, ctxf)
        if m in ("numpy.array", "numpy.asarray", "builtins.list", "pandas.Series") and a:
            return self.series(a[0], ctxf)
        if t.op == "attr" and t.a[1] == "codes":
            g, vk, L = self.categorical(t.a[0])
            return g, ("code", vk, L)
        if m == "numpy.ones" and a:
            return self.counted(a[0]), ("one",)
        if t.op == "full" or (m == "numpy.full" and len(a) > 1 and is_const(a[1])):
            v = a[1].a[0]
            return self.counted(a[0]), ("one",) if v in (1, 1.0) else ("const", a[1])
        if m == "cumcount" and o is not None and self.meth(o)[0] == "groupby":
            _, fo, ga, gk = self.meth(o)
            f = self.frame(fo)
            by = ga[0] if ga else gk.get("by")
            if by.op in ("list", "tuple") and len(by.a[0]) == 1:
                by = by.a[0][0]
            asc = kw.get("ascending", a[0] if a else TRUE)
            if not self.iscol(by) or asc not in (TRUE, FALSE) or set(gk) - {"by", "sort"}:
                raise Unknown("cumcount")
            return f, ("rank", f.col(by), self.ordering(f, by), asc is TRUE)
        if m == "reindex" and o is not None and self.meth(o)[0] == "value_counts" and (a or "index" in kw):
            g, vk = self.series(self.meth(o)[1])
            h, wk = self.series(a[0] if a else kw["index"])
            if vk != wk:
                raise Unknown("counts of another column")
            return h, ("count", vk, g.rows())
        if m == "map" and o is not None and a:
            h, wk = self.series(o)
            mm, oo, _, _ = self.meth(a[0])
            if mm == "value_counts" and oo is not None:
                g, vk = self.series(oo)
                if vk == wk:
                    return h, ("count", vk, g.rows())
            if mm in ("size",) and self.meth(oo)[0] == "groupby":
                _, fo, ga, gk = self.meth(oo)
                f = self.frame(fo)
                if self.iscol(ga[0]) and f.col(ga[0]) == wk:
                    return h, ("count", wk, f.rows())
            raise Unknown("map")
        if m == "transform" and o is not None and a and a[0].op == "const" and a[0].a[0] in ("size", "count"):
            go = o.a[0] if o.op == "idx" else o
            mm, fo, ga, gk = self.meth(go)
            if mm == "groupby" and ga and self.iscol(ga[0]):
                f = self.frame(fo)
                return f, ("count", f.col(ga[0]), f.rows())
        if m in ("numpy.floor", "numpy.ceil") and a:
            g, vk = self.series(a[0])
            return g, (m[6:], vk)
        if t.op == "mul":
            ss, ks = [], []
            for x in t.a[0]:
                try:
                    ss.append(self.series(x))
                except Unknown:
                    ks.append(x)
            if len(ss) == 1:
                return ss[0][0], ("times", ss[0][1], tuple(sorted(ks, key=key)))
        if t.op == "idx":
            o, i = t.a
            if is_const(i, 0) and self.meth(o)[0] in ("factorize", "pandas.factorize"):
                g, vk, L = self.factorized(o)
                return g, ("code", vk, L)
            if is_const(i, 1) and self.meth(o)[0] == "numpy.unique":
                mm, _, aa, kk = self.meth(o)
                if set(kk) == {"return_inverse"} and kk["return_inverse"] is TRUE:
                    g, vk = self.series(aa[0])
                    return g, ("code", vk, self.mkuniq(g, vk))
            if self.iscol(i) and self.is_frame(o):
                f = self.frame(o)
                return f, f.col(i)
            if o.op == "attr" and o.a[1] == "loc" and i.op == "tuple" and len(i.a[0]) == 2 and self.iscol(i.a[0][1]):
                f = self.frame(o.a[0])
                r = i.a[0][0]
                if not is_full(r):
                    f = f.but(pred=p_and(f.pred, self.mask(r, f)))
                return f, f.col(i.a[0][1])
            if o.op == "attr" and o.a[1] in ("iloc", "loc"):
                o = o.a[0]
            g, vk = self.series(o, ctxf)
            return g.but(pred=p_and(g.pred, self.mask(i, g))), vk
        if t.op == "attr" and self.is_frame(t.a[0]):
            f = self.frame(t.a[0])
            return f, f.col(const(t.a[1]))
        if t.op == "store":
            # marker array: zeros over the rows of a frame, set to one at caller-given rows
            z, i, v = t.a
            g, zk = self.series(z, ctxf)
            z0 = {"one": 1, "const": zk[1].a[0] if zk[0] == "const" else None}.get(zk[0])
            if isinstance(z0, (int, float, bool)) and is_const(v) and isinstance(v.a[0], (int, float, bool)):
                return g, ("flag", i, z0, v.a[0])
        if t.op == "zeros" and t.a[0].op == "tuple" and len(t.a[0].a[0]) == 1:
            return self.counted(t.a[0].a[0][0]), ("const", ZERO)
        raise Unknown("series " + short(t, 200))

    def ordering(self, f, by):
        """Columns the rows are sorted by within one group of `by`."""
        if not f.order:
            return ()
        (cols, asc), = f.order
        cs = cols.a[0] if cols.op in ("list", "tuple") else (cols,)
        if asc.op in ("list", "tuple"):
            ds = asc.a[0]
        else:
            ds = (asc,) * len(cs)
        return tuple((f.col(c), d is TRUE) for c, d in zip(cs, ds) if c is not by)

    def counted(self, n):
        """The frame whose number of rows n denotes."""
        if n.op == "tuple" and len(n.a[0]) == 1:
            n = n.a[0][0]
        if n.op in ("dim", "len"):
            if n.op == "dim" and not (n.a[1] is ZERO or n.a[1] == 0):
                raise Unknown("count")
            x = n.a[0]
            if x.op == "nzidx":
                g, p = self.maskf(x.a[0])
                return g.but(pred=p_and(g.pred, p))
            if x.op == "idx" and x.a[0].op == "nonzero":
                g, p = self.maskf(x.a[0].a[0])
                return g.but(pred=p_and(g.pred, p))
            if self.is_frame(x):
                return self.frame(x)
            return self.series(x)[0]
        raise Unknown("count " + short(n, 100))

    # ------------------------------------------------------------------ masks
    def mask(self, i, f, i0=None):
        i0 = i if i0 is None else i0
        if i.op == "nzidx" and (i.a[1] is ZERO or i.a[1] == 0):
            return self.mask(i.a[0], f, i0)
        if i.op == "nonzero":
            return self.mask(i.a[0], f, i0)
        if i.op == "tuple" and len(i.a[0]) == 1:
            return self.mask(i.a[0][0], f, i0)
        if i.op == "idx" and i.a[0].op == "nonzero" and is_const(i.a[1], 0):
            return self.mask(i.a[0].a[0], f, i0)
        if i.op == "slice" and not is_full(i):
            return frozenset([frozenset([("cut", "slice", i)])])
        if is_full(i):
            return TRUE_P
        m, o, a, kw = self.meth(i)
        if m == "numpy.flatnonzero" and a:
            return self.mask(a[0], f, i0)
        g, p = self.maskf(i)
        if g.rows() != f.rows():
            raise Unknown("mask of other rows: " + short(i, 150))
        if g.order != f.order and positional(i0):
            raise Misaligned(f"rows are picked by position from a frame {ordered(f)} by a mask computed on it {ordered(g)}")
        return p

    def maskf(self, i):
        """-> (frame the mask ranges over, predicate)"""
        if i.op == "attr" and i.a[1] == "values":
            return self.maskf(i.a[0])
        m, o, a, kw = self.meth(i)
        if m in ("to_numpy", "astype", "copy") and o is not None:
            return self.maskf(o)
        if m == "isin" and o is not None and a:
            g, vk = self.series(o)
            return g, self.member(g, vk, a[0])
        if m in ("numpy.isin", "numpy.in1d") and len(a) >= 2 and set(kw) <= {"invert"}:
            g, vk = self.series(a[0])
            p = self.member(g, vk, a[1])
            return g, (p_not(p) if kw.get("invert") is TRUE else p)
        if m in ("numpy.logical_not",) and a:
            g, p = self.maskf(a[0])
            return g, p_not(p)
        if i.op in ("invert", "not"):
            g, p = self.maskf(i.a[0])
            return g, p_not(p)
        if i.op == "binop" and i.a[0] in ("BitAnd", "BitOr"):
            (g, p), (h, q) = self.maskf(i.a[1]), self.maskf(i.a[2])
            if g.rows() != h.rows():
                raise Unknown("combined masks of different rows")
            return g, (p_and(p, q) if i.a[0] == "BitAnd" else p_or(p, q))
        if i.op in ("and", "or") or m in ("numpy.logical_and", "numpy.logical_or"):
            xs = (i.a[0] if isinstance(i.a[0], tuple) else i.a) if i.op != "call" else a
            gs = [self.maskf(x) for x in xs]
            if len({g.rows() for g, _ in gs}) != 1:
                raise Unknown("combined masks of different rows")
            p = gs[0][1]
            for _, q in gs[1:]:
                p = p_and(p, q) if "and" in (i.op if i.op != "call" else m) else p_or(p, q)
            return gs[0][0], p
        if i.op == "truth":
            return self.maskf(i.a[0])
        if i.op in ("lt", "le", "eq"):
            x, y = i.a
            if x.op == "const" and y.op != "const":
                c, s, sw = x.a[0], y, True
            elif y.op == "const":
                c, s, sw = y.a[0], x, False
            else:
                try:
                    g, vk = self.series(x)
                except Unknown:
                    raise Unknown("comparison " + short(i, 150))
                y0 = y
                try:
                    h, yk = self.series(y)
                    if h.rows() != g.rows():
                        raise AnalysisError("comparison of different rows")
                    y = yk
                except Unknown:
                    h = g
                if h.order != g.order and (positional(x) or positional(y0)):
                    raise Misaligned(f"compares position by position rows of a frame {ordered(g)} with rows of it {ordered(h)}")
                return g, frozenset([frozenset([("cmp", i.op, vk, y)])])
            g, vk = self.series(s)
            f = {"lt": lambda u, w: u < w, "le": lambda u, w: u <= w, "eq": lambda u, w: u == w}[i.op]
            test = (lambda v: f(c, v)) if sw else (lambda v: f(v, c))
            return g, self.binary(g, vk, test, (i.op, sw, c))
        if i.op in ("idx", "store") or i.op == "call":
            g, vk = self.series(i)
            return g, self.binary(g, vk, bool, ("true",))
        raise Unknown("mask " + short(i, 150))

    def binary(self, g, vk, test, tag):
        if vk[0] == "flag":
            t0, t1 = test(vk[2]), test(vk[3])
            if t0 == t1:
                return TRUE_P if t0 else FALSE_P
            a = ("flag", vk[1])
            return frozenset([frozenset([a if t1 else neg_atom(a)])])
        if vk[0] == "one" or (vk[0] == "const" and isinstance(vk[1].a[0], (int, float, bool))):
            return TRUE_P if test(1 if vk[0] == "one" else vk[1].a[0]) else FALSE_P
        return frozenset([frozenset([("test", vk, tag)])])

    def member(self, g, vk, L):
        m = self.lst(L)
        if m[0] == "empty":
            return FALSE_P
        base, lo, hi = self.piece(m)
        if base[0] == "uniq" and base[1] == g.base and base[3] == vk and lo is ZERO and hi is None:
            if base[2] == TRUE_P or base[2] == g.pred:
                return TRUE_P        # every row's own value is in the list of all values
        a = ("in", vk, m)
        for c in g.pred:
            if a not in c:
                break
        else:
            if g.pred:
                return TRUE_P
        return frozenset([frozenset([a])])


def is_full(t):
    return t.op == "slice" and all(x is NONE for x in t.a)
