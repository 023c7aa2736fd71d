"""C14 on the native side: the routine that turns score rows into recommendation lists."""
import math

from ..common import *
from ..norm import norm
from ..entries import entries
from .c11 import V, ieval, NoVal, demu, iequal

SORTS = ("sort", "stable_sort", "partial_sort", "nth_element")


def is_ninf(t):
    if t.op == "const" and isinstance(t.a[0], float) and t.a[0] == -math.inf:
        return True
    if t.op in ("neg", "scale") or t.op == "lin" or t.op == "mul":
        s = str(t).replace(" ", "")
        return "inf" in s and "-" in s
    return False


class Retrieve:
    def __init__(self, ctx, N, e):
        self.ctx, self.e, self.q = ctx, e, e.qual
        ps = e.func.all_params()
        self.S, self.A, self.K = (sym(p) for p in ps[:3])
        self.I, self.st, self.v = N.run(e.func, e.cls)
        self.E = [x for x in self.I.effects if x.d.get("worker")]
        cl = [x for x in self.E if x.kind == "claim"]
        self.vm = {t: V for x in cl for t in (x.term, strip(x.term))}
        self.loc = e.func.loc()

    def ob(self, rule, ok, detail="", loc=None, tag=""):
        self.ctx.ob(rule, self.q + tag, ok, detail, loc or self.loc)

    def val(self, t):
        """Row positions as V; pointers that advance with the loop as base plus position."""
        m = {}
        for lp in self.I.all_loops:
            for h, (i, n) in lp.mus.items():
                if lp.dom is not None and lp.dom.op == "range" and is_const(lp.dom.a[2], 1) and is_const(lp.dom.a[0], 0) and ONE in (sub(n, h), sub(strip(n), strip(h)), sub(strip(n), h)):
                    m[h] = add(i, elem(lp.dom, 0))
        return norm(subst(subst(t, m), self.vm))

    # -- candidates: (item, own score)
    def candidates(self):
        cols = dim(self.S, 1)
        found = []
        for x in self.E:
            if x.kind != "mutcall" or x.name != "append" or len(x.args) != 1 or x.args[0].op != "tuple" or len(x.args[0].a[0]) != 2:
                continue
            i, s = x.args[0].a[0]
            sc = [y for y in walk(s) if y.op == "idx" and y.a[0].op == "flat" and strip(y.a[0].a[0]) is self.S]
            if not sc and not contains(s, self.S):
                continue
            found.append(x)
            raw = i
            i, s = self.val(i), self.val(s)
            tag = " listed" if contains(raw, self.A) else " all"
            if s.op == "idx" and s.a[0].op == "flat" and s.a[0].a[1] == "row":
                off = norm(sub(s.a[1], mul(V, cols)))
                if off is i:
                    ok = True
                elif any(y.op in ("mu", "unk") for y in walk(off)) and off.op not in ("lin",):
                    ok = None
                else:
                    ok, _ = iequal(off, i)
                self.ob("native-own-score", ok, f"item {short(i, 60)} of row V is paired with the score at {short(s.a[1], 100)}", x.loc, tag)
            elif s.op == "idx" and s.a[0] is self.S and s.a[1].op == "tuple" and len(s.a[1].a[0]) == 2:
                self.ob("native-own-score", s.a[1].a[0][0] is V and s.a[1].a[0][1] is i, f"item {short(i, 60)} of row V is paired with {short(s, 100)}", x.loc, tag)
            else:
                self.ob("native-own-score", None, short(s, 100), x.loc, tag)
            if contains(raw, self.A):
                self.allowed(x, raw, i)
            elif i.op == "elem":
                d = i.a[0]
                if d.op == "range":
                    full = is_const(d.a[0], 0) and is_const(d.a[2], 1) and norm(demu(d.a[1])) is cols
                    self.ob("native-all-items", full and not self.extra(x), f"without a list the candidates are {short(d, 80)}", x.loc)
        return found

    def extra(self, x):
        """Conditions of a candidate beyond the choice of list and a test against minus infinity."""
        L = x.loops[-1]
        out = []
        for c in x.path:
            if any(y.op == "elem" and y.a[0] is L.dom for y in walk(c)) and not any(is_ninf(y) for y in walk(c)):
                out.append(c)
        return out

    def allowed(self, x, raw, i):
        one = eq(ONE, length(self.A))
        lists = []

        def leaf(t, cs):
            if t.op == "phi":
                leaf(t.a[1], cs + [t.a[0]])
                leaf(t.a[2], cs + [not_(t.a[0])])
            else:
                lists.append((t, cs))
        for y in walk(raw):
            if y.op in ("idx", "elem") and (y.a[0].op == "phi" or (y.a[0].op == "idx" and y.a[0].a[0] is self.A)):
                leaf(y.a[0], list(x.path))
        if not lists:
            self.ob("native-own-filter", None, short(raw, 120), x.loc)
        for t, cs in lists:
            if t.op != "idx" or t.a[0] is not self.A:
                self.ob("native-own-filter", None, short(t, 100), x.loc)
                continue
            k = self.val(t.a[1])
            single = any(c is one for c in cs)
            if is_const(k, 0) and single:
                ok = True
            elif k is V:
                ok = True if not single else False
            elif any(y.op in ("mu", "unk", "phi") for y in walk(k)):
                ok = None
            else:
                ok = False
            self.ob("native-own-filter", ok, f"row V is filtered by the list at {short(k, 60)}" + (" when one list is given" if single else ""), x.loc, " one" if single else " many")
        # entries outside the matrix are ignored, every other one is a candidate
        item = raw
        cs = [strip(c) for c in x.path]
        cols = dim(self.S, 1)
        n = sym("$cols")
        env0 = {}
        rel = []
        for c in cs:
            if contains(c, strip(item)):
                rel.append(subst(subst(c, {strip(item): sym("$item")}), {cols: n}))
        bad, unk = None, False
        rel = [c for c in rel if not any(is_ninf(y) for y in walk(c))]
        try:
            for w in range(0, 4):
                for it in range(-2, 6):
                    r = all(ieval(c, {sym("$item"): it, n: w}) for c in rel)
                    if r != (0 <= it < w):
                        bad = f"with {w} items, the listed item {it} is {'used' if r else 'left out'}"
        except NoVal:
            unk = True
        self.ob("native-list-entries", None if unk else bad is None, bad or "", x.loc)

    # -- order
    def order(self, cand):
        holders = {x.obj for x in cand}
        al = [x for x in self.E if x.kind == "algo" and x.name in SORTS and x.obj in holders]
        if not al:
            self.ob("native-order", None, "no sort of the candidates found")
            return None
        full = [x for x in al if x.name != "nth_element"]
        if not full:
            self.ob("native-order", False, "the candidates are partitioned but not ordered", al[-1].loc)
            return al
        for x in full:
            fn = x.iargs[-1]
            if fn.op != "fn":
                self.ob("native-order", None if len(x.iargs) > (6 if x.name == "partial_sort" else 4) else False, "the candidates are ordered ascending by item, not by score", x.loc)
                continue
            p, q = sym("$p"), sym("$q")
            r = strip(self.I.call(fn, [p, q], [], self.st.copy(), None))
            s = lambda a: mk("idx", a, ONE)
            atoms = {y for y in walk(r) if y.op == "idx"}
            ok = None
            if r is lt(s(q), s(p)):
                ok = True
            else:
                try:
                    ok = True
                    cells = [mk("idx", a, k) for a in (p, q) for k in (ZERO, ONE)]
                    for a in range(3):
                        for b in range(3):
                            for i in range(2):
                                for j in range(2):
                                    g = bool(ieval(r, dict(zip(cells, (i, a, j, b)))))
                                    if (a > b and not g) or (a < b and g) or (a == b and i == j and g):
                                        ok = False
                except NoVal:
                    ok = None
            self.ob("native-order", ok, f"candidates are ordered by {short(r, 80)}", x.loc)
            # how much is sorted
            A = [strip(a) for a in x.iargs]
            if not is_const(A[1], 0):
                self.ob("native-sorted-prefix", False if A[1].op == "const" else None, f"the sort starts at {short(A[1], 60)}", x.loc)
                continue
            L = sym("$len")
            whole = length(x.old)

            def ln(t):
                return subst(t, {strip(whole): L, strip(A[-2]): L} if A[-2].op == "len" else {strip(whole): L})
            mid, end = (ln(A[3]), ln(A[5])) if x.name == "partial_sort" else (ln(A[3]), ln(A[3]))
            bad = None
            try:
                for n in range(5):
                    for k in range(6):
                        env = {L: n, self.K: k}
                        m, h = ieval(mid, env), ieval(end, env)
                        if (h != n and x.name == "partial_sort") or m < min(k, n) or m > n:
                            bad = f"of {n} candidates with cutoff {k} the first {m} are put in order out of {h}"
            except NoVal:
                bad = NoVal
            if x.name != "partial_sort" and any(y.name == "nth_element" for y in al):
                bad = bad if bad is None else NoVal
            self.ob("native-sorted-prefix", None if bad is NoVal else bad is None, bad if isinstance(bad, str) else "", x.loc)
        return full

    # -- output
    def output(self, cand, al):
        R = strip(self.v) if self.v is not None else None
        outs = []
        for x in self.E:
            if x.kind == "mutcall" and x.name == "append" and x not in cand:
                o = x.obj
                if o.op == "idx" and root_is(o.a[0], self.v):
                    outs.append(x)
        if not outs:
            self.ob("native-output", None, "no place where results are stored was recognised")
            return
        for x in outs:
            k = self.val(x.obj.a[1])
            self.ob("native-own-row", k is V or (None if any(y.op in ("mu", "unk") for y in walk(k)) else False), f"the list of row V is stored under row {short(k, 60)}", x.loc)
            L = x.loops[-1]
            a = x.args[0]
            # what is stored: an element of the sorted candidates, in order
            src = a.a[0] if a.op in ("elem", "idx") else None
            if src is not None and src.op == "algo" and src.a[0] in SORTS:
                ok = a.op == "elem" or (a.a[1].op == "elem" and L.dom is not None and a.a[1].a[0] is L.dom and is_const(L.dom.a[0], 0)) or None
                if a.op == "idx" and a.a[1].op == "elem" and L.dom is not None and L.dom.op == "range" and L.dom.a[0].op == "const" and not is_const(L.dom.a[0], 0):
                    ok = False
                self.ob("native-in-order", ok, f"stored is {short(a, 100)}", x.loc)
            elif src is not None and src.op in ("comp", "list") and al:
                self.ob("native-in-order", False, f"stored is an element of the unsorted candidates: {short(a, 100)}", x.loc)
            else:
                self.ob("native-in-order", None, short(a, 100), x.loc)
            self.cutoff(x, L)
            score = mk("idx", a, ONE)
            kinds = []
            for c in list(x.path) + [c for y in cand for c in y.path]:
                for y in walk(c):
                    if y.op in ("eq", "lt", "le") and any(is_ninf(z) for z in y.a):
                        kinds.append(c)
            known = None
            for c in kinds:
                c = strip(c)
                s = str(c)
                at = [y for y in walk(c) if y.op in ("eq", "lt", "le") and any(is_ninf(z) for z in y.a)][0]
                other = [z for z in at.a if not is_ninf(z)]
                if c.op == "not" and c.a[0] is at:
                    known = at.op == "eq" or (at.op == "le" and is_ninf(at.a[1])) or known
                elif c is at:
                    known = (at.op == "lt" and is_ninf(at.a[0])) or known or False
            if not kinds:
                isf = any(y.op == "call" and "isfinite" in str(y.a[0]) or "isinf" in str(y) for c in x.path for y in walk(c))
                self.ob("native-no-masked", None if isf else False, "an item whose score is minus infinity is stored like any other", x.loc)
            else:
                self.ob("native-no-masked", True if known else None, "", x.loc)

    def cutoff(self, x, L):
        ctr = [(h, i, n) for h, (i, n) in L.mus.items() if is_const(strip(i), 0) and ONE in (sub(n, h), sub(strip(n), strip(h)), sub(strip(n), h))]
        conds = [c for c in x.path if contains(c, self.K)]
        bad, seen = None, False
        k0 = sym("$len")
        try:
            if L.dom is not None and L.dom.op == "range" and contains(L.dom, self.K):
                seen = True
                lens = {y: k0 for y in walk(L.dom) if y.op == "len"}
                hi, lo = subst(L.dom.a[1], lens), subst(L.dom.a[0], lens)
                for n in range(5):
                    for c in range(6):
                        m = ieval(hi, {k0: n, self.K: c}) - ieval(lo, {k0: n, self.K: c})
                        if m != min(n, c):
                            bad = f"{m} of {n} candidates are stored with cutoff {c}"
            for c in conds:
                hs = [h for h, _, _ in ctr if contains(c, h)] + [y for y in walk(c) if y.op == "len" and contains(y, x.obj)]
                if not hs:
                    continue
                seen = True
                for k in range(5):
                    n = 0
                    while n < 12 and ieval(strip(subst(c, {hs[0]: sym("$n")})), {sym("$n"): n, self.K: k}):
                        n += 1
                    if n != k:
                        bad = f"{n} items are stored with cutoff {k}"
        except NoVal:
            self.ob("native-cutoff", None, "", x.loc)
            return
        if not seen:
            loose = contains_any(L, self.K) or conds
            self.ob("native-cutoff", None if loose else False, "the number of stored items is not limited by the cutoff", x.loc)
        else:
            self.ob("native-cutoff", bad is None, bad or "", x.loc)

    def run(self):
        c = self.candidates()
        if not c:
            self.ob("native-own-score", None, "no candidates recognised")
            return
        al = self.order(c)
        self.output(c, al)


def contains_any(L, k):
    for b in L.breaks:
        for t in (b if isinstance(b, (tuple, list)) else (b,)):
            if isinstance(t, T) and contains(t, k):
                return True
            if isinstance(t, (tuple, list)) and any(isinstance(y, T) and contains(y, k) for y in t):
                return True
    return L.dom is not None and contains(L.dom, k)


def root_is(t, v):
    return v is not None and (t is v or strip(t) is strip(v))


def native(ctx):
    N = ctx.native()
    for e in entries(N):
        if e.reg.name.startswith("retrieve_recommend_from_score"):
            ctx.saw(e.func.qual)
            ctx.guard(lambda c, x: Retrieve(c, N, x).run(), ctx, e)
