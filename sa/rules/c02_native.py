"""C02 on the native side: each worker reads only the claimed user's scores, truth and items."""
from ..common import *
from ..norm import norm
from ..entries import entries
from .c11 import V, ieval, NoVal, demu, iequal
from .c14_native import is_ninf, SORTS

OFF = None


class Own:
    def __init__(self, ctx, N, e):
        self.ctx, self.e, self.q, self.loc = ctx, e, e.qual, e.func.loc()
        self.I, self.st, self.v = N.run(e.func, e.cls)
        ps = e.func.all_params()
        self.scores = next((sym(n) for n, ty in e.reg.native if "Matrix" in ty or "Ref<" in ty), None)
        self.offset = sym("offset") if "offset" in ps else None
        self.workers = []
        for x in self.I.effects:
            w = x.d.get("worker")
            if w and w[-1] not in self.workers:
                self.workers.append(w[-1])

    def ob(self, rule, ok, detail="", loc=None, tag=""):
        self.ctx.ob(rule, self.q + tag, ok, detail, loc or self.loc)

    def run(self):
        for w in self.workers:
            E = [x for x in self.I.effects if x.d.get("worker") and x.worker[-1] == w]
            cl = [x for x in E if x.kind == "claim"]
            if not cl:
                continue
            Worker(self, E, cl).run()


class Worker:
    def __init__(self, o, E, cl):
        self.o, self.E, self.I = o, E, o.I
        self.vm = {t: V for x in cl for t in (x.term, strip(x.term))}
        self.L = max(cl, key=lambda c: len(c.loops)).loops[-1] if any(c.loops for c in cl) else None
        self.is_scores = o.scores is not None and any(contains_obj(x, o.scores) for x in E)
        self.user = add(V, o.offset) if self.is_scores and o.offset is not None else V

    def ob(self, rule, ok, detail="", loc=None, tag=""):
        self.o.ob(rule, ok, detail, loc, (" scoring" if self.is_scores else " truth") + tag)

    def val(self, t):
        m = {}
        for lp in self.I.all_loops:
            for h, (i, n) in lp.mus.items():
                if lp.dom is not None and lp.dom.op == "range" and is_const(lp.dom.a[2], 1) and is_const(lp.dom.a[0], 0) and ONE in (sub(n, h), sub(strip(n), strip(h)), sub(strip(n), h)):
                    m[h] = add(i, elem(lp.dom, 0))
        return norm(subst(subst(t, m), self.vm))

    def opaque(self, t):
        return any(x.op in ("mu", "unk", "loopout", "either") for x in walk(t))

    def access(self):
        """Every read of a per-user array is at the claimed user."""
        seen = {}
        for x in self.E:
            if x.kind != "getitem":
                continue
            base, i = x.base, x.idx
            name = per_user(base)
            if name is None:
                continue
            k = self.val(i)
            if name == "recommendable_items":
                single = any(c in (eq(ONE, length(base)), eq(length(base), ONE)) or is_single(c, base) for c in x.path)
                if is_const(k, 0):
                    ok = single or None
                    if not single and not any(is_many(c, base) is None for c in x.path):
                        ok = False
                else:
                    ok = k is self.user or (None if self.opaque(k) else False)
                    if single and ok:
                        ok = False
            elif name == "X_.indptr":
                ok = k in (self.user, add(self.user, ONE)) or (None if self.opaque(k) else False)
            else:
                ok = k is self.user or (None if self.opaque(k) else False)
            key_ = (name, str(k))
            if key_ in seen and seen[key_] == ok:
                continue
            seen[key_] = ok
            self.ob("native-own-user", ok, f"while handling row V, {name} is read at {short(k, 80)} instead of {short(self.user, 40)}", x.loc, f" {name}")

    def scored(self):
        """Every score read belongs to the claimed row, and is paired with its own item."""
        S = self.o.scores
        stride = [dim(S, 1)] + [c.a[0] if c.a[1] is dim(S, 1) else c.a[1] for x in self.E[:1] for c in x.path if c.op == "eq" and dim(S, 1) in c.a]
        cand = []
        for x in self.E:
            if x.kind != "mutcall" or x.name != "append" or len(x.args) != 1 or x.args[0].op != "tuple" or len(x.args[0].a[0]) != 2:
                continue
            a = x.args[0].a[0]
            sc = [i for i, t in enumerate(a) if any(y.op == "idx" and y.a[0].op == "flat" for y in walk(t)) and not (y_item(t))]
            if len(sc) != 1:
                continue
            cand.append(x)
            s, it = self.val(a[sc[0]]), self.val(a[1 - sc[0]])
            cell = [y for y in walk(s) if y.op == "idx" and y.a[0].op == "flat"]
            sign = 1
            if s.op == "lin":
                sign = s.a[1][0][1]
            if len(cell) != 1 or cell[0].a[0].a[1] != "row":
                self.ob("native-own-score", None, short(s, 80), x.loc)
                continue
            best, w = None, ""
            for d in stride:
                r, w = iequal(norm(cell[0].a[1]), norm(add(mul(V, norm(d)), it)))
                best = True if r else best if best else r
            self.ob("native-own-score", best, f"item {short(it, 60)} of row V is paired with the score cell {short(cell[0].a[1], 100)}", x.loc)
            masked = [c for c in x.path if any(is_ninf(y) for y in walk(c))]
            ok = None
            for c in masked:
                c = strip(c)
                if c.op == "not" and c.a[0].op == "eq" or c.op == "lt" and is_ninf(c.a[0]):
                    ok = True
            if not masked:
                fin = any("isfinite" in str(c) or "isinf" in str(c) for c in x.path)
                ok = None if fin else False
            self.ob("native-masked-out", ok, "an item whose score is minus infinity is ranked like any other", x.loc)
            self.first = sc[0]
            self.sign = sign
        return cand

    def order(self, cand):
        hold = {x.obj for x in cand}
        al = [x for x in self.E if x.kind == "algo" and x.name in SORTS and x.obj in hold]
        if not al:
            self.ob("native-ranked", None, "no sort of the scored items found")
            return
        full = [x for x in al if x.name != "nth_element"]
        if not full:
            self.ob("native-ranked", False, "the scored items are partitioned but not ordered", al[-1].loc)
            return
        for x in full:
            n = 6 if x.name == "partial_sort" else 4
            A = [strip(a) for a in x.iargs]
            p, q = sym("$p"), sym("$q")
            cells = [mk("idx", a, k) for a in (p, q) for k in (ZERO, ONE)]
            if len(x.iargs) == n:
                # pairs compare by their first component
                ok = self.first == 0 and self.sign == -1
            elif x.iargs[-1].op == "fn":
                r = strip(self.I.call(x.iargs[-1], [p, q], [], self.o.st.copy(), None))
                ok = True
                try:
                    for a in range(3):
                        for b in range(3):
                            for i in range(2):
                                vals = {mk("idx", p, const(self.first)): a * self.sign, mk("idx", q, const(self.first)): b * self.sign,
                                        mk("idx", p, const(1 - self.first)): i, mk("idx", q, const(1 - self.first)): 1 - i}
                                g = bool(ieval(r, vals))
                                if (a > b and not g) or (a < b and g):
                                    ok = False
                except NoVal:
                    ok = None
            else:
                ok = None
            self.ob("native-ranked", ok, "the items are not put in descending order of their score", x.loc)
            whole = strip(length(x.old))
            Ls = sym("$len")
            K = sym("cutoff")
            ln = lambda t: subst(t, {whole: Ls, A[n - 1]: Ls} if A[n - 1].op == "len" else {whole: Ls})
            bad = None
            try:
                for k in range(1, 5):
                    for c in range(5):
                        env = {Ls: c, K: k}
                        m = ieval(ln(A[3]), env)
                        if m < min(k, c) or m > c:
                            bad = f"of {c} items with cutoff {k} the first {m} are put in order"
            except NoVal:
                bad = NoVal
            self.ob("native-ranked-prefix", None if bad is NoVal else bad is None, bad if isinstance(bad, str) else "", x.loc)

    def fresh_lists(self, cand):
        """Buffers reused between users are emptied for each of them."""
        objs = []
        for x in self.E:
            if x.kind == "mutcall" and x.name == "append" and self.L is not None and self.L in x.loops and x.obj not in objs and x.obj.op == "new":
                objs.append(x.obj)
        first = next((i for i, x in enumerate(self.E) if x.kind == "claim"), 0)
        for o in objs:
            i = next(i for i, x in enumerate(self.E) if x.kind == "mutcall" and x.name == "append" and x.obj is o)
            made = o.a[-1] if isinstance(o.a[-1], int) else None
            c = [j for j, x in enumerate(self.E) if x.kind == "mutcall" and x.name == "clear" and x.obj is o and self.L in x.loops]
            base = self.I.worker_info
            inside = self.created_inside(o)
            ok = inside or (bool(c) and c[0] < i)
            if not ok and any(x.kind == "mutcall" and x.obj is o and x.name in ("resize", "assign", "swap", "erase") for x in self.E):
                ok = None
            self.ob("native-fresh-buffer", bool(ok) if ok is not None else None, "a list of the previous user is carried over into the next user's ranking", self.E[i].loc, f" line {str(self.E[i].loc).split(':')[-1]}")

    def created_inside(self, o):
        """The list is created anew in each round: its content is never carried by the claim loop."""
        return not any(isinstance(h.a[2], tuple) and h.a[2][0] == "c" and h.a[2][1] is o for h in self.L.mus)

    def counted(self):
        """How many ranked items are handed on."""
        K = sym("cutoff")
        for x in self.E:
            if x.kind != "mutcall" or x.name != "append" or not x.loops:
                continue
            L = x.loops[-1]
            a = x.args[0] if x.args else None
            if a is None or L is self.L:
                continue
            src = [y for y in walk(a) if y.op in ("elem", "idx") and y.a[0].op == "algo" and y.a[0].a[0] in SORTS]
            if not src:
                over = [y for t in ([L.dom] if L.dom is not None else []) for y in walk(t) if y.op == "algo" and y.a[0] in SORTS]
                ctr = [h for h, (i, nx) in L.mus.items() if ONE in (sub(nx, h), sub(strip(nx), strip(h)), sub(strip(nx), h))]
                if over and (a in ctr or a.op == "const"):
                    self.ob("native-ranked-item", False, f"handed on is {short(a, 30)}, not the ranked item", x.loc)
                continue
            top = a
            ok = None
            if top.op == "idx" and top.a[0] in src:
                ok = is_const(top.a[1], 1 - self.first)
            elif top.op == "attr":
                ok = top.a[1] == ("second" if self.first == 0 else "first")
            if ok is None and src[0].op == "idx":
                ok = None
            self.ob("native-ranked-item", ok, f"handed on is {short(top, 30)}", x.loc)
            self.prefix(x, L, K)

    def prefix(self, x, L, K):
        al = [y for y in walk(x.args[0]) if y.op == "algo"][0]
        n = sym("$len")
        lens = {}
        for t in [c for c in x.path] + [c for b in L.breaks for c in (b if isinstance(b, (tuple, list)) else (b,)) if isinstance(c, T)] + ([L.dom] if L.dom is not None else []):
            for y in walk(t):
                if y.op == "len":
                    lens[y] = n
        ctr = [h for h, (i, nx) in L.mus.items() if is_const(strip(i), 0) and ONE in (sub(nx, h), sub(strip(nx), strip(h)), sub(strip(nx), h))]
        c0 = sym("$c")
        sub_ = lambda t: strip(subst(subst(t, {h: c0 for h in ctr}), lens))
        rel = lambda t: contains(t, K) or any(contains(t, h) for h in ctr)
        try:
            bad = None
            brk = []
            for b in L.breaks:
                cs = [c for c in (b if isinstance(b, (tuple, list)) else (b,)) if isinstance(c, T)]
                brk.append([sub_(c) for c in cs if any(contains(c, h) for h in ctr)])
            pre = [sub_(c) for c in x.path if any(contains(c, h) for h in ctr)]
            for k in range(1, 5):
                for m in range(5):
                    if L.dom is not None and L.dom.op == "range":
                        top = ieval(sub_(L.dom.a[1]), {n: m, K: k}) - ieval(sub_(L.dom.a[0]), {n: m, K: k})
                    else:
                        top = m
                    got = 0
                    for c in range(top):
                        env = {n: m, K: k, c0: c}
                        if not all(ieval(p, env) for p in pre):
                            break
                        got += 1
                        if any(b and all(ieval(p, env) for p in b) for b in brk):
                            break
                    if got != min(k, m):
                        bad = f"with cutoff {k} and {m} ranked items, {got} are compared with the ground truth"
        except NoVal:
            self.ob("native-cutoff", None, "", x.loc)
            return
        self.ob("native-cutoff", bad is None, bad or "", x.loc)

    def run(self):
        self.access()
        if self.is_scores:
            c = self.scored()
            if not c:
                self.ob("native-own-score", None, "no scored items recognised")
                return
            self.order(c)
            self.fresh_lists(c)
            self.counted()
        else:
            self.fresh_lists([])


def y_item(t):
    return False


def is_single(c, base):
    return c.op == "eq" and any(is_const(x, 1) for x in c.a) and any(x.op == "len" and strip(x.a[0]) is strip(base) for x in c.a)


def is_many(c, base):
    """None when the condition could tell that there is one list."""
    return True if not any(y.op == "len" and strip(y.a[0]) is strip(base) for y in walk(c)) else True


def contains_obj(x, s):
    return x.kind == "getitem" and x.base.op == "flat" and contains(x.base, s)


def per_user(base):
    """Name of the per-user array, if base is one."""
    t = base
    while t.op in ("phi", "mu", "loopout", "rep"):
        t = t.a[2] if t.op == "phi" else t.a[3] if t.op == "mu" else t.a[1] if t.op == "loopout" else t.a[-1]
    s = str(t)
    if s == "self.recommendable_items":
        return "recommendable_items"
    if s == "self.X_.indptr":
        return "X_.indptr"
    if s == "self.X_as_set":
        return "X_as_set"
    return None


def native(ctx):
    N = ctx.native()
    n = 0
    for e in entries(N):
        if e.reg.cls == "EvaluatorCore" and e.reg.kind == "method" and (e.reg.name.startswith("get_metrics") or e.reg.name.startswith("cache")):
            n += 1
            ctx.saw(e.func.qual)
            ctx.guard(lambda c, x: Own(c, N, x).run(), ctx, e)
