"""C11: parallel native work covers everything once and loses no failure."""
import ast
import itertools

from ..terms import *
from ..native import Native, NativeInterp
from ..norm import norm, eqv
from ..common import short
from ..pyproj import AnalysisError

LEVEL = "proof"
TECHNIQUE = "static analysis: worker effects, cursor typestate and index-disjointness analysis over the clang AST of every function that spawns threads"
MIN_OBLIGATIONS = 60
EXPLANATION = ("Every native function that starts threads or asynchronous tasks is parsed by clang, translated and analysed symbolically. For each spawn the analysis derives how positions are handed out (an atomic cursor with "
               "its step and exit guard, or a static partition of a range), and shows that the positions handled are exactly the rows, columns or users of an array indexed by them, that the cursor is created once per "
               "fan-out and starts at zero, that workers write only to objects they created or at positions they own, that every future is waited for by get() (every thread by join()) in a loop over all of them before "
               "the outputs are used, that partial results are accumulated, and that no exception of a worker is swallowed.")
ASSUMPTIONS = ["std::atomic fetch_add hands out each position once; std::async(launch::async) and std::thread run their callable once",
               "Eigen expressions read and write only the cells they name"]
V = sym("$claimed")


# ---------------------------------------------------------------- integer evaluation of extracted index arithmetic

class NoVal(Exception):
    pass


def atoms_of(t, out=None):
    """Maximal non-arithmetic subterms."""
    out = out if out is not None else []
    if t.op in ("lin", "mul", "min", "max", "floordiv", "mod_", "phi", "lt", "le", "eq", "not", "and", "or", "const", "div", "floor", "ceil"):
        for c in children(t):
            if isinstance(c, T):
                atoms_of(c, out)
        return out
    if t not in out:
        out.append(t)
    return out


def ieval(t, env):
    if t in env:
        return env[t]
    op = t.op
    if op == "const":
        if isinstance(t.a[0], bool) or isinstance(t.a[0], int):
            return t.a[0]
        if isinstance(t.a[0], float) and t.a[0] == int(t.a[0]):
            return int(t.a[0])
        raise NoVal
    if op == "lin":
        return int(t.a[0]) + sum(int(k) * ieval(x, env) for x, k in t.a[1])
    if op == "mul":
        r = 1
        for x in t.a[0]:
            r *= ieval(x, env)
        return r
    if op in ("min", "max"):
        return (min if op == "min" else max)(ieval(x, env) for x in t.a[0])
    if op == "floordiv":
        d = ieval(t.a[1], env)
        if d == 0:
            raise NoVal
        return ieval(t.a[0], env) // d
    if op == "mod_":
        d = ieval(t.a[1], env)
        if d == 0:
            raise NoVal
        return ieval(t.a[0], env) % d
    if op == "phi":
        return ieval(t.a[1] if ieval(t.a[0], env) else t.a[2], env)
    if op == "lt":
        return ieval(t.a[0], env) < ieval(t.a[1], env)
    if op == "le":
        return ieval(t.a[0], env) <= ieval(t.a[1], env)
    if op == "eq":
        return ieval(t.a[0], env) == ieval(t.a[1], env)
    if op == "not":
        return not ieval(t.a[0], env)
    if op == "and":
        return all(ieval(x, env) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a))
    if op == "or":
        return any(ieval(x, env) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a))
    raise NoVal


GRID = [0, 1, 2, 3, 5, 7, 16, 17, 40]


def differs(a, b, facts=(), vals=GRID, cap=4, lo={}):
    """An assignment of the atoms on which two integer terms differ; None if there is none; NoVal if not evaluable."""
    at = []
    for t in (a, b) + tuple(facts):
        atoms_of(t, at)
    if len(at) > cap:
        raise NoVal
    for combo in itertools.product(vals, repeat=len(at)):
        env = dict(zip(at, combo))
        try:
            if not all(ieval(f, env) for f in facts):
                continue
            if ieval(a, env) != ieval(b, env):
                return env
        except NoVal:
            if any(x.op in ("floordiv", "mod_") for t in (a, b) for x in walk(t)):
                continue
            raise
    return None


def iequal(a, b, facts=()):
    """True / (False, witness) / None"""
    if a is b or eqv(a, b):
        return True, ""
    try:
        w = differs(a, b, facts)
    except NoVal:
        return None, ""
    if w is None:
        return True, ""
    return False, ", ".join(f"{short(k, 60)}={v}" for k, v in w.items())


# ---------------------------------------------------------------- spawners and entries

def calls_in(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            yield n


def spawn_call(c):
    f = c.func
    return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "std" and f.attr in ("async_", "thread")


def called_names(node):
    out = set()
    for c in calls_in(node):
        if isinstance(c.func, ast.Name):
            out.add(c.func.id)
        elif isinstance(c.func, ast.Attribute):
            out.add(c.func.attr)
    return out


def takes_callable(f):
    """Does the function call one of its own parameters?"""
    ps = {a.arg for a in f.node.args.args}
    return any(isinstance(c.func, ast.Name) and c.func.id in ps for c in calls_in(f.node))


class Fan:
    """Functions that fan out and the entries they are analysed from."""

    def __init__(self, N):
        self.N = N
        self.all = list(N.funcs())
        self.spawners = {f.qual for _, f, _ in self.all if any(spawn_call(c) for c in calls_in(f.node))}
        self.helpers = {f.qual for _, f, _ in self.all if f.qual in self.spawners and takes_callable(f)}
        self.runs = {}
        for _ in range(4):
            new = set()
            for m, f, c in self.entries():
                if f.qual in self.runs:
                    continue
                I, st, v = self.run(f, c)
                self.runs[f.qual] = (I, st, v)
                if self.escapes(f, I, st, v):
                    new.add(f.qual)
            if not new:
                break
            self.helpers |= new
            for q in list(self.runs):
                if q not in new:
                    del self.runs[q]

    def entries(self):
        hn = {}
        for _, f, _ in self.all:
            if f.qual in self.helpers:
                hn[f.name] = f
        for m, f, c in self.all:
            if f.qual in self.helpers:
                continue
            if f.qual in self.spawners or (hn and called_names(f.node) & set(hn)):
                yield m, f, self.concrete(c)

    def concrete(self, c):
        if c is None:
            return None
        subs = [k for m in self.N.mods.values() for k in m.classes.values() if k is not c and c in k.mro()]
        return subs[0] if subs else c

    def run(self, f, c):
        keep = {f.qual} | self.helpers

        def inline(g):
            return g.qual not in self.spawners or g.qual in keep or g.qual.startswith(f.qual + ".")
        return self.N.run(f, c, interp=NativeInterp(self.N.proj, inline=inline))

    def escapes(self, f, I, st, v):
        """The future leaves the function: its caller waits for it."""
        if v is not None:
            x = I.deep(v, st) if hasattr(I, "deep") else v
            if any(y.op == "future" for y in walk(x)):
                return True
        for e in I.effects:
            if e.kind == "mutcall" and any(isinstance(a, T) and a.op == "future" for a in e.args) and root_obj(e.obj).op == "sym":
                return True
        sp = {e.sid for e in I.effects if e.kind == "spawn"}
        for e in I.effects:
            if e.kind == "claim" and e.atom.op == "sym" and sp:
                return True
        return False


def root_obj(t):
    while True:
        if t.op in ("idx", "attr", "conv", "T"):
            n = t.a[1] if t.op == "conv" else t.a[0]
            t = n
        elif t.op == "flat":
            t = t.a[0]
        elif t.op == "mu":
            t = t.a[2][1] if isinstance(t.a[2], tuple) and t.a[2][0] == "c" else t.a[3]
        else:
            return t


# ---------------------------------------------------------------- one fan-out

_D = {}


def demu(t):
    """Sizes of loop-carried arrays are those they started with."""
    def f(x):
        r = _D.get(x)
        if r is None:
            r = _D[x] = g(rebuild(x, f))
        return r

    def g(x):
        if x.op == "dim":
            o = x.a[0]
            while o.op in ("mu", "loopout", "store"):
                o = o.a[3] if o.op == "mu" else o.a[1] if o.op == "loopout" else o.a[0]
            if o is not x.a[0]:
                return dim(o, x.a[1])
        if x.op == "len" and x.a[0].op == "range" and is_const(x.a[0].a[2], 1):
            return max_(ZERO, sub(x.a[0].a[1], x.a[0].a[0]))
        if x.op == "len":
            o = x.a[0]
            while o.op in ("mu", "store") or (o.op == "loopout"):
                o = o.a[3] if o.op == "mu" else o.a[1] if o.op == "loopout" else o.a[0]
            if o is not x.a[0]:
                return length(o)
        return x
    return f(strip(t))


class FanOut:
    def __init__(self, ctx, fan, f, I, st, v, sp):
        self.ctx, self.fan, self.f, self.I, self.st, self.v, self.sp = ctx, fan, f, I, st, v, sp
        self.sid = sp.sid
        self.E = I.effects
        self.W = [e for e in self.E if e.d.get("worker") and e.worker[-1] == self.sid]
        self.name = f"{f.qual} worker@{sp.fn.a[0].split('.')[-1].rsplit('_', 1)[0] if sp.fn.op == 'fn' else 'bound'}"
        self.loc = sp.loc
        self.lo, self.hi = I.worker_info[self.sid][:2]
        self.sloop = sp.loops[-1] if sp.loops else None

    def ob(self, rule, ok, detail="", loc=None):
        self.ctx.ob(rule, self.name, ok, detail, loc or self.loc)

    # -- helpers
    def local(self, t):
        """Created by this worker (or a copy it captured)."""
        if any(x.op == "conv" for x in chain(t)):
            return True
        r = root_obj(t)
        if r.op == "new" and isinstance(r.a[-1], int):
            return self.lo <= r.a[-1] <= self.hi
        if r.op == "conv":
            return True
        if t.op == "conv" and t.a[0] in ("copy",):
            return True
        if r.op in ("phi",):
            return all(self.local(x) for x in r.a[1:])
        return False

    def vs(self, t):
        return subst(t, self.vmap) if self.vmap else t

    def captured_copy(self, t):
        """By-value capture of an outer object: private to this worker."""
        fn = self.sp.fn
        return t.op == "conv" and t.a[0] == "copy"

    # -- 1. cursor
    def cursor(self):
        claims = [e for e in self.W if e.kind == "claim"]
        self.vmap = {}
        self.B = None
        self.L = None
        if not claims:
            return False
        atoms = {e.atom for e in claims}
        if len(atoms) > 1:
            self.ob("cursor", None, "more than one cursor")
            return None
        self.atom = claims[0].atom
        terms = {e.term for e in claims}
        self.vmap = {t: V for t in terms}
        for lp in self.I.all_loops:
            for h, (init, nxt) in lp.mus.items():
                if strip(init) in terms and strip(nxt) in terms:
                    self.vmap[h] = V
        steps = {norm(e.step) for e in claims}
        if len(steps) > 1:
            self.ob("cursor", None, "claims of different sizes")
            return None
        self.k = demu(steps.pop())
        deep = max(claims, key=lambda e: len(e.loops))
        base = len(self.sp.loops)
        loops = deep.loops[base:]
        if not loops:
            self.ob("claims-until-done", False, "a worker takes only one position and ends: with fewer workers than positions the rest is never processed", deep.loc)
            return None
        self.L = loops[-1]
        if len(loops) > 1:
            # the claim loop sits inside another worker loop
            pass
        # creation
        made = [e for e in self.E if e.kind == "atomicnew" and e.term is self.atom]
        others = [e for e in self.E if e.kind == "atomic" and e.atom is self.atom]
        if made:
            m = made[0]
            if self.sid in m.worker:
                self.ob("one-cursor", False, "the cursor is created inside the worker: every worker processes every position", m.loc)
            elif len(m.loops) > len(self.sp.loops[:-1]) and self.sloop is not None and self.sloop in m.loops:
                self.ob("one-cursor", False, "the cursor is created per worker: every worker processes every position", m.loc)
            elif self.sloop is not None and len(m.loops) < len(self.sp.loops) - 1 and not others:
                self.ob("one-cursor", False, "the cursor is created once but the fan-out repeats: later rounds find it exhausted", m.loc)
            else:
                self.ob("one-cursor", True if not others else None, "")
            init = norm(m.init)
            if is_num(init):
                self.ob("cursor-start", True if init.a[0] == 0 else (None if others else False), f"the cursor starts at {init.a[0]}", m.loc)
            else:
                self.ob("cursor-start", None, short(init))
            shared = {e.worker[-1] for e in self.E if e.kind == "claim" and e.worker and e.atom is self.atom}
            if len(shared) > 1 and not others and min(shared) != self.sid:
                self.ob("one-cursor", False, "the cursor was already used up by an earlier fan-out", deep.loc)
        else:
            self.ob("one-cursor", None, short(self.atom))
        # exits
        exits = []
        if self.L.cond is not None and self.L.cond is not TRUE:
            exits.append((not_(self.L.cond),))
        exits += [tuple(b) for b in self.L.breaks] + [tuple(b) for b in getattr(self.L, "returns", [])]
        if not exits:
            self.ob("claims-until-done", False, "the worker loop never ends", self.L.loc)
            return None
        Bs = []
        for path in exits:
            b = None
            for c in path:
                b = self.bound(self.vs(c)) or b
            if b is None:
                conds = [self.vs(c) for c in path]
                hard = any(x.op in ("unk", "loopout", "mu") and contains(c, V) for c in conds for x in walk(c))
                self.ob("claims-until-done", None if hard else False,
                        "a worker stops before the cursor is past the end: " + (short(conds[-1]) if conds else "unconditionally"), self.L.loc)
                return None
            Bs.append(b)
        B = Bs[0]
        for b in Bs[1:]:
            if not eqv(b, B):
                B = min_(b, B)
        self.B = B
        self.ob("claims-until-done", True)
        return True

    def bound(self, c):
        """B such that c says: claimed >= B."""
        c = strip(c)
        if c.op == "not":
            x = c.a[0]
            if x.op == "lt":
                c = mk("le", x.a[1], x.a[0])
            elif x.op == "le":
                c = mk("lt", x.a[1], x.a[0])
        if c.op == "or":
            bs = [self.bound(x) for x in c.a[0]]
            if all(b is not None for b in bs) and bs:
                r = bs[0]
                for b in bs[1:]:
                    r = min_(r, b)
                return r
            return None
        if c.op in ("le", "lt"):
            a, b = c.a
            d = sub(b, a)
            _, parts = lin_parts(d)
            if parts.get(V) == 1:
                r = sub(V, d)
                if not contains(r, V):
                    return demu(add(r, ONE) if c.op == "lt" else r)
        return None

    # -- index classification
    def interval(self, i):
        """(lo, hi) of the positions an index term ranges over in terms of V, or None."""
        i = demu(self.vs(i))
        if i.op == "slice":
            lo, hi, stp = i.a
            if stp is not NONE and not is_const(stp, 1):
                return None
            if lo is NONE and hi is NONE:
                return None
            return (ZERO if lo is NONE else lo, hi)
        c, parts = lin_parts(i)
        rest = i
        lo = hi = None
        for t, k in parts.items():
            if t.op == "elem" and k == 1 and t.a[0].op == "range" and is_const(t.a[0].a[2], 1):
                rest = sub(rest, t)
                if lo is not None:
                    return None
                lo, hi = t.a[0].a[0], t.a[0].a[1]
        if lo is None:
            return (i, add(i, ONE))
        return (add(rest, lo), add(rest, hi))

    def uses(self, effects=None):
        """(effect, object, axis, index) of every indexed access."""
        for e in effects if effects is not None else self.W:
            if e.kind in ("getitem", "store"):
                o = e.obj
                ii = e.idx.a[0] if e.idx.op == "tuple" else (e.idx,)
                for ax, i in enumerate(ii):
                    yield e, o, ax, i
                t = o
            elif e.kind in ("mutcall", "algo", "setattr"):
                t = e.obj
            else:
                continue
            while t.op in ("idx", "conv", "attr", "flat"):
                if t.op == "idx":
                    ii = t.a[1].a[0] if t.a[1].op == "tuple" else (t.a[1],)
                    for ax, i in enumerate(ii):
                        yield e, t.a[0], ax, i
                t = t.a[1] if t.op == "conv" else t.a[0]

    def own(self, i):
        """How an index relates to the claimed position: 'own' (disjoint between claims), 'other', None."""
        i = demu(self.vs(i))
        iv = self.interval(i)
        if iv is not None and iv[1] is not None:
            lo, hi = iv
            _, pl = lin_parts(lo)
            if pl.get(V) in (1, -1):
                rest = sub(lo, scale(V, pl[V]))
                if not contains(rest, V):
                    return "own"
            # positions of the claimed row in a compressed matrix
            p = indptr_of(lo)
            if p is not None and contains(lo, V):
                o, j = p
                q = indptr_of(hi)
                if q is not None and q[0] is o and eqv(q[1], add(j, ONE)) and lin_parts(j)[1].get(V) == 1:
                    return "own"
            if i.op == "slice" and not contains(lo, V):
                return "other"
        if i.op != "slice":
            fixed = True
            for x in lin_parts(i)[1]:
                if x.op == "mu":
                    # a counter that starts at the row's first entry and advances by one per entry
                    p = indptr_of(x.a[3]) if isinstance(x.a[3], T) else None
                    if p is not None and contains(p[1], V):
                        return "own"
                    if not self.counter(x):
                        fixed = False
                elif contains(x, V):
                    fixed = False
            if fixed and contains(i, V):
                return "other"
        if not contains(i, V):
            for t in (i,) + (i.a if i.op == "slice" else ()):
                _, pl = lin_parts(t) if t.op != "slice" else (0, {})
                for x in pl:
                    if x.op == "mul" and V in x.a[0]:
                        return "own"
            return "other"
        c, pl = lin_parts(i)
        if i.op != "slice":
            for x, k in pl.items():
                if x.op == "mul" and V in x.a[0]:
                    return "own"
        # the claimed position only selects data that indexes
        for x in walk(i):
            if x.op == "idx" and x.a[0].op == "attr" and x.a[0].a[1] == "indices":
                return "other"
        return None

    def counter(self, x):
        """A loop counter that starts and advances the same for every claim."""
        for lp in self.I.all_loops:
            for h, (init, nxt) in lp.mus.items():
                if demu(self.vs(h)) is x:
                    return not contains(demu(self.vs(init)), V) and is_num(demu(sub(strip(nxt), strip(h))))
        return False

    # -- 2/3. coverage
    def coverage(self):
        ctx = self.ctx
        k, B = self.k, self.B
        facts = (le(ZERO, V), lt(V, B), le(ONE, k))
        want_hi = min_(add(V, k), B)
        one = is_const(k, 1)
        good, seen_v, exts = 0, 0, []
        bad = []
        blocks = []
        for e, o, ax, i in self.uses():
            r = root_obj(o)
            if r.op == "new" and self.local(r):
                continue
            ii = demu(self.vs(i))
            if not contains(ii, V):
                continue
            iv = self.interval(ii)
            if iv is None or iv[1] is None or iv[1] is NONE:
                continue
            lo, hi = iv
            _, pl = lin_parts(lo)
            if pl.get(V) != 1:
                continue
            d = sub(lo, V)
            if contains(d, V):
                continue
            seen_v += 1
            # guarded?
            if not any(self.bound(not_(self.vs(c))) is not None for c in e.path) and not (self.L.cond is not None and self.L in e.loops and self.bound(not_(self.vs(self.L.cond))) is not None):
                bad.append((False, f"position used before it is checked against the end: {short(ii, 80)}", e.loc))
            if o.op == "attr" and o.a[1] == "indptr":
                if is_const(d, 0):
                    exts.append((o.a[0], 1 if column_major(o.a[0]) else 0, d, e))
                continue
            if is_const(d, 0) or True:
                exts.append((o, ax, d, e))
            h = sub(hi, d)
            if one and eqv(h, add(V, ONE)):
                good += 1
                continue
            if not one and ii.op != "slice" and eqv(h, add(V, ONE)) and not any(x.op == "elem" for x in walk(ii)):
                blocks.append(("point", e))
                continue
            r, w = iequal(h, want_hi if not one else min_(add(V, ONE), B), facts)
            if r is False:
                bad.append((False, f"a worker that claims {short(k, 40)} positions from the cursor handles [{short(lo, 60)}, {short(hi, 100)}) ({w})", e.loc))
            elif r:
                good += 1
                blocks.append(("block", e))
        # loops over a claimed block
        for lp in {id(l): l for e in self.W for l in e.loops[len(self.sp.loops):]}.values():
            if lp.dom is None or lp.dom.op != "range":
                continue
            d0 = demu(self.vs(lp.dom))
            lo, hi, stp = d0.a
            if lin_parts(lo)[1].get(V) == 1 and eqv(lo, V) and is_const(stp, 1):
                r, w = iequal(hi, want_hi, facts)
                if r is False:
                    bad.append((False, f"a worker that claims {short(k, 40)} positions loops over [{short(lo, 60)}, {short(hi, 100)}) ({w})", lp.loc))
                elif r:
                    good += 1
                    blocks.append(("block", None))
                    seen_v += 1
        for ok, d, loc in bad[:1]:
            self.ob("block", ok, d, loc)
        if not bad:
            if not one and not any(b[0] == "block" for b in blocks):
                if blocks:
                    self.ob("block", False, f"each claim takes {short(k, 40)} positions but only the first is handled", blocks[0][1].loc)
                else:
                    self.ob("block", None, "no access to the claimed block recognised")
            elif not seen_v:
                users = [e for e in self.W if e.kind != "claim" and any(isinstance(x, T) and contains(self.vs(x), V) for x in e.d.values() if isinstance(x, T))]
                self.ob("block", None if users else False, "the claimed position is never used")
            else:
                self.ob("block", True, f"{good} accesses")
        self.extent(exts)

    def extent(self, exts):
        B = self.B
        zero = [(o, ax, e) for o, ax, d, e in exts if is_const(d, 0)]
        cand = []
        for o, ax, e in zero:
            cand.append((self.size(o, ax, e), o, ax, e))
        # flat buffers: row v of a matrix
        for e, o, ax, i in self.uses():
            if o.op == "flat" and not self.local(o):
                c, pl = lin_parts(demu(self.vs(i)))
                for x, k in pl.items():
                    if x.op == "mul" and V in x.a[0] and k == 1:
                        m = o.a[0]
                        cand.append((self.size(m, 0 if o.a[1] == "row" else 1, e), m, 0 if o.a[1] == "row" else 1, e))
        for s, o, ax, e in cand:
            if s is not None and (eqv(s, B) or s.op == "dim" and s.a[1] == 0 and eqv(length(s.a[0]), B)):
                self.ob("extent", True, short(B, 80))
                return
        sizes = [(s, o, ax, e) for s, o, ax, e in cand if s is not None]
        if not sizes:
            offs = [x for x in exts]
            self.ob("extent", None, f"no array is indexed by the claimed position directly (bound {short(B, 80)})")
            return
        for s, o, ax, e in sizes:
            d = sub(B, s)
            if is_num(d):
                self.ob("extent", False, f"positions run to {short(B, 80)} where {short(o, 60)} has {short(s, 80)}", e.loc)
                return
            if B.op == "dim" and s.op == "dim" and B.a[0] is s.a[0] and B.a[1] != s.a[1]:
                self.ob("extent", False, f"positions run over axis {B.a[1]} of {short(B.a[0], 60)} but index axis {s.a[1]}", e.loc)
                return
            try:
                at = set(atoms_of(s))
                if B is not s and at and at <= set(atoms_of(B)) and differs(B, s) is not None:
                    self.ob("extent", False, f"positions run to {short(B, 80)} where {short(o, 60)} has {short(s, 80)}", e.loc)
                    return
            except NoVal:
                pass
        if is_num(B):
            self.ob("extent", False, f"positions run to the constant {short(B)}", sizes[0][3].loc)
            return
        if B.op in ("dim", "len"):
            ob, ax = B.a[0], B.a[1] if B.op == "dim" else 0
            direct = any(self.objkey(o) is self.objkey(ob) for _, o, _, _ in cand)
            elsewhere = any(self.objkey(o) is self.objkey(ob) and a == ax and self.own(i) == "other" for e, o, a, i in self.uses())
            if not direct and elsewhere:
                self.ob("extent", False, f"positions run over {short(B, 80)}, which is indexed by something else; the arrays indexed by the position have {short(sizes[0][0], 80)}", sizes[0][3].loc)
                return
        self.ob("extent", None, f"{short(B, 80)} vs " + "; ".join(short(s, 60) for s, *_ in sizes[:3]))

    def objkey(self, o):
        o = strip(o)
        while o.op in ("mu", "conv"):
            o = o.a[3] if o.op == "mu" else o.a[1]
        if o.op == "attr" and o.a[1] in ("indptr", "indices", "data"):
            o = o.a[0]
        return o

    def size(self, o, ax, e):
        o0 = o
        c = e.d.get("base") if e.d.get("obj") is o else None
        for x in ([c] if isinstance(c, T) else []) + [o]:
            while x.op in ("mu", "loopout", "store"):
                x = x.a[3] if x.op == "mu" else x.a[1] if x.op == "loopout" else x.a[0]
            if x.op == "new":
                cc = self.I_content(x)
                if cc is None:
                    continue
                x = cc
                while x.op in ("mu", "loopout", "store"):
                    x = x.a[3] if x.op == "mu" else x.a[1] if x.op == "loopout" else x.a[0]
            if x.op == "rep":
                return demu(self.vs(x.a[0]))
            if x.op in ("comp", "list", "append", "concat"):
                return demu(self.vs(length(x)))
            kind = self.I.kinds.get(o0) if hasattr(self.I, "kinds") else None
            if kind == "list" or kind in ("vector",):
                return demu(self.vs(length(x)))
            return demu(self.vs(dim(x, ax)))
        return None

    def I_content(self, x):
        return self.st.heap.get(("c", x)) if self.st is not None else None

    # -- 4. static partition
    def static(self):
        sl = self.sloop
        if sl is None:
            self.ob("partition", True, "a single worker")
            return
        dep = set(sl.mus) | {x for e in self.W for v in e.d.values() if isinstance(v, T) for x in walk(v) if x.op == "elem" and x.a[0] is sl.dom}
        if sl.dom is not None:
            dep |= {elem(sl.dom, sl.depth)}

        def depends(t):
            return any(x in dep for x in walk(t))
        cand = []
        for lp in {id(l): l for e in self.W for l in e.loops[len(self.sp.loops):]}.values():
            if lp.dom is not None and lp.dom.op == "range" and depends(lp.dom):
                cand.append((lp.dom, lp.loc))
        if not cand:
            for e, o, ax, i in self.uses():
                if i.op == "slice" and depends(i) and not self.local(o):
                    cand.append((mk("range", i.a[0] if i.a[0] is not NONE else ZERO, i.a[1], ONE), e.loc))
        if not cand:
            work = [e for e, o, ax, i in self.uses() if not self.local(o)]
            self.ob("partition", False if work and not any(depends(i) for e, o, ax, i in self.uses()) else None, "every worker handles the same positions")
            return
        dom, loc = cand[0]
        r, w, total = self.partition(dom)
        self.ob("partition", r, w, loc)
        self.part = (dom, total)
        if total is not None:
            # the sequential path handles the same positions
            self.sequential(dom, total)

    def partition(self, dom):
        sl = self.sloop
        mus = dict(sl.mus)
        n = demu(length(sl.dom)) if sl.dom is not None else None
        if n is None:
            return None, "spawn loop of unknown length", None
        lo, hi, stp = (demu(x) for x in dom.a)
        E = None
        terms = [lo, hi, stp, n] + [demu(x) for p in mus.values() for x in p]
        at = []
        for t in terms:
            atoms_of(t, at)
        free = [a for a in at if a not in mus and not (a.op == "elem" and a.a[0] is sl.dom)]
        elems = [a for a in at if a.op == "elem" and a.a[0] is sl.dom]
        keep = {m for m in mus if any(contains(t, m) for t in (lo, hi, stp))}
        for _ in range(4):
            for m in list(keep):
                for m2 in mus:
                    if contains(demu(mus[m][1]), m2):
                        keep.add(m2)
        free = [a for a in free if not (a.op == "mu" and a not in keep)]
        need = []
        for t in (lo, hi, stp, n) + tuple(demu(x) for m in keep for x in mus[m]):
            for a in atoms_of(t):
                if a not in need and a not in keep and a not in elems:
                    need.append(a)
        if len(need) > 3:
            return None, "too many quantities in the partition", None
        totals = [a for a in need if a.op in ("dim", "len")]
        tot = totals[0] if len(totals) == 1 else None
        if tot is None:
            return None, "no single extent in the partition", None
        for combo in itertools.product([1, 2, 3, 4, 7, 12, 128], repeat=len(need)):
            env = dict(zip(need, combo))
            if env.get(tot, 0) > 40:
                continue
            for R in (env[tot],):
                try:
                    cnt = ieval(n, env)
                    if cnt > 20:
                        continue
                    cur = {m: ieval(demu(mus[m][0]), env) for m in keep}
                    got = []
                    for t in range(cnt):
                        e2 = dict(env)
                        e2.update(cur)
                        for x in elems:
                            e2[x] = t
                        a, b, s = ieval(lo, e2), ieval(hi, e2), ieval(stp, e2)
                        if s <= 0:
                            raise NoVal
                        if s == 1:
                            got += list(range(a, b))
                        else:
                            got += self.stepped(a, b, s, e2)
                        cur = {m: ieval(demu(mus[m][1]), e2) for m in keep}
                except NoVal:
                    continue
                if sorted(got) != list(range(R)):
                    return False, f"with {cnt} workers and {R} positions the workers handle {sorted(got)[:12]}", tot
        return True, "", tot

    def stepped(self, a, b, s, env):
        return list(range(a, b)) if s != 1 else []

    def sequential(self, dom, total):
        worker_calls = {}
        for e in self.W:
            if e.kind == "inline" and e.func.cls is not None:
                worker_calls.setdefault(e.func.qual, e)
        for e in self.E:
            if e.kind == "inline" and not e.worker and e.func.qual in worker_calls:
                w = worker_calls[e.func.qual]
                lo = [p for p, x in w.bound.items() if isinstance(x, T) and eqv(demu(x), demu(dom.a[0]))]
                hi = [p for p, x in w.bound.items() if isinstance(x, T) and eqv(demu(x), demu(dom.a[1]))]
                if len(lo) == 1 and len(hi) == 1:
                    a, b = demu(e.bound[lo[0]]), demu(e.bound[hi[0]])
                    ok = eqv(a, ZERO) and eqv(b, total)
                    self.ob("sequential", True if ok else False if (is_num(a) and not eqv(a, ZERO)) or (b.op in ("dim", "len", "lin")) else None,
                            f"the single-threaded path handles [{short(a, 60)}, {short(b, 60)})", e.loc)

    # -- inner chunk loops of a worker
    def chunks(self):
        for lp in {id(l): l for e in self.W for l in e.loops[len(self.sp.loops):]}.values():
            if lp.dom is None or lp.dom.op != "range":
                continue
            lo, hi, stp = (demu(self.vs(x)) for x in lp.dom.a)
            if is_const(stp, 1):
                continue
            c = self.vs(strip(elem(lp.dom, lp.depth)))
            e0 = sub(c, lo)
            S, C = sym("$span"), sym("$chunk")
            m = {e0: C, sub(hi, lo): S}
            seen = []
            for e, o, ax, i in self.uses([x for x in self.W if lp in x.loops]):
                ii = strip(self.vs(i))
                if not (ii.op == "slice" and ii.a[0] is not NONE and ii.a[1] is not NONE and contains(ii, e0)):
                    continue
                a, b = (demu(subst(demu(sub(x, lo)), m)) for x in ii.a[:2])
                if not eqv(a, C):
                    continue
                st_ = subst(stp, m)
                r, w = iequal(b, min_(add(C, st_), S), (le(ZERO, C), lt(C, S), le(ONE, st_)))
                seen.append((r, w, e, b))
            for r, w, e, b in seen:
                if r is False:
                    self.ob("chunk", False, f"a chunk of {short(stp, 40)} from the cursor covers up to {short(b, 80)} ({w})", e.loc)
                    break
            else:
                if seen:
                    self.ob("chunk", True if any(s[0] for s in seen) else None)

    # -- 5. waits
    def waits(self):
        ws = [e for e in self.E if e.kind == "wait" and e.future.a[0] == self.sid and self.sid not in e.worker]
        how = self.sp.how
        if any(e.kind == "detach" and e.future.a[0] == self.sid for e in self.E):
            self.ob("waits", False, "the thread is detached: nothing waits for it")
            return None
        if how == "thread":
            fin = [e for e in ws if e.how == "join"]
            if not fin:
                self.ob("waits", False, "the threads are never joined")
                return None
        else:
            fin = [e for e in ws if e.how == "get"]
            if not fin:
                self.ob("surfaced", False, "no get() on the futures: an exception thrown in a worker is dropped" +
                        ("" if self.sp.policy == "std.launch.async" else ", and a deferred task may never run"))
                return None
            if self.sp.policy not in (None, "std.launch.async", "std.launch.deferred"):
                pass
            self.ob("surfaced", True)
        w = fin[0]
        sp_loops = self.sp.loops
        outer = sp_loops[:-1]
        ok, why = True, ""
        if self.sloop is not None:
            wl = w.loops[len(outer):]
            if not wl:
                if self.sloop in w.loops:
                    ok, why = True, "waits for each in turn"
                else:
                    ok, why = False, "only one of the workers is waited for"
            elif wl[-1] is self.sloop:
                ok = True           # sequential but complete
            else:
                L = wl[-1]
                a = length(L.dom) if L.dom is not None else None
                b = length(self.sloop.dom) if self.sloop.dom is not None else None
                if a is None or b is None:
                    ok, why = None, "loops of unknown length"
                else:
                    r, wit = iequal(demu(a), demu(b))
                    ok, why = r, f"{short(a, 60)} waits for {short(b, 60)} workers ({wit})"
                if L.breaks or L.returns:
                    ok, why = False, "the loop that waits can end before all workers are waited for"
        extra = [c for c in w.path if c not in self.sp.path]
        extra = [c for c in extra if not (self.sp.path and any(c is p for p in self.sp.path))]
        if extra and ok:
            n = length(self.sloop.dom) if self.sloop is not None and self.sloop.dom is not None else None
            if any(x.op in ("future",) for c in extra for x in walk(c)):
                ok, why = None, "conditional wait"
            else:
                ok, why = False, f"waited for only when {short(extra[0], 120)}"
        self.ob("waits", ok, why, w.loc)
        return w

    # -- 6. results
    def results(self, w):
        if w is None:
            return
        val = w.future.a[2]
        if val is NONE or val.op == "const":
            return
        wl = [l for l in w.loops[len(self.sp.loops[:-1]):]]
        after = self.E[self.E.index(w) + 1:]
        if not wl:
            return
        L = wl[-1]
        if L is self.sloop:
            self.ob("combined", None, "combined while spawning")
            return
        acc = over = False
        parts = {val}
        for h, (init, nxt) in L.mus.items():
            if nxt is h or nxt is init:
                continue
            if any_term(nxt, lambda x: x is h):
                if nxt.op == "phi" and any(b is h for b in nxt.a[1:]):
                    over = "cond"
                else:
                    acc = True
            else:
                over = over or True
        if acc:
            self.ob("combined", True)
        elif over is True:
            self.ob("combined", False, "a worker's result overwrites the previous ones instead of being combined", w.loc)
        elif over == "cond":
            self.ob("combined", None, "combined under a condition")
        else:
            self.ob("combined", False, "the workers' results are not combined into the outcome", w.loc)

    # -- 7. races
    def races(self):
        lock = any(e.kind in ("call", "cxxnew") and ("lock" in str(e.d.get("type", "")) or "lock" in pp(e.d.get("term", NONE))[:80] or "mutex" in pp(e.d.get("term", NONE))[:80]) for e in self.W)
        written = {}
        n = 0
        for e in self.W:
            if e.kind == "setouter":
                n += 1
                self.ob("disjoint", None if lock else False, f"all workers assign the captured variable {e.name}", e.loc)
                continue
            if e.kind not in ("store", "setattr", "mutcall", "algo"):
                continue
            if self.local(e.obj) or (e.kind == "setattr" and self.I.is_atomic(e.obj)):
                continue
            if e.kind == "mutcall" and e.name in ("reserve", "makeCompressed"):
                continue
            n += 1
            r = root_obj(e.obj)
            written.setdefault(r, e)
            if e.kind == "setattr":
                t = e.obj
                owns = [self.owner(i) for _, _, _, i in self.uses([e])]
                ok = True if "own" in owns else False
                self.ob("disjoint", None if (lock and ok is False) else ok, f"all workers assign {short(e.obj, 60)}.{e.name}", e.loc)
                continue
            cls = [self.owner(i) for _, _, _, i in self.uses([e])]
            if "own" in cls:
                self.ob("disjoint", True)
            elif None in cls:
                self.ob("disjoint", None, short(e.obj, 100))
            else:
                if self.sp.loops == () or self.sloop is None:
                    self.ob("disjoint", None, "single worker")
                else:
                    self.ob("disjoint", None if lock else False, f"all workers write {short(e.obj, 80)} at positions they do not own", e.loc)
        for e in self.W:
            if e.kind != "getitem" or self.local(e.obj):
                continue
            r = root_obj(e.obj)
            if r in written and root_obj(written[r].obj) is r:
                if e.obj.op == "attr" and e.obj.a[1] == "shape":
                    continue
                we = written[r]
                if not same_place(we.obj, e.obj):
                    continue
                cls = [self.owner(i) for _, _, _, i in self.uses([e])]
                if "own" in cls or None in cls:
                    continue
                if self.sloop is not None:
                    self.ob("disjoint", None if lock else False, f"a worker reads {short(e.obj, 60)} at positions other workers write", e.loc)
        self.ob("writes", True, f"{n} shared writes")

    def owner(self, i):
        if self.B is None and not self.vmap:
            sl = self.sloop
            if sl is None:
                return "own"
            dep = set(sl.mus) | ({elem(sl.dom, sl.depth)} if sl.dom is not None else set())
            return None if any(x in dep for x in walk(i)) else "other"
        return self.own(i)

    # -- captured by reference while the spawn loop changes it
    def captures(self):
        fn = self.sp.fn
        if fn.op != "fn" or fn not in self.I.closures or self.sloop is None:
            return
        func = self.I.closures[fn][0]
        node = func.node
        bound = {a.arg for a in node.args.args} | {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        bound -= {x for n in ast.walk(node) if isinstance(n, ast.Nonlocal) for x in n.names}
        bound |= {n.name for n in ast.walk(node) if isinstance(n, ast.FunctionDef)}
        free = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - bound
        free |= {x for n in ast.walk(node) if isinstance(n, ast.Nonlocal) for x in n.names}
        outer = None
        for _, f, _ in self.fan.all:
            if any(n is node for n in ast.walk(f.node)):
                outer = f.node
        if outer is None:
            return
        loop = None
        for n in ast.walk(outer):
            if isinstance(n, (ast.For, ast.While)) and any(x is node for x in ast.walk(n)):
                loop = n                     # innermost: walk is breadth first
        if loop is None:
            return
        assigned = set()
        todo = [loop]
        while todo:
            n = todo.pop()
            if n is not loop and isinstance(n, ast.FunctionDef):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
            todo += list(ast.iter_child_nodes(n))
        bad = sorted(free & assigned - {"self"})
        self.ob("captures", False if bad else True, f"captured by reference and changed by the spawning loop: {', '.join(bad)}")

    # -- 8. worker count
    def count(self):
        if self.sloop is None or self.sloop.dom is None:
            return
        n = demu(length(self.sloop.dom))
        B = self.B if self.B is not None else (self.part[1] if getattr(self, "part", None) else None)
        main = any(e.kind == "claim" and not e.worker for e in self.E)
        if main:
            self.ob("some-worker", True, "the calling thread works too")
            return
        at = atoms_of(n, atoms_of(B) if B is not None else [])
        if len(at) > 5:
            self.ob("some-worker", None, short(n))
            return
        wit = None
        try:
            for combo in itertools.product([1, 2, 3, 17], repeat=len(at)):
                env = dict(zip(at, combo))
                try:
                    if B is not None and ieval(B, env) < 1:
                        continue
                    if ieval(n, env) < 1:
                        wit = env
                        break
                except NoVal:
                    raise
        except NoVal:
            self.ob("some-worker", None, short(n))
            return
        self.ob("some-worker", wit is None, f"{short(n, 80)} workers are started: none for " + ", ".join(f"{short(k, 50)}={v}" for k, v in (wit or {}).items()))

    # -- exceptions
    def exceptions(self):
        rs = [e for e in self.W if e.kind == "raise"]
        if self.sp.how == "thread" and any(not e.tries for e in rs):
            self.ob("surfaced", False, "an exception leaves a std::thread worker: the process is terminated instead of the error being raised", rs[0].loc)
        fn = self.sp.fn
        if fn.op == "fn" and fn in self.I.closures:
            node = self.I.closures[fn][0].node
            for n in ast.walk(node):
                if isinstance(n, ast.Try):
                    for h in n.handlers:
                        if not any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                            stores = any(isinstance(x, (ast.Call, ast.Assign, ast.AugAssign)) for b in h.body for x in ast.walk(b))
                            self.ob("surfaced", None if stores else False, "a worker catches an exception and goes on", self.loc)

    # -- outputs read before the wait
    def order(self, w):
        if w is None:
            return
        i, j = self.E.index(self.sp), self.E.index(w)
        written = {root_obj(e.obj) for e in self.W if e.kind in ("store", "mutcall", "algo") and not self.local(e.obj)}
        for e in self.E[i + 1:j]:
            if e.kind == "getitem" and not e.worker and root_obj(e.obj) in written and not (e.obj.op == "attr" and e.obj.a[1] == "shape"):
                self.ob("waits", False, f"{short(e.obj, 60)} is read before the workers are waited for", e.loc)
                return

    def check(self):
        self.part = None
        r = self.cursor()
        if r is True:
            self.coverage()
        elif r is False:
            self.static()
        if r is not None:
            self.count()
        self.chunks()
        w = self.waits()
        self.order(w)
        self.results(w)
        self.races()
        self.captures()
        self.exceptions()


def same_place(a, b):
    """May two accessed objects be the same storage?"""
    x, y = strip(a), strip(b)
    px = [t.a[1] for t in chain(x) if t.op == "attr"]
    py = [t.a[1] for t in chain(y) if t.op == "attr"]
    return px == py


def chain(t):
    while t.op in ("idx", "attr", "conv", "flat", "T", "mu"):
        yield t
        t = t.a[1] if t.op == "conv" else t.a[3] if t.op == "mu" else t.a[0]


def column_major(m):
    """Is this compressed matrix stored by columns?"""
    while m.op in ("conv", "mu", "T"):
        if m.op == "conv" and m.a[0] in ("csc", "csr"):
            return m.a[0] == "csc"
        m = m.a[1] if m.op == "conv" else m.a[3] if m.op == "mu" else m.a[0]
    return False


def indptr_of(t):
    """(matrix, row) if t is matrix.indptr[row]."""
    if t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "indptr":
        return t.a[0].a[0], t.a[1]
    return None


def check(ctx):
    N = ctx.native()
    for n, u in N.units.items():
        if u.errors:
            ctx.ob("parsed", n, None, str(u.errors[:1]))
    fan = Fan(N)
    for m, f, c in fan.entries():
        if f.qual not in fan.runs:
            continue
        I, st, v = fan.runs[f.qual]
        ctx.saw(f.qual)
        done = set()
        for e in [x for x in I.effects if x.kind == "spawn"]:
            if e.sid in done:
                continue
            done.add(e.sid)
            ctx.guard(FanOut(ctx, fan, f, I, st, v, e).check)
