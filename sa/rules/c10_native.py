"""C10 on the native side: engines, draws in workers, uninitialised parameters."""
import ast

from ..common import *
from ..norm import norm
from ..entries import entries, bindings, reaching
from .c11 import demu, spawn_call, calls_in

GLOBAL = {"rand", "srand", "random", "drand48", "lrand48", "rand_r", "arc4random", "setRandom", "time", "clock", "gettimeofday", "clock_gettime", "getpid", "get_id", "random_shuffle"}
CLOCKS = {"steady_clock", "system_clock", "high_resolution_clock"}


def engine_type(ty):
    return "engine" in ty or "mt19937" in ty or "minstd" in ty or "ranlux" in ty


def scan(ctx, m, f):
    """Process-global generators, entropy sources and clocks."""
    hits = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            x = n.func
            name = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else ""
            base = ast.unparse(x.value) if isinstance(x, ast.Attribute) else ""
            if name in GLOBAL and not (name == "random" and base):
                hits.append((n, name))
            elif name == "Random" and base == "cxx":
                hits.append((n, "Eigen's Random()"))
            elif name == "now" and any(c in base for c in CLOCKS):
                hits.append((n, base + ".now"))
            elif name == "new" and base == "cxx" and n.args and isinstance(n.args[0], ast.Constant) and "random_device" in str(n.args[0].value):
                hits.append((n, "std::random_device"))
    ctx.ob("native-no-global-source", f.qual, not hits, "; ".join(f"{w} at line {n.lineno}" for n, w in hits), f.loc())


def static_engines(ctx, m, unit):
    """A generator that outlives the call carries its state into the next one."""
    for fn in unit.fns.values():
        d = getattr(fn, "decl", None)
        if not d or not hasattr(fn, "pyname"):
            continue
        todo = [d]
        while todo:
            n = todo.pop()
            todo.extend(x for x in n.get("inner", ()) if isinstance(x, dict))
            if n.get("kind") == "VarDecl" and (n.get("storageClass") == "static" or n.get("tls")):
                ty = n.get("type", {})
                ty = ty.get("desugaredQualType") or ty.get("qualType", "")
                if engine_type(ty) or "distribution" in ty or "random_device" in ty:
                    ctx.ob("native-engine-per-call", f"{m}.{fn.pyname} {n.get('name')}", False,
                           f"the generator {n.get('name')} is kept from one call to the next, so equal calls with equal seeds draw differently", n.get("_line") or "")


def overwritten(t, n=None):
    """The element loop writes every element; returns the value written, else None."""
    if t.op == "algo" and t.a[0] == "iota":
        return ZERO
    if t.op != "loopout":
        return None
    d, base, body = t.a[:3]
    if d.op != "range" or not is_const(d.a[0], 0) or not is_const(d.a[2], 1):
        return None
    if body.op != "store" or body.a[1] is not elem(d, 0):
        return None
    ln = demu(length(base))
    r = base
    while r.op in ("mu", "store", "loopout", "algo"):
        r = r.a[3] if r.op == "mu" else r.a[0] if r.op == "store" else r.a[1]
    if r.op == "rep":
        ln = r.a[0]
    if norm(demu(d.a[1])) is not norm(demu(ln)):
        return None
    return body.a[2]


def carries(t, L, _memo=None):
    """Does the content depend on what an earlier round of loop L left?"""
    memo = _memo if _memo is not None else {}
    if t in memo:
        return memo[t]
    memo[t] = False
    if t in L.mus:
        r = True
    else:
        w = overwritten(t)
        r = carries(w, L, memo) if w is not None else any(carries(c, L, memo) for c in children(t) if isinstance(c, T))
    memo[t] = r
    return r


def seeds_again(y, g):
    if y.kind == "mutcall":
        return y.name == "seed" and contains(y.obj, g)
    f = y.d.get("fn")
    return isinstance(f, T) and f.op == "attr" and f.a[1] == "seed" and contains(f.a[0], g)


def seeds(ctx, N, e, I):
    E = I.effects
    made = {x.term: x for x in E if x.kind == "cxxnew" and engine_type(x.type)}
    for t, x in made.items():
        bad = None
        for a in x.args:
            for y in walk(strip(a)):
                if y.op == "sym" and y.a[0] not in e.func.all_params() and y.a[0] != "self":
                    pass
                if y.op == "call" and y.a[0].op in ("ext", "attr", "new") and not str(y.a[0]).startswith(("math.", "cxx.claim", "cxx.cast")):
                    bad = bad or y
        ctx.ob("native-seed-source", f"{e.qual} {short(t, 30)}", bad is None, f"the generator is seeded with {short(bad, 100) if bad is not None else ''}", x.loc)
    # draws inside workers that take positions dynamically
    claims = [x for x in E if x.kind == "claim"]
    for x in E:
        if x.kind != "algo" or not x.d.get("worker"):
            continue
        gens = [a for a in x.iargs if a in made]
        if not gens:
            continue
        for c in claims:
            if c.worker != x.worker or not c.loops or c.loops[-1] not in x.loops:
                continue
            L = c.loops[-1]
            g = made[gens[0]]
            reseeded = any(y.kind in ("mutcall", "call") and L in y.loops and y.loops[:x.loops.index(L) + 1] == x.loops[:x.loops.index(L) + 1] and seeds_again(y, gens[0]) for y in E)
            q = f"{e.qual} {x.name}"
            ctx.ob("native-schedule-free-generator", q, L in g.loops or reseeded,
                   "the worker's generator keeps its state from the positions this worker happened to take before: the draws for a position depend on thread scheduling", x.loc)
            ctx.ob("native-schedule-free-order", q, not carries(x.old, L),
                   "the rearranged sequence is what this worker's earlier positions left behind: the order for a position depends on thread scheduling", x.loc)
            # a generator that depends on which worker it is
            sl = [l for l in x.loops if l is not L and x.loops.index(l) < x.loops.index(L)]
            dep = [a for a in g.args for l in sl for y in walk(strip(a)) if y.op == "elem" and y.a[0] is l.dom]
            ctx.ob("native-schedule-free-seed", q, not dep, "the generator is seeded by the number of the worker that happened to take the position", x.loc)
    # draws through a distribution object inside such workers
    for x in E:
        if x.kind == "call" and x.d.get("worker") and isinstance(x.d.get("fn"), T) and x.fn.op == "new" and "distribution" in str(x.fn.a[0]):
            for a in x.args:
                if a in made:
                    for c in claims:
                        if c.worker == x.worker and c.loops and c.loops[-1] in x.loops:
                            ctx.ob("native-schedule-free-generator", f"{e.qual} draw", c.loops[-1] in made[a].loops,
                                   "the worker's generator keeps its state from the positions this worker happened to take before", x.loc)


def filled(t):
    """Every cell has been written: True, False (some memory is as allocated), None."""
    if t.op == "phi":
        r = [filled(x) for x in t.a[1:]]
        return False if False in r else None if None in r else True
    if t.op == "empty":
        sh = t.a[0]
        return sh.op == "tuple" and any(is_const(x, 0) for x in sh.a[0])
    if t.op == "mu":
        return filled(t.a[3])
    if t.op == "store":
        if t.a[1].op == "slice" or str(t.a[1]) in ("::", "t[::, ::]"):
            return True
        return filled(t.a[0])
    if t.op == "loopout":
        d, base, body = t.a[:3]
        if filled(base):
            return True
        if not any(x.op == "empty" for x in walk(base)):
            return None
        return True if covers(t) else None if covers(t) is None else False
    return True if t.op in ("zeros", "ones", "const", "made", "rep") else None


def covers(t):
    """Nested element loops that run over every row and column of the array."""
    doms = []
    b = t
    while b.op == "loopout":
        doms.append((b.a[0], b.a[1]))
        b = b.a[2]
    if b.op != "store":
        return None
    i = b.a[1]
    ix = list(i.a[0]) if i.op == "tuple" else [i]
    root_ = t.a[1]
    while root_.op in ("mu", "store", "loopout"):
        root_ = root_.a[3] if root_.op == "mu" else root_.a[0] if root_.op == "store" else root_.a[1]
    if root_.op != "empty":
        return None
    sh = root_.a[0].a[0] if root_.a[0].op == "tuple" else [root_.a[0]]
    if len(ix) == 1 and len(sh) > 1:
        # row by row
        sh = sh[:1]
    if len(ix) != len(sh):
        return None
    ok = True
    for x, n in zip(ix, sh):
        if x.op == "slice":
            continue
        if x.op != "elem" or x.a[0].op != "range":
            return None
        d = x.a[0]
        hi = norm(demu(d.a[1]))
        if not is_const(d.a[0], 0) or not is_const(d.a[2], 1):
            ok = False
            continue
        if hi is not norm(demu(n)):
            ok = False if hi.op in ("dim", "attr", "sym", "lin", "const") else None
    return ok


def reads(c, name):
    for k in c.mro():
        for f in k.methods.values():
            if f.name.startswith("__"):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load):
                    return True
    return False


def initial(ctx, N, e, I, st, fields):
    o = sym("self")
    for (k, x) in list(st.heap.items()):
        if k[0] != "a" or k[1] is not o:
            continue
        c = st.heap.get(("c", x))
        if c is None or not any(y.op == "empty" for y in walk(c)):
            continue
        if (e.reg.cls, k[2]) not in fields and not reads(e.cls, k[2]):
            continue
        ok = filled(strip(c))
        ctx.ob("native-initialised", f"{e.qual} {e.cls.name} {k[2]}", ok, f"after construction {k[2]} still holds memory as it was allocated: {short(c, 160)}", e.func.loc())


def native(ctx):
    N = ctx.native()
    for m, f, c in N.funcs():
        ctx.saw(f.qual)
        scan(ctx, m, f)
    fields = set()
    for m, b in bindings(N).items():
        static_engines(ctx, m, b.unit)
        fields |= {(r.cls, r.name) for r in b.regs if r.kind == "field"}
    draw = reaching(N, lambda f: any(isinstance(c.func, ast.Attribute) and c.func.attr == "new" and c.args and isinstance(c.args[0], ast.Constant)
                                     and engine_type(str(c.args[0].value)) for c in calls_in(f.node)))
    for e in entries(N):
        if e.reg.kind == "init" and e.cls is not None:
            ctx.guard(ctor, ctx, N, e, fields)
        elif e.func.name in draw:
            ctx.guard(entry, ctx, N, e)


def ctor(ctx, N, e, fields):
    I, st, v = N.run(e.func, e.cls)
    seeds(ctx, N, e, I)
    initial(ctx, N, e, I, st, fields)


def entry(ctx, N, e):
    I, st, v = N.run(e.func, e.cls)
    seeds(ctx, N, e, I)
