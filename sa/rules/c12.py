"""C12: one rule for thread counts, handed to every native call."""
from ..common import *
from ..norm import norm, eqv
from ..entries import entries, reaching
from ..native import NativeInterp
from .c11 import calls_in, spawn_call
from .c16 import concrete, members

LEVEL = "proof"
TECHNIQUE = "static analysis: interprocedural value-flow from every thread option to every native thread argument; native entry-point guards over the C++ syntax tree"
MIN_OBLIGATIONS = 30
EXPLANATION = ("The resolution function is summarised as a gated value and compared case by case (given / environment set / unset). Every entry point with a thread option is analysed and each native call "
               "reached from it must receive exactly that resolved value as its thread argument. Native parallel entry points must refuse zero threads before any work.")
ASSUMPTIONS = ["stub signatures name the native thread parameters (C17)"]

N = sym("n_threads")
KEY = "IRSPACK_NUM_THREADS_DEFAULT"


def env_read(x):
    """(default) when x reads the environment variable."""
    if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("os.environ.get", "os.getenv") and x.a[1] and x.a[1][0] is const(KEY):
        d = x.a[1][1] if len(x.a[1]) > 1 else dict(x.a[2]).get("default", NONE)
        return d
    if x.op == "idx" and x.a[0].op == "ext" and x.a[0].a[0] == "os.environ" and x.a[1] is const(KEY):
        return NONE
    return None


def present(x):
    """Condition `KEY in os.environ`."""
    return x.op == "in" and x.a[0] is const(KEY) and x.a[1].op == "ext" and x.a[1].a[0] == "os.environ"


def case(t, is_set):
    """t with the environment variable set (to ENV) or unset."""
    env = sym("ENV")

    def f(x):
        if x.op == "sym" or x.op == "const":
            return x
        y = rebuild(x, f)
        d = env_read(y)
        if d is not None:
            return env if is_set else d
        if present(y):
            return TRUE if is_set else FALSE
        if y.op == "isnone" and y.a[0] is env:
            return FALSE
        return y
    return norm(f(t))


def to_int(t):
    """x when t is int(x), else None."""
    if t.op == "toint" or t.op == "int":
        return t.a[0]
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.int" and len(t.a[1]) == 1:
        return t.a[1][0]
    if t.op == "conv" and t.a[0] == "int":
        return t.a[1]
    return None


def is_cpu(x):
    return x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("os.cpu_count", "multiprocessing.cpu_count")


def resolution(ctx):
    f = ctx.proj.func("irspack._threading.get_n_threads")
    I, st, v = analyse(ctx, f, args={f.params()[0]: N})
    v = strip(I.deep(v, st))
    q = f.qual
    g = norm(assume(v, isnone(N), False))
    ctx.ob("given-is-used", q, g is N, f"an explicit thread count becomes {short(g, 150)}", f.loc())
    z = norm(assume(v, isnone(N), True))
    cpu = mk("call", mk("ext", "os.cpu_count"), (), ())
    env = sym("ENV")
    for name, is_set, src in (("set", True, env), ("unset", False, None)):
        t = case(z, is_set)
        for cs, leaf in hoist(t):
            cs = [c for c in cs if c.op != "raised" and not (c.op == "not" and c.a[0].op == "raised")]
            inner = to_int(leaf)
            if is_set:
                # an empty string counts as no value
                ok = inner is env or ((inner or leaf).op == "const" and not_(mk("truth", env)) in cs)
            else:
                none = any((c.op == "not" and c.a[0].op == "truth" and is_cpu(c.a[0].a[0])) or (c.op == "isnone" and is_cpu(c.a[0])) for c in cs)
                x = inner if inner is not None else leaf
                ok = is_cpu(x) or (none and x.op == "const" and isinstance(x.a[0], int) and x.a[0] >= 1)
            ctx.ob("environment-decides", f"{q} {name}", bool(ok), f"with the variable {name} the count is {short(leaf, 150)}", f.loc())
    # an uninterpretable value must not be swallowed
    swallowed = [e for e in I.effects if e.kind == "swallow"]
    ctx.ob("uninterpretable-raises", q, not swallowed, "the conversion error is swallowed", swallowed[0].loc if swallowed else f.loc())
    return v


def same(t, R):
    """t is the resolved thread count."""
    t = strip(t)
    if eqv(t, R):
        return True
    a, b = norm(assume(t, isnone(N), False)), norm(assume(R, isnone(N), False))
    if a is not b:
        return False
    return eqv(norm(assume(t, isnone(N), True)), norm(assume(R, isnone(N), True)))


class Natives:
    """Native functions, classes and methods that take a thread count, from the stubs."""

    def __init__(self, ctx):
        self.funcs, self.classes, self.methods = {}, {}, {}
        for m in ctx.proj.modules.values():
            if not m.is_stub:
                continue
            for f in m.funcs.values():
                if "n_threads" in f.all_params():
                    self.funcs[f.name] = [p for p in f.all_params()]
            for c in m.classes.values():
                for f in c.methods.values():
                    if "n_threads" in f.all_params():
                        ps = [p for p in f.all_params() if p != "self"]
                        if f.name == "__init__":
                            self.classes[c.name] = ps
                        elif not f.name.startswith("__"):
                            self.methods[f.name] = ps

    def of(self, e):
        """(name, thread term or None) when the effect is a native call with a thread parameter."""
        ps = None
        if e.kind == "new":
            n = getattr(e.d.get("cls"), "name", None)
            if n in self.classes and e.d["cls"].module.is_stub:
                ps = self.classes[n]
        elif e.kind == "call":
            fn = e.d.get("fn")
            if isinstance(fn, T):
                n = None
                if fn.op == "fn":
                    n = getattr(fn.a[0], "name", str(fn.a[0]).split(".")[-1].rstrip(">"))
                    ps = self.funcs.get(n)
                elif fn.op == "ext":
                    n = fn.a[0].split(".")[-1]
                    ps = self.funcs.get(n) if n in self.funcs else None
                elif fn.op == "attr":
                    n = fn.a[1]
                    ps = self.methods.get(n)
                    if n == "fit_partial":
                        kw = dict(e.d.get("kwargs") or {})
                        return n, kw.get("num_threads")
        if ps is None:
            return None
        kw = dict(e.d.get("kwargs") or {})
        if "n_threads" in kw:
            return n, kw["n_threads"]
        i = ps.index("n_threads")
        a = e.d.get("args") or ()
        return n, (a[i] if i < len(a) else None)


def sinks(ctx, nat, I, st, effs, where, R, resolved):
    seen = 0
    for e in effs:
        r = nat.of(e)
        if r is None:
            continue
        seen += 1
        n, t = r
        if t is None:
            ctx.ob("reaches-native", f"{where} -> {n}", False, "the native call does not receive the thread count", e.loc)
            continue
        t = strip(I.deep(t, st))
        ok = same(t, R) or (not resolved and norm(t) is N)
        if not ok and any(x.op in ("mu", "loopout", "unk", "either") for x in walk(t)):
            ok = None
        ctx.ob("reaches-native", f"{where} -> {n}", ok, f"the native call gets n_threads={short(norm(t), 160)}", e.loc)
    return seen


def optional(f):
    """The option may be left out (default None)."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    x = d.get("n_threads")
    return x is not None and getattr(x, "value", 0) is None


def recommender(ctx, nat, c, R):
    init = c.find("__init__")
    if "n_threads" not in init.all_params():
        return
    I, st, o = construct(ctx, c)
    n = 0
    f = c.find("learn")
    s = st.copy()
    k = len(I.effects)
    try:
        v = I.run(f, st=s, selfterm=o, cls=c)
    except Unreachable:
        v = None
    n += sinks(ctx, nat, I, s, I.effects[0:], f"{c.name}.learn", R, optional(init))
    if v is not None:
        for name, g in sorted(members(c).items()):
            if name in ("load_state", "save_state"):
                continue
            s2 = s.copy()
            k = len(I.effects)
            try:
                I.run(g, st=s2, selfterm=o, cls=c)
            except Unreachable:
                continue
            sinks(ctx, nat, I, s2, I.effects[k:], f"{c.name}.{name}", R, optional(init))
    ctx.ob("thread-option-used", c.name, True if n else None, "no native call found", init.loc())


def evaluator(ctx, nat, c, R):
    init = c.find("__init__")
    if init is None or "n_threads" not in init.all_params():
        return
    I, st, o = construct(ctx, c)
    n = 0
    for k in c.mro():
        for f in k.methods.values():
            if f.name.startswith("__") or c.find(f.name) is not f:
                continue
            s = st.copy()
            i0 = len(I.effects)
            try:
                I.run(f, st=s, selfterm=o, cls=c)
            except Unreachable:
                pass
            n += sinks(ctx, nat, I, s, I.effects[i0:], f"{c.name}.{f.name}", R, optional(init))
    ctx.ob("thread-option-used", c.name, True if n else None, "no native call found", init.loc())


def function(ctx, nat, f, R):
    I, st, v = analyse(ctx, f, cls=f.cls) if f.cls is not None else analyse(ctx, f)
    n = sinks(ctx, nat, I, st, I.effects, f.qual.split("irspack.")[-1], R, optional(f))
    ctx.ob("thread-option-used", f.qual, True if n else None, "no native call found", f.loc())


# ---------------------------------------------------------------- native entry points

def thread_place(e):
    """How the entry receives its thread count: ('arg', name) or ('field', parameter)."""
    names = e.func.all_params()
    for (pn, _, _), (nn, ty) in zip(e.reg.params, e.reg.native):
        if "n_threads" in (pn, nn) and nn in names:
            return "arg", nn
    for nn, ty in e.reg.native:
        if "SolverConfig" in ty and nn in names:
            return "field", nn
    return None


def run_with(N, e, place, value, inline=None):
    st, args = State(), {}
    if place[0] == "arg":
        args[place[1]] = value
    else:
        st.heap[("a", sym(place[1]), "n_threads")] = value
    return N.run(e.func, e.cls, args=args, st=st, interp=NativeInterp(N.proj, inline=inline) if inline else None)


def emptiness(c):
    """The condition says that some input has no rows."""
    n = False
    if c.op == "not":
        c, n = c.a[0], True
    size = lambda x: x.op in ("dim", "len")
    num = lambda x, *v: x.op == "const" and x.a[0] in v
    if c.op == "eq" and not n:
        return any(size(x) for x in c.a) and any(num(x, 0) for x in c.a)
    if c.op == "lt":
        return (not n and size(c.a[0]) and num(c.a[1], 1)) or (n and num(c.a[0], 0) and size(c.a[1]))
    if c.op == "le":
        return (not n and size(c.a[0]) and num(c.a[1], 0)) or (n and num(c.a[0], 1) and size(c.a[1]))
    if c.op == "truth":
        return n and size(c.a[0])
    return False


def native_refusal(ctx, N):
    names = reaching(N, lambda f: any(spawn_call(c) for c in calls_in(f.node)))
    es = entries(N)
    par = {e.qual for e in es if e.func.name in names}
    methods = {}
    for e in es:
        if e.qual in par and e.cls is not None and e.reg.kind == "method":
            methods.setdefault(e.reg.cls, []).append(e)
    for e in es:
        p = thread_place(e)
        if p is None or not (e.qual in par or (e.reg.kind == "init" and methods.get(e.reg.cls))):
            continue
        ctx.saw(e.func.loc())
        I, st, v = run_with(N, e, p, ZERO)
        if v is None:
            ok = True
        elif e.reg.kind == "init":
            # refused later, by every method that would fan out
            ok = True
            for m in methods[e.reg.cls]:
                I2, st2 = NativeInterp(N.proj), st.copy()
                I2.types.update(I.types)
                ok = ok and N.run(m.func, m.cls, st=st2, interp=I2)[2] is None
        else:
            ok = None if any(emptiness(c) for c in st.path) else False
        ctx.ob("zero-threads-refused", e.qual, ok, f"{e.qual} returns normally when given zero threads, with nothing computed", e.func.loc())
        if p[0] == "arg":
            I, st, v = run_with(N, e, p, ONE, inline=lambda g: not any(spawn_call(c) for c in calls_in(g.node)) or g.qual == e.func.qual)
            ctx.ob("one-thread-accepted", e.qual, v is not None, f"{e.qual} raises for a single thread", e.func.loc())


def check(ctx):
    nat = Natives(ctx)
    R = None

    def go():
        nonlocal R
        R = resolution(ctx)
    ctx.guard(go)
    if R is None:
        raise AnalysisError("get_n_threads could not be summarised")
    for c in concrete(ctx):
        ctx.guard(recommender, ctx, nat, c, R)
    B = ctx.proj.find_class(BASE)
    for c in ctx.proj.all_classes():
        if not c.module.is_stub and B not in c.mro() and c.module.name.startswith("irspack.evaluation"):
            ctx.guard(evaluator, ctx, nat, c, R)
    for m in ctx.proj.modules.values():
        if m.is_stub:
            continue
        fs = list(m.funcs.values()) + [f for c in m.classes.values() if B not in c.mro() for f in c.methods.values() if f.name != "__init__"]
        for f in fs:
            if "n_threads" in f.all_params() and f.name != "get_n_threads":
                ctx.guard(function, ctx, nat, f, R)
    ctx.guard(native_refusal, ctx, ctx.native())
