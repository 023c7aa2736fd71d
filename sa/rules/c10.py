"""C10: where randomness and ordering come from."""
import ast
from ..common import *
from ..norm import norm

LEVEL = "other"
MIN_OBLIGATIONS = 60
EXPLANATION = ("Every call in the package is resolved through its imports: process-global generators, unseeded generator constructors and order-sensitive uses of sets are "
               "violations wherever they occur. Every function that takes a seed or random state, and every function that draws, is analysed symbolically; the receiver of each "
               "draw and the seed handed to each native or third-party learner must be built from the caller's seed (or a constant) on every path. In the C++ sources, no process-global source, static engine, schedule-dependent draw or uninitialised field may be reachable from a bound function.")
ASSUMPTIONS = ["numpy RandomState, optuna samplers, scikit-learn and haiku are deterministic given their seed",
               "LightFM and the clock-derived study-name prefix and elapsed times are documented as unseeded and are not random choices of this package"]

SEEDS = ("random_state", "random_seed", "seed", "rns", "rng", "tuning_random_seed")
DRAWS = {"shuffle", "randint", "rand", "randn", "choice", "permutation", "permuted", "binomial", "normal", "uniform", "random", "random_sample", "integers",
         "standard_normal", "poisson", "multinomial", "beta", "gamma", "exponential", "bytes", "sample", "choices", "randrange"}
CTORS = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "random.Random",
         "haiku.PRNGSequence", "jax.random.PRNGKey", "jax.random.key"}
TYPES = {"numpy.random.Generator", "numpy.random.BitGenerator"}
SEEDED = {"sklearn.decomposition.TruncatedSVD": "random_state", "sklearn.decomposition.NMF": "random_state", "optuna.samplers.TPESampler": "seed",
          "optuna.samplers.RandomSampler": "seed", "optuna.samplers.CmaEsSampler": "seed", "sklearn.utils.extmath.randomized_svd": "random_state",
          "sklearn.model_selection.train_test_split": "random_state", "scipy.sparse.random": "random_state", "sklearn.utils.shuffle": "random_state",
          "pandas.DataFrame.sample": "random_state"}
CLOCK = ("time.time", "time.perf_counter", "time.monotonic", "time.time_ns", "datetime.datetime.now", "datetime.datetime.utcnow", "os.getpid", "os.urandom", "uuid.uuid1", "uuid.uuid4",
         "secrets.", "builtins.hash", "builtins.id", "threading.get_ident")


def functions(ctx):
    for m in ctx.proj.modules.values():
        if m.is_stub:
            continue
        for f in m.funcs.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


def locals_of(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            a = n.args
            out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def root_name(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def tests_none(node):
    """Whether the function asks `<parameter> is None` (or `is not None`)."""
    ps = {x.arg for n in ast.walk(node) if isinstance(n, ast.FunctionDef) for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
    return any(isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in ps and isinstance(n.ops[0], (ast.Is, ast.IsNot))
               and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None for n in ast.walk(node))


def scan(ctx, f):
    """Name-resolved calls of one function."""
    m = f.module
    loc = locals_of(f.node)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) or isinstance(n, ast.Name):
            if not isinstance(getattr(n, "ctx", None), ast.Load):
                continue
            r = root_name(n)
            if r is None or r in loc:
                continue
            q = m.dotted(n)
            if not q:
                continue
            where = f"{m.name.split('.', 1)[-1]}:{n.lineno}" if False else f"{f.qual}"
            line = f"{f.loc().rsplit(':', 1)[0]}:{n.lineno}"
            if q.startswith("numpy.random.") and q.count(".") == 2 and q not in CTORS and q not in TYPES:
                ctx.ob("no-global-generator", f"{where} {q}", False, "draws from numpy's process-global generator", line)
            if q.startswith("random.") and q.count(".") == 1 and q not in ("random.Random",) and "random" in m.imports.values():
                ctx.ob("no-global-generator", f"{where} {q}", False, "draws from the process-global generator", line)
            if q.startswith("secrets.") or q == "os.urandom" or q in ("random.SystemRandom",):
                ctx.ob("no-global-generator", f"{where} {q}", False, "operating-system randomness", line)
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        r = root_name(n.func)
        q = m.dotted(n.func) if r is not None and r not in loc else None
        line = f"{f.loc().rsplit(':', 1)[0]}:{n.lineno}"
        if q in CTORS:
            args = list(n.args) + [k.value for k in n.keywords]
            bad = not args or any(isinstance(a, ast.Constant) and a.value is None for a in args[:1])
            if bad and tests_none(f.node):
                continue  # decided on the paths below
            ctx.ob("seeded-constructor", f"{f.qual} {q}", not bad, "generator constructed without a seed", line)
        if q in SEEDED:
            ctx.ob("seed-passed", f"{f.qual} {q}", any(k.arg == SEEDED[q] or k.arg is None for k in n.keywords), f"{SEEDED[q]} is not passed", line)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "sample" and q is None and any(k.arg in ("frac", "n") for k in n.keywords):
            ctx.ob("seed-passed", f"{f.qual} .sample", any(k.arg == "random_state" for k in n.keywords), "random_state is not passed", line)


# ---------------------------------------------------------------- order-sensitive sets

CLEAN = {"sorted", "len", "min", "max", "sum", "any", "all", "set", "frozenset", "isinstance", "bool", "str", "repr", "print"}
PASS = {"list", "tuple", "iter", "reversed", "enumerate", "zip", "map", "filter"}


class Sets(ast.NodeVisitor):
    """Forward, flow-insensitive: which expressions of a function have an order that depends on hashing."""

    def __init__(self, f):
        self.f, self.m = f, f.module
        self.setvars, self.ordvars = set(), set()
        self.hits = []

    def is_set(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                return self.is_set(e.func.value)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left) or self.is_set(e.right)
        if isinstance(e, ast.Name):
            return e.id in self.setvars
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) or self.is_set(e.orelse)
        return False

    def unordered(self, e):
        """Sequence whose order comes from a set."""
        if isinstance(e, ast.Call):
            n = e.func.id if isinstance(e.func, ast.Name) else None
            if n in CLEAN:
                return False
            if n in PASS:
                return any(self.is_set(a) or self.unordered(a) for a in e.args)
            q = self.m.dotted(e.func) if root_name(e.func) else None
            if q in ("numpy.array", "numpy.asarray", "numpy.fromiter", "pandas.Series", "pandas.Index"):
                return any(self.is_set(a) or self.unordered(a) for a in e.args[:1])
            return False
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            return any(self.is_set(g.iter) or self.unordered(g.iter) for g in e.generators)
        if isinstance(e, ast.Name):
            return e.id in self.ordvars
        if isinstance(e, ast.Starred):
            return self.is_set(e.value) or self.unordered(e.value)
        if isinstance(e, (ast.List, ast.Tuple)):
            return any(isinstance(x, ast.Starred) and self.unordered(x) for x in e.elts)
        if isinstance(e, ast.IfExp):
            return self.unordered(e.body) or self.unordered(e.orelse)
        if isinstance(e, ast.Subscript):
            return self.unordered(e.value)
        return False

    def run(self):
        node = self.f.node
        for _ in range(4):
            for n in ast.walk(node):
                tg = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tg, v = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    tg, v = n.target, n.value
                if isinstance(tg, ast.Name):
                    if self.is_set(v):
                        self.setvars.add(tg.id)
                    if self.unordered(v):
                        self.ordvars.add(tg.id)
        # a list sorted in place is ordered again
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name):
                self.ordvars.discard(n.func.value.id)
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "sorted":
                self.ordvars.discard(n.targets[0].id)
        for n in ast.walk(node):
            if isinstance(n, ast.Return) and n.value is not None:
                for x in (n.value.elts if isinstance(n.value, ast.Tuple) else [n.value]):
                    if self.unordered(x):
                        self.hits.append((n.lineno, "returned"))
            elif isinstance(n, ast.Call):
                fn = n.func.id if isinstance(n.func, ast.Name) else (n.func.attr if isinstance(n.func, ast.Attribute) else None)
                if fn in CLEAN | PASS | {"isin", "in1d", "update", "issubset", "issuperset", "union", "intersection", "difference", "join_sets", "sort"}:
                    continue
                q = self.m.dotted(n.func) if root_name(n.func) else None
                if q in ("numpy.array", "numpy.asarray", "numpy.unique", "numpy.sort", "numpy.isin", "numpy.in1d", "numpy.fromiter", "pandas.Series", "pandas.Index"):
                    continue
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if self.unordered(a):
                        self.hits.append((n.lineno, f"passed to {fn}"))
            elif isinstance(n, ast.For) and (self.is_set(n.iter) or self.unordered(n.iter)):
                grow = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert") for b in n.body for x in ast.walk(b)) \
                    or any(isinstance(x, (ast.Yield, ast.Break)) for b in n.body for x in ast.walk(b)) \
                    or (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate")
                if grow:
                    self.hits.append((n.lineno, "iterated in order"))
            elif isinstance(n, (ast.DictComp, ast.ListComp)):
                for g in n.generators:
                    if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == "enumerate" and self.unordered(g.iter):
                        self.hits.append((n.lineno, "numbered in order"))
            elif isinstance(n, (ast.Assign,)) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and self.unordered(n.value):
                self.hits.append((n.lineno, "stored"))
        return self.hits


# ---------------------------------------------------------------- flow of the seed

def has_seed(f):
    return [p for p in f.all_params() if p in SEEDS]


def draws_textually(f):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DRAWS for n in ast.walk(f.node))


def tainted(t):
    return any(x.op == "call" and x.a[0].op == "ext" and any(x.a[0].a[0] == c or (c.endswith(".") and x.a[0].a[0].startswith(c)) for c in CLOCK) for x in walk(t))


def no_seed(cs, seeds):
    """The path condition says that no seed was given."""
    return any(c.op == "isnone" and any(y.op == "sym" and (y.a[0] in seeds or not seeds) for y in walk(c.a[0])) for c in cs)


def sources(t, seeds, conds=()):
    """Verdict for a generator or seed term: None fine, else the reason."""
    t = strip(t)
    if tainted(t):
        return "depends on the clock, the process or hashing"
    for cs, x in leaves(norm(t), conds=tuple(conds)):
        if x.op == "const":
            if x.a[0] is None and not no_seed(cs, seeds):
                return "is None although a seed may have been given"
            continue
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in CTORS:
            if not x.a[1] and not x.a[2]:
                if no_seed(cs, seeds):
                    continue
                return "is freshly seeded"
            for a in list(x.a[1]) + [v for _, v in x.a[2]]:
                r = sources(a, seeds, cs)
                if r:
                    return r
            continue
        if x.op == "ext" and x.a[0].startswith(("numpy.random", "random")):
            return "is the process-global generator"
        syms = {y.a[0] for y in walk(x) if y.op == "sym"}
        if seeds and not (syms & set(seeds)) and not any(y.op in ("attr",) for y in walk(x)):
            return "does not depend on the given seed"
    return None


def flow(ctx, f, c):
    seeds = has_seed(f)
    if c is not None and f.name != "__init__" and f.cls is not None:
        I, st, v = analyse(ctx, f, cls=c)
    else:
        I, st, v = analyse(ctx, f, cls=c) if c is not None else analyse(ctx, f)
    used = set()
    for e in I.effects:
        for t in effect_terms(e):
            used |= {y.a[0] for y in walk(t) if y.op == "sym"}
        fn = e.d.get("fn")
        recv = None
        name = None
        if e.kind == "call" and isinstance(fn, T) and fn.op == "attr" and fn.a[1] in DRAWS:
            recv, name = fn.a[0], fn.a[1]
        elif e.kind == "mutcall" and e.d.get("name") in DRAWS:
            recv, name = e.d["obj"], e.d["name"]
        if recv is not None and is_generator(recv, f, I):
            r = sources(I.deep(recv, st) if recv.op == "new" else recv, seeds, e.path)
            ctx.ob("draw-from-seed", f"{f.qual} {name}", r is None, f"the generator of {name} {r}: {short(recv, 120)}", e.loc)
        kw = e.d.get("kwargs") or {}
        kw = dict(kw) if not isinstance(kw, dict) else kw
        if e.kind in ("call", "new"):
            callee = fn.a[0] if isinstance(fn, T) and fn.op in ("ext", "fn") else str(e.d.get("cls", ""))
            for k in ("random_state", "random_seed", "seed"):
                if k in kw and isinstance(kw[k], T):
                    r = sources(kw[k], seeds, e.path)
                    ctx.ob("learner-seed", f"{f.qual} {callee.split('.')[-1]} {k}", r is None, f"{k}={short(kw[k], 120)} {r}", e.loc)
    if v is not None:
        used |= {y.a[0] for y in walk(I.deep(v, st)) if y.op == "sym"}
    for k, x in st.heap.items():
        used |= {y.a[0] for y in walk(x) if y.op == "sym"}
    for s in seeds:
        ctx.ob("seed-used", f"{f.qual} {s}", s in used, "the seed is accepted and then ignored", f.loc())


def is_generator(t, f, I):
    if any(x.op == "ext" and x.a[0].startswith(("numpy.random", "random", "haiku", "jax.random")) for x in walk(t)):
        return True
    if t.op == "sym":
        return t.a[0] in SEEDS
    if t.op == "attr":
        return t.a[1] in SEEDS or "rng" in t.a[1] or "rns" in t.a[1] or "random" in t.a[1]
    if t.op == "phi":
        return is_generator(t.a[1], f, I) or is_generator(t.a[2], f, I)
    return False


def effect_terms(e):
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                rec(y)
        elif isinstance(x, dict):
            for y in x.values():
                rec(y)
    rec(e.d)
    return out


def attrs(ctx, c):
    """Generators kept on an object are seeded by its constructor."""
    init = c.find("__init__")
    if init is None or init.is_stub or init.cls is not c:
        return
    if not any(isinstance(n, ast.Call) and c.module.dotted(n.func) in CTORS for m in c.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Call) and root_name(n.func)):
        return
    I, st, o = construct(ctx, c)
    for k, v in st.heap.items():
        if k[0] == "a" and k[1] is o and any(x.op == "ext" and x.a[0] in CTORS for x in walk(v)):
            r = sources(v, has_seed(init), ())
            ctx.ob("kept-generator", f"{c.qual}.{k[2]}", r is None, f"{short(v, 100)} {r}", init.loc())


def args_of(x):
    return tuple(x.a[1]) + tuple(v for _, v in x.a[2])


def convert(ctx):
    f = ctx.proj.func("irspack.utils.random.convert_randomstate")
    I, st, v = analyse(ctx, f)
    a = sym(f.params()[0])
    for cs, x in leaves(norm(strip(I.deep(v, st)))):
        ok = x is a or (x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "numpy.random.RandomState" and (args_of(x) == (a,) or (args_of(x) in ((), (NONE,)) and isnone(a) in cs)))
        isint = mk("isinstance", a, mk("ext", "builtins.int"))
        if x is a and (isint in cs or isnone(a) in cs):
            ok = False
        ctx.ob("convert", f"{f.qual} [{' '.join(short(c, 40) for c in cs)}]", ok, short(x, 200), f.loc())
    for seed in (NONE, ZERO, ONE, const(42)):
        I, st, v = analyse(ctx, f, args={f.params()[0]: seed})
        v = norm(strip(I.deep(v, st))) if v is not None else None
        ok = v is not None and v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "numpy.random.RandomState" and args_of(v) in ((seed,), () if seed is NONE else (seed,))
        ctx.ob("seed-accepted", f"{f.qual} {short(seed)}", True if ok else (False if v is None or v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "numpy.random.RandomState" else None),
               f"the seed {short(seed)} gives {short(v, 120) if v is not None else 'an error'}", f.loc())


def check(ctx):
    ctx.guard(convert, ctx)
    n = 0
    for f in list(functions(ctx)):
        n += 1
        ctx.saw(f.qual)
        scan(ctx, f)
        hits = Sets(f).run()
        ctx.ob("no-hash-order", f.qual, not hits, "; ".join(f"line {l}: order of a set {w}" for l, w in hits), f.loc())
        if has_seed(f) or draws_textually(f):
            if f.name == "__init__":
                continue
            ctx.guard(flow, ctx, f, f.cls)
    for c in ctx.proj.all_classes():
        if not c.module.is_stub:
            ctx.guard(attrs, ctx, c)
    from .c10_native import native
    ctx.guard(native, ctx)
