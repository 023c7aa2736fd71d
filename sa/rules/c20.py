"""C20: inconsistent sizes and invalid options are rejected."""
from ..common import *
from ..norm import norm
from .c16 import concrete

LEVEL = "proof"
TECHNIQUE = ("static analysis: rejection conditions (path conditions of every raise reachable from a public entry point) evaluated in a finite shape domain, one abstract case per way two sizes can disagree; "
             "definite evaluation of enum lookups for option values")
MIN_OBLIGATIONS = 60
EXPLANATION = ("Each public constructor or evaluation entry point is analysed symbolically and the path condition of every reachable raise is collected. For each pair of sizes that must agree, the cases 'agree', "
               "'first larger' and 'first smaller' are put to those conditions: a disagreement must satisfy the condition of some raise, an agreement must satisfy none. Option values outside the documented set must "
               "reach a raise or a failing enum lookup, documented ones must not.")
ASSUMPTIONS = ["size checks depend on the sizes only through comparisons of linear expressions, so one representative per ordering stands for all", "looking up an unknown name or value in an Enum raises"]


class Unknown(Exception):
    pass


class Sizes:
    """A point of the shape domain."""

    def __init__(self, ctx, shapes=None, lens=None, values=None, dtypes=None):
        self.ctx = ctx
        self.shapes, self.lens, self.values, self.dtypes = shapes or {}, lens or {}, values or {}, dtypes or {}

    def shape(self, t):
        if t in self.shapes:
            return self.shapes[t]
        if t.op in ("conv",):
            return self.shape(t.a[1])
        if t.op == "store":
            return self.shape(t.a[0])
        if t.op == "T":
            return self.shape(t.a[0])[::-1]
        if t.op == "idx":
            o, i = t.a
            if i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][0] is NONE:
                return (1,) + tuple(self.shape(o))
            if i is NONE:
                return (1,) + tuple(self.shape(o))
        if t.op == "zeros" and t.a[0].op == "tuple":
            return tuple(self.ev(x) for x in t.a[0].a[0])
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("scipy.sparse.hstack", "numpy.hstack"):
            ps = t.a[1][0]
            if ps.op in ("list", "tuple"):
                ss = [self.shape(x) for x in ps.a[0]]
                return (ss[0][0], sum(s[1] for s in ss))
        if t.op == "phi":
            return self.shape(t.a[1] if self.ev(t.a[0]) else t.a[2])
        if t.op == "new" and t.a[0] == "list":
            raise Unknown("list")
        raise Unknown("shape of " + short(t, 80))

    def length(self, t):
        if t in self.lens:
            return self.lens[t]
        if t.op == "phi":
            return self.length(t.a[1] if self.ev(t.a[0]) else t.a[2])
        if t.op in ("list", "tuple"):
            return len(t.a[0])
        if t.op == "comp":
            bases = t.a[2]
            if len(bases) == 1 and t.a[0] == "list" and not (len(t.a) > 3 and t.a[3]):
                return self.length(bases[0])
        if t.op == "conv" and t.a[0] in ("list", "tuple", "array", "asarray", "copy"):
            return self.length(t.a[1])
        try:
            return self.shape(t)[0]
        except Unknown:
            pass
        raise Unknown("length of " + short(t, 80))

    def ev(self, t):
        if t in self.values:
            v = self.values[t]
            if v is Unknown:
                raise Unknown(short(t, 60))
            return v
        op = t.op
        if op == "const":
            return t.a[0]
        if op == "not":
            return not self.ev(t.a[0])
        if op == "truth":
            x = t.a[0]
            if x in self.lens:
                return self.lens[x] > 0
            try:
                return bool(self.ev(x))
            except Unknown:
                return self.length(x) > 0
        if op in ("and", "or"):
            xs = t.a[0] if isinstance(t.a[0], (tuple, frozenset)) else t.a
            vals = []
            for x in xs:
                try:
                    vals.append(bool(self.ev(x)))
                except Unknown:
                    vals.append(None)
            if op == "and" and False in vals:
                return False
            if op == "or" and True in vals:
                return True
            if None in vals:
                raise Unknown(short(t, 100))
            return op == "and"
        if op == "phi":
            return self.ev(t.a[1] if self.ev(t.a[0]) else t.a[2])
        if op in ("lt", "le", "eq"):
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            try:
                return a < b if op == "lt" else a <= b if op == "le" else a == b
            except TypeError:
                raise Unknown(short(t, 60))
        if op == "isnone":
            x = t.a[0]
            if x in self.shapes or x in self.lens or x in self.dtypes:
                return False
            if x.op in ("idx", "conv", "list", "tuple", "comp", "new"):
                return False
            return self.ev(x) is None
        if op == "lin":
            c, d = lin_parts(t)
            r = c
            for x, k in d.items():
                r = r + k * self.ev(x)
            return r
        if op == "mul":
            r = 1
            for x in t.a[0]:
                r = r * self.ev(x)
            return r
        if op in ("toint", "int"):
            return int(self.ev(t.a[0]))
        if op in ("min", "max"):
            xs = t.a[0] if isinstance(t.a[0], (tuple, frozenset)) else t.a
            return (min if op == "min" else max)(self.ev(x) for x in xs)
        if op == "tuple":
            return tuple(self.ev(x) for x in t.a[0])
        if op == "dim":
            return self.shape(t.a[0])[t.a[1] if isinstance(t.a[1], int) else self.ev(t.a[1])]
        if op == "len":
            return self.length(t.a[0])
        if op == "attr":
            o, n = t.a
            if n == "shape":
                return tuple(self.shape(o))
            if n == "ndim":
                return len(self.shape(o))
            if n == "dtype":
                if o in self.dtypes:
                    return self.dtypes[o]
                if o.op in ("idx",):
                    return self.ev(mk("attr", o.a[0], "dtype"))
                raise Unknown("dtype")
        if op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and is_int(t.a[1]):
            return self.shape(t.a[0].a[0])[t.a[1].a[0]]
        if op == "in":
            x, s = self.ev(t.a[0]), t.a[1]
            if s.op in ("tuple", "list", "set"):
                vals = []
                for y in s.a[0]:
                    try:
                        vals.append(self.ev(y) == x)
                    except Unknown:
                        vals.append(None)
                if True in vals:
                    return True
                if None in vals:
                    raise Unknown(short(t, 60))
                return False
            if is_const(s):
                return x in s.a[0]
        if op == "call" and t.a[0].op == "ext":
            n = t.a[0].a[0]
            if n == "numpy.dtype" and len(t.a[1]) == 1:
                x = self.ev(t.a[1][0])
                return str(x).replace("numpy.", "")
            if n == "builtins.float" and len(t.a[1]) == 1:
                return float(self.ev(t.a[1][0]))
            if n == "builtins.int" and len(t.a[1]) == 1:
                return int(self.ev(t.a[1][0]))
            if n == "builtins.isinstance" and t.a[1][0] in self.shapes:
                return True
            if n in ("scipy.sparse.issparse", "scipy.sparse.isspmatrix") and len(t.a[1]) == 1:
                x = t.a[1][0]
                if x in self.lens:
                    return False
                if x in self.shapes:
                    return x in self.values.get("sparse", ())
            if n == "numpy.shape" and len(t.a[1]) == 1:
                return tuple(self.shape(t.a[1][0]))
            if n == "numpy.ndim" and len(t.a[1]) == 1:
                return len(self.shape(t.a[1][0]))
        if op == "ext" and t.a[0].startswith("numpy."):
            return t.a[0].replace("numpy.", "")
        if op == "isinstance":
            if t.a[0] in self.shapes:
                return True
        if op == "enum":
            return t
        if op == "conv":
            return self.ev(t.a[1])
        raise Unknown(short(t, 100))


def collect(I, n):
    """Raises that leave the entry point (not the swallowed ones) since effect n."""
    caught = set()
    return [e for e in I.effects[n:] if e.kind == "raise" and e not in caught]


def root_of(t):
    while True:
        if t.op == "conv":
            t = t.a[1]
        elif t.op == "idx" and t.a[1].op in ("slice", "conv", "arange"):
            t = t.a[0]
        elif t.op in ("store", "mutated"):
            t = t.a[0] if t.op == "store" else t.a[1]
        else:
            return t


def mentions(t, D, seen=None):
    """Does t depend on one of the quantities in D: terms, or (term, axis) for one size of an array?"""
    seen = seen if seen is not None else {}
    if t in seen:
        return seen[t]
    seen[t] = False
    arrays = {d[0] for d in D if isinstance(d, tuple)}
    r = False
    if t in D:
        r = True
    elif t.op == "dim" and root_of(t.a[0]) in arrays:
        ax = t.a[1] if isinstance(t.a[1], int) else t.a[1].a[0]
        r = (root_of(t.a[0]), ax) in D or any(mentions(x, D, seen) for x in index_parts(t.a[0]))
    elif t.op == "attr" and t.a[1] == "dtype":
        # the element type of a derived array depends on element types, not on sizes
        r = any(mk("attr", y, "dtype") in D for y in walk(t.a[0]))
    elif t.op == "isnone" and t.a[0].op == "sym":
        r = False                   # fixed per analysed entry
    elif t.op == "raised" and "NotImplementedError" in str(t.a[0]):
        r = False                   # whether an optional method is offered
    elif t.op == "len" and root_of(t.a[0]) in arrays:
        r = (root_of(t.a[0]), 0) in D
    elif t in arrays:
        r = True
    else:
        for x in walk_args(t):
            if mentions(x, D, seen):
                r = True
                break
    seen[t] = r
    return r


def index_parts(t):
    out = []
    while t.op in ("conv", "idx"):
        if t.op == "idx":
            out.append(t.a[1])
            t = t.a[0]
        else:
            t = t.a[1]
    return out


def walk_args(t):
    def go(x):
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, list, frozenset)):
            for y in x:
                yield from go(y)
    for x in t.a:
        yield from go(x)


def differing(S, S0):
    """The quantities in which two points differ."""
    D = set()
    for k in set(S.shapes) | set(S0.shapes):
        a, b = S.shapes.get(k), S0.shapes.get(k)
        if a is None or b is None or len(a) != len(b):
            D |= {k, (k, 0), (k, 1)}
            continue
        D |= {(k, i) for i in range(len(a)) if a[i] != b[i]}
        if a != b:
            D.add(mk("attr", k, "shape"))
    for x, y in ((S.lens, S0.lens), (S.values, S0.values)):
        D |= {k for k in set(x) | set(y) if isinstance(k, T) and x.get(k) != y.get(k)}
    D |= {mk("attr", k, "dtype") for k in set(S.dtypes) | set(S0.dtypes) if S.dtypes.get(k) != S0.dtypes.get(k)}
    return D


def verdict(effs, S, S0=None):
    """True: some raise is certain.  False: no raise is possible, or (given the agreeing point S0) every raise that cannot be
    evaluated is about something else.  None: unknown."""
    unknown = None
    D = differing(S, S0) if S0 is not None else None
    for e in effs:
        vals, why = [], ""
        about = False
        for p in e.path:
            q = norm(p)
            try:
                vals.append(bool(S.ev(q)))
                continue
            except Unknown as x:
                why = str(x)
            except (TypeError, IndexError, KeyError, AttributeError) as x:
                why = f"{type(x).__name__} {x}"
            vals.append(None)
            if D is None or mentions(q, D):
                about = True
        if False in vals:
            continue
        if None in vals:
            if about:
                unknown = why
            elif D is not None and False in vals0(e, S0):
                unknown = why          # it became possible by the disagreement
            continue
        return True, ""
    return (None, unknown) if unknown else (False, "")


def vals0(e, S0):
    out = []
    for p in e.path:
        try:
            out.append(bool(S0.ev(norm(p))))
        except Exception:
            out.append(None)
    return out


def bad_lookup(ctx, I, n, st=None):
    """An enum lookup with a constant that is no member."""
    out = []
    for e in I.effects[n:]:
        for v in list(e.d.values()):
            if isinstance(v, T):
                out += lookups(ctx, v)
    if st is not None:
        for v in st.heap.values():
            if isinstance(v, T):
                out += lookups(ctx, v)
    return out


def lookups(ctx, t):
    out = []
    for x in walk(t):
        if x.op == "idx" and x.a[0].op == "attr" and x.a[0].a[1] == "__members__" and x.a[0].a[0].op == "cls" and x.a[1].op == "const":
            c = ctx.proj.find_class(x.a[0].a[0].a[0])
            if c is not None and x.a[1].a[0] not in members_of(c):
                out.append(x)
        if x.op in ("enum", "enumval"):
            c = ctx.proj.find_class(x.a[0])
            k = x.a[1].a[0] if isinstance(x.a[1], T) and x.a[1].op == "const" else x.a[1]
            if c is not None and not isinstance(k, T) and k not in (members_of(c) if x.op == "enum" else members_of(c).values()):
                out.append(x)
        if x.op == "idx" and x.a[0].op == "cls" and x.a[1].op == "const":
            c = ctx.proj.find_class(x.a[0].a[0])
            if c is not None and is_enum(c) and x.a[1].a[0] not in members_of(c):
                out.append(x)
        if x.op == "new" and isinstance(x.a[0], str) and x.a[1] and x.a[1][0].op == "const":
            c = ctx.proj.find_class(x.a[0])
            if c is not None and is_enum(c) and x.a[1][0].a[0] not in members_of(c).values():
                out.append(x)
        if x.op == "call" and x.a[0].op == "cls" and x.a[1] and x.a[1][0].op == "const":
            c = ctx.proj.find_class(x.a[0].a[0])
            if c is not None and is_enum(c) and x.a[1][0].a[0] not in members_of(c).values():
                out.append(x)
        if x.op == "attr" and x.a[0].op == "cls":
            c = ctx.proj.find_class(x.a[0].a[0])
            if c is not None and c.module.is_stub and x.a[1] not in members_of(c) and c.find(x.a[1]) is None:
                out.append(x)
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.getattr" and len(x.a[1]) == 2 and x.a[1][0].op == "cls" and x.a[1][1].op == "const":
            c = ctx.proj.find_class(x.a[1][0].a[0])
            if c is not None and x.a[1][1].a[0] not in members_of(c):
                out.append(x)
    return out


def is_enum(c):
    return any(str(b).split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for k in c.mro() for b in getattr(k, "base_names", []) or getattr(k, "bases", []))


def members_of(c):
    out = {}
    import ast as _ast
    for s in c.node.body:
        if isinstance(s, _ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], _ast.Name):
            try:
                out[s.targets[0].id] = _ast.literal_eval(s.value)
            except Exception:
                out[s.targets[0].id] = s.targets[0].id
        elif isinstance(s, _ast.AnnAssign) and isinstance(s.target, _ast.Name):
            out[s.target.id] = s.target.id
    return out


class Entry:
    """One analysed entry point: its raises."""

    def __init__(self, ctx, cls=None, func=None, none=(), consts=None, ctor=None, defaults=True, owner=None):
        self.ctx = ctx
        args = {p: NONE for p in none}
        args.update({k: v if isinstance(v, T) else const(v) for k, v in (consts or {}).items()})
        self.name = None
        I = Interp(ctx.proj)
        st = State()
        self.lost = None
        if func is None:
            f = cls.find("__init__")
            o = mk("new", cls.qual, (), (), I.site())
            self.name = cls.name
        else:
            f = func
            o = owner
            self.name = (cls.name + "." if cls else "") + f.name
        self.loc = f.loc()
        n = 0
        if func is not None and cls is not None and o is None:
            o = sym("self")
            I.types[o] = cls
        I.pending_raises = []
        try:
            I.run(f, args=args, st=st, selfterm=o, cls=cls, use_defaults=True)
        except Unreachable:
            pass
        ctx.saw(*I.analysed)
        self.I, self.st, self.o = I, st, o
        self.effs = collect(I, n)

    def must(self, rule, what, S, reject):
        if not reject and not hasattr(self, "S0"):
            self.S0 = S
        v, why = verdict(self.effs, S, getattr(self, "S0", None) if reject else None)
        if reject:
            self.ctx.ob(rule, f"{self.name}: {what}", v, f"accepted: no check rejects {what}" if v is False else why, self.loc)
        else:
            self.ctx.ob("consistent-accepted", f"{self.name}: {what}", None if v is None else not v, f"rejected although consistent: {what}" if v else why, self.loc)


def nodef(f, names):
    """Symbols for parameters that have defaults."""
    return {n: sym(n) for n in names}


def evaluators(ctx):
    E = ctx.proj.find_class("irspack.evaluation.evaluator.Evaluator")
    gt, mask, per = sym("ground_truth"), sym("masked_interactions"), sym("per_user_recommendable_items")
    base = dict(ground_truth=gt)
    thr = {sym("n_threads"): 1}
    e = Entry(ctx, E, consts=dict(base, masked_interactions=mask, n_threads=const(1)))
    for d, name in (((3, 4), "equal shapes"), ((3, 5), "mask with more items"), ((3, 3), "mask with fewer items"), ((4, 4), "mask with more users"), ((2, 4), "mask with fewer users"), ((4, 3), "transposed mask")):
        e.must("mask-shape", name, Sizes(ctx, {gt: (3, 4), mask: d}), d != (3, 4))
    e = Entry(ctx, E, consts=dict(base, per_user_recommendable_items=per, n_threads=const(1)))
    for k, name in ((3, "one list per user"), (4, "more recommendable lists than users"), (2, "fewer recommendable lists than users"), (1, "a single recommendable list for several users"), (0, "no recommendable lists for some users")):
        e.must("recommendable-rows", name, Sizes(ctx, {gt: (3, 4)}, {per: k}), k != 3)
    for k, name in ((3, "matrix with one row per user"), (4, "recommendable matrix with more rows"), (2, "recommendable matrix with fewer rows")):
        e.must("recommendable-rows", name, Sizes(ctx, {gt: (3, 4), per: (k, 4)}, values={"sparse": {per}}), k != 3)


def cold(ctx):
    C = ctx.proj.find_class("irspack.evaluation.evaluator.EvaluatorWithColdUser")
    x, gt, mask, cf = sym("input_interaction"), sym("ground_truth"), sym("masked_interactions"), sym("cold_item_features")
    base = dict(input_interaction=x, ground_truth=gt, n_threads=const(1))
    e = Entry(ctx, C, consts=base)
    for d, name in (((3, 4), "equal shapes"), ((2, 4), "fewer input rows"), ((5, 4), "more input rows"), ((3, 3), "fewer input items"), ((3, 6), "more input items")):
        e.must("input-shape", name, Sizes(ctx, {gt: (3, 4), x: d}), d != (3, 4))
    e = Entry(ctx, C, consts=dict(base, cold_item_features=cf))
    for g, name in (((3, 6), "warm and cold items add up"), ((3, 4), "ground truth without cold items"), ((3, 7), "too many ground-truth items"), ((3, 5), "too few ground-truth items"), ((2, 6), "fewer ground-truth rows")):
        e.must("cold-items-shape", name, Sizes(ctx, {gt: g, x: (3, 4), cf: (2, 8)}), g != (3, 6))
    e = Entry(ctx, C, consts=dict(base, masked_interactions=mask))
    for d, name in (((3, 4), "equal mask shape"), ((3, 5), "mask with more items"), ((2, 4), "mask with fewer users")):
        e.must("mask-shape", name, Sizes(ctx, {gt: (3, 4), x: (3, 4), mask: d}), d != (3, 4))
    e = Entry(ctx, C, consts=dict(base, masked_interactions=mask, cold_item_features=cf))
    for d, name in (((3, 6), "mask over all items"), ((3, 4), "mask over warm items"), ((3, 5), "mask over some items"), ((2, 4), "mask with fewer users"), ((2, 6), "mask over all items with fewer users")):
        e.must("mask-shape", name, Sizes(ctx, {gt: (3, 6), x: (3, 4), mask: d, cf: (2, 8)}), d not in ((3, 6), (3, 4)))


def model_checks(ctx):
    """Evaluating a model of the wrong size."""
    E = ctx.proj.find_class("irspack.evaluation.evaluator.Evaluator")
    C = ctx.proj.find_class("irspack.evaluation.evaluator.EvaluatorWithColdUser")
    self_, m = sym("self"), sym("model")
    a = lambda o, n: mk("attr", o, n)
    for meth, args in (("get_score", {}), ("get_scores", {}), ("get_target_score", {})):
        e = Entry(ctx, E, E.find(meth))
        for off, nu, ni, name in ((0, 5, 4, "matching model"), (2, 5, 4, "matching model with offset"), (3, 5, 4, "offset beyond the model's users"), (0, 2, 4, "model with fewer users"), (0, 5, 3, "model with fewer items"),
                                  (0, 5, 6, "model with more items")):
            V = {a(self_, "offset"): off, a(self_, "n_users"): 3, a(self_, "n_items"): 4, a(m, "n_users"): nu, a(m, "n_items"): ni}
            rej = off + 3 > nu or ni != 4
            S = Sizes(ctx, values=V)
            S0 = S if name == "matching model" else S0
            v, why = verdict(e.effs, S, S0 if rej else None)
            if rej:
                ctx.ob("model-size", f"{e.name}: {name}", v, f"accepted: no check rejects {name}" if v is False else why, e.loc)
            else:
                ctx.ob("consistent-accepted", f"{e.name}: {name}", v is not True, f"rejected although consistent: {name}", e.loc)
        f = C.find(meth)
        e = Entry(ctx, C, f)
        for ni, name in ((4, "matching model"), (3, "model with fewer items"), (6, "model with more items (cold ones included)"), (7, "model with more items")):
            V = {a(self_, "n_warm_items"): 4, a(self_, "n_cold_items"): 2, a(self_, "n_items"): 6, a(self_, "offset"): 0, a(self_, "n_users"): 3, a(m, "n_items"): ni}
            S = Sizes(ctx, values=V)
            S0 = S if ni == 4 else S0
            v, why = verdict(e.effs, S, S0 if ni != 4 else None)
            if ni != 4:
                ctx.ob("model-size", f"{C.name}.{meth}: {name}", v, f"accepted: no check rejects {name}" if v is False else why, e.loc)
            else:
                ctx.ob("consistent-accepted", f"{C.name}.{meth}: {name}", v is not True, f"rejected although consistent: {name}", e.loc)


def score_matrices(ctx):
    E = ctx.proj.find_class("irspack.evaluation.evaluator.Evaluator")
    self_, s = sym("self"), sym("scores")
    V = {mk("attr", self_, "n_users"): 3, mk("attr", self_, "n_items"): 4}
    for meth in ("get_score_from_score_matrix", "get_scores_from_score_matrix"):
        e = Entry(ctx, E, E.find(meth), consts=dict(scores=s))
        first = [x for x in e.effs if any(y is s for p in x.path for y in walk(p))]
        for sh, dt, name in (((3, 4), "float64", "matching float64"), ((3, 4), "float32", "matching float32"), ((3, 5), "float64", "more items"), ((3, 3), "float64", "fewer items"), ((2, 4), "float64", "fewer users"),
                             ((4, 4), "float64", "more users"), ((4, 3), "float64", "transposed"), ((12,), "float64", "one-dimensional"), ((3, 4), "int64", "integer scores"), ((3, 4), "float16", "half precision")):
            S = Sizes(ctx, {s: sh}, values=V, dtypes={s: dt})
            S0 = S if name == "matching float64" else S0
            v, why = verdict(e.effs, S, None if "matching" in name else S0)
            if "matching" in name:
                ctx.ob("consistent-accepted", f"{e.name}: {name}", v is not True, "rejected although consistent", e.loc)
            else:
                ctx.ob("score-matrix-shape", f"{e.name}: {name}", v, f"accepted: no check rejects {name}" if v is False else why, e.loc)


def chunk_scores(ctx):
    """Inside the stream: each chunk is checked before it is used."""
    E = ctx.proj.find_class("irspack.evaluation.evaluator.Evaluator")
    self_ = sym("self")
    for meth in ("get_score_from_score_chunks", "get_scores_from_score_chunks"):
        e = Entry(ctx, E, E.find(meth))
        el = {y for x in e.effs for p in x.path for y in walk(p) if y.op == "elem" and y.a[0] is sym("score_chunks")}
        if len(el) != 1:
            ctx.ob("chunk-shape", e.name, None, "stream loop not recognised", e.loc)
            continue
        s = el.pop()
        for sh, dt, name in (((2, 5), "float64", "more items"), ((2, 3), "float64", "fewer items"), ((8,), "float64", "one-dimensional"), ((2, 4), "int64", "integer scores")):
            V = {mk("attr", self_, "n_users"): 3, mk("attr", self_, "n_items"): 4}
            S = Sizes(ctx, {s: sh}, values=V, dtypes={s: dt})
            v, why = verdict([x for x in e.effs if any(y is s for p in x.path for y in walk(p))], S, Sizes(ctx, {s: (2, 4)}, values=V, dtypes={s: "float64"}))
            ctx.ob("chunk-shape", f"{e.name}: {name}", v, f"accepted: no check rejects {name}" if v is False else why, e.loc)
        S = Sizes(ctx, {s: (2, 4)}, values={mk("attr", self_, "n_users"): 3, mk("attr", self_, "n_items"): 4}, dtypes={s: "float32"})
        v, why = verdict([x for x in e.effs if any(y is s for p in x.path for y in walk(p))], S)
        ctx.ob("consistent-accepted", f"{e.name}: matching chunk", v is not True, "rejected although consistent", e.loc)


def pairs(ctx):
    P = ctx.proj.find_class("irspack.split.userwise.UserTrainTestInteractionPair")
    u, a, b, it = sym("user_ids"), sym("X_train"), sym("X_test"), sym("item_ids")
    e = Entry(ctx, P, consts=dict(X_test=NONE))
    for n, name in ((3, "one ID per row"), (2, "fewer user IDs"), (4, "more user IDs")):
        e.must("user-ids", name, Sizes(ctx, {a: (3, 4)}, {u: n}), n != 3)
    e = Entry(ctx, P, consts=dict(X_test=b))
    for d, name in (((3, 4), "equal shapes"), ((3, 5), "more test items"), ((3, 3), "fewer test items"), ((2, 4), "fewer test users"), ((4, 4), "more test users")):
        e.must("train-test-shape", name, Sizes(ctx, {a: (3, 4), b: d}, {u: 3}), d != (3, 4))
    for xt in (b, NONE):
        e = Entry(ctx, P, consts=dict(X_test=xt, item_ids=it))
        for n, name in ((4, "one ID per column"), (3, "fewer item IDs"), (5, "more item IDs")):
            e.must("item-ids", name + (" without test part" if xt is NONE else ""), Sizes(ctx, {a: (3, 4), b: (3, 4)}, {u: 3, it: n}), n != 4)
    f = P.find("concat")
    e = Entry(ctx, P, f)
    s, o = sym("self"), sym("other")
    I = e.I
    for n, name in ((4, "equal items"), (3, "fewer items"), (5, "more items")):
        sh = {mk("attr", s, "X_train"): (3, 4), mk("attr", o, "X_train"): (2, n), mk("attr", s, "X_test"): (3, 4), mk("attr", o, "X_test"): (2, n)}
        V = {mk("attr", s, "n_items"): 4, mk("attr", o, "n_items"): n, mk("attr", s, "n_users"): 3, mk("attr", o, "n_users"): 2}
        effs = [x for x in e.effs if any(y is o for p in x.path for y in walk(p))]
        v, why = verdict(e.effs, Sizes(ctx, sh, values=V))
        if n != 4:
            ctx.ob("concat-items", f"{e.name}: {name}", v, f"accepted: no check rejects {name}" if v is False else why, e.loc)
        else:
            ctx.ob("consistent-accepted", f"{e.name}: {name}", v is not True, "rejected although consistent", e.loc)


def mappers(ctx):
    M = ctx.proj.find_class("irspack.utils.id_mapping.ItemIDMapper")
    IDM = ctx.proj.find_class("irspack.utils.id_mapping.IDMapper")
    s = sym("self")
    ids, uids = mk("attr", s, "item_ids"), mk("attr", s, "user_ids")
    rec, sc = sym("recommender"), sym("score")

    def sized(e, rule, what, S, reject):
        if not reject:
            e.S0 = S
        v, why = verdict(e.effs, S, e.S0 if reject else None)
        if reject:
            ctx.ob(rule, f"{e.name}: {what}", v, f"accepted: no check rejects {what}" if v is False else why, e.loc)
        else:
            ctx.ob("consistent-accepted", f"{e.name}: {what}", v is not True, f"rejected although consistent: {what}", e.loc)

    for cls in (M, IDM):
        for meth in ("recommend_for_new_user", "recommend_for_new_user_batch"):
            e = Entry(ctx, cls, cls.find(meth))
            for n, name in ((4, "matching recommender"), (3, "recommender with fewer items"), (5, "recommender with more items")):
                sized(e, "recommender-items", name, Sizes(ctx, lens={ids: 4}, values={mk("attr", rec, "n_items"): n}), n != 4)
    for meth in ("recommend_for_known_user_id", "recommend_for_known_user_batch"):
        e = Entry(ctx, IDM, IDM.find(meth))
        for n, name in ((3, "matching recommender"), (2, "recommender with fewer users"), (4, "recommender with more users")):
            sized(e, "recommender-users", name, Sizes(ctx, lens={ids: 4, uids: 3}, values={mk("attr", rec, "n_users"): n, mk("attr", rec, "n_items"): 4}), n != 3)
    e = Entry(ctx, M, M.find("score_to_recommended_items"))
    for n, name in ((4, "matching scores"), (3, "fewer scores"), (5, "more scores")):
        sized(e, "score-items", name, Sizes(ctx, {sc: (n,)}, {ids: 4}), n != 4)
    fb, pu = sym("forbidden_item_ids"), sym("per_user_allowed_item_ids")
    e = Entry(ctx, M, M.find("score_to_recommended_items_batch"))
    for n, name in ((4, "matching scores"), (3, "fewer score columns"), (5, "more score columns")):
        sized(e, "score-items", name, Sizes(ctx, {sc: (2, n)}, {ids: 4}), n != 4)
    for p, pn in ((fb, "forbidden"), (pu, "allowed")):
        e = Entry(ctx, M, M.find("score_to_recommended_items_batch"), consts={p.a[0]: p})
        for n, name in ((2, f"one {pn} list per row"), (1, f"fewer {pn} lists"), (3, f"more {pn} lists")):
            sized(e, "filter-rows", name, Sizes(ctx, {sc: (2, 4)}, {ids: 4, p: n}), n != 2)


def splits(ctx):
    m = ctx.proj.modules["irspack.split.userwise"]
    f = m.funcs["split_dataframe_partial_user_holdout"]
    v, t = sym("val_user_ratio"), sym("test_user_ratio")
    base = dict(val_user_ratio=v, test_user_ratio=t)
    e = Entry(ctx, None, f, consts=base)
    uniq = {y for x in e.effs for p in x.path for y in walk(norm(p)) if y.op in ("len", "dim")}
    for a, b, rej, name in ((0.3, 0.3, False, "ratios within bounds"), (0.0, 0.0, False, "zero ratios"), (-0.1, 0.3, True, "negative validation ratio"), (1.1, 0.0, True, "validation ratio above one"), (0.3, -0.1, True, "negative test ratio"),
                            (0.0, 1.1, True, "test ratio above one"), (0.7, 0.7, True, "ratios that add up to more than one")):
        S = Sizes(ctx, values=dict({v: a, t: b}, **{}))
        S.values.update({y: 10 for y in uniq})
        e2 = verdict(e.effs, S)
        ctx.ob("user-ratios" if rej else "consistent-accepted", f"{f.name}: {name}", (e2[0] if rej else e2[0] is not True), f"{'accepted' if rej else 'rejected'}: {name} {e2[1]}", f.loc())
    nv, nt = sym("n_val_user"), sym("n_test_user")
    e = Entry(ctx, None, f, consts=dict(n_val_user=nv, n_test_user=nt))
    uniq = {y for x in e.effs for p in x.path for y in walk(norm(p)) if y.op in ("len", "dim")}
    for a, b, rej, name in ((3, 4, False, "counts within bounds"), (5, 5, False, "counts that use every user"), (11, 0, True, "more validation users than users"), (0, 11, True, "more test users than users"), (6, 5, True, "more held-out users than users")):
        S = Sizes(ctx, values={nv: a, nt: b})
        S.values.update({y: 10 for y in uniq})
        e2 = verdict(e.effs, S)
        ctx.ob("user-counts" if rej else "consistent-accepted", f"{f.name}: {name}", (e2[0] if rej else e2[0] is not True), f"{'accepted' if rej else 'rejected'}: {name} {e2[1]}", f.loc())
    f = ctx.proj.modules["irspack.split.specified"].funcs["holdout_specific_interactions"]
    a, b = sym("validatable_user_ratio_val"), sym("validatable_user_ratio_test")
    e = Entry(ctx, None, f, consts={a.a[0]: a, b.a[0]: b})
    S0 = Sizes(ctx, values={a: 0.2, b: 0.2})
    own = [r for r in e.effs if not any("UserTrainTestInteractionPair" in str(q) for q in r.stack)]     # its own shape checks are met (C08)
    for x, y, rej, name in ((0.2, 0.2, False, "ratios within bounds"), (0.5, 0.5, False, "ratios that use every user"), (0.6, 0.6, True, "ratios that add up to more than one"), (1.2, 0.0, True, "validation ratio above one")):
        e2 = verdict(own, Sizes(ctx, values={a: x, b: y}), S0 if rej else None)
        ctx.ob("user-ratios" if rej else "consistent-accepted", f"{f.name}: {name}", (e2[0] if rej else e2[0] is not True), f"{'accepted' if rej else 'rejected'}: {name} {e2[1]}", f.loc())


BAD = "no-such-option"
OPTIONS = [
    # class, parameter, documented values
    ("irspack.evaluation.evaluator.Evaluator", "target_metric", ["ndcg", "recall", "hit", "map", "precision"]),
    ("irspack.evaluation.evaluator.EvaluatorWithColdUser", "target_metric", ["ndcg", "recall", "hit", "map", "precision"]),
    ("irspack.recommenders.bpr.BPRFMRecommender", "loss", ["bpr", "warp"]),
    ("irspack.recommenders.ials.IALSRecommender", "confidence_scaling", ["none", "log"]),
    ("irspack.recommenders.ials.IALSRecommender", "solver_type", ["CG", "CHOLESKY", "IALSPP"]),
    ("irspack.recommenders.ials.IALSRecommender", "loss_type", ["ORIGINAL", "IALSPP"]),
]
for _k in ("CosineKNN", "AsymmetricCosineKNN"):
    OPTIONS.append((f"irspack.recommenders.knn.{_k}Recommender", "feature_weighting", ["NONE", "TF_IDF", "BM_25"]))
for _k in ("CosineUserKNN", "AsymmetricCosineUserKNN"):
    OPTIONS.append((f"irspack.recommenders.user_knn.{_k}Recommender", "feature_weighting", ["NONE", "TF_IDF", "BM_25"]))


def option(ctx, qual, p, good):
    c = ctx.proj.find_class(qual)
    if c is None:
        raise AnalysisError(f"{qual} not found")
    init = c.find("__init__")
    for val in good + [BAD]:
        I = Interp(ctx.proj)
        st = State()
        o = mk("new", c.qual, (), (), I.site())
        I.pending_raises = []
        done = True
        try:
            I.run(init, args={p: const(val)}, st=st, selfterm=o, cls=c, use_defaults=False)
        except Unreachable:
            done = False
        learn = c.find("learn")
        if done and learn is not None:
            try:
                done = I.run(learn, st=st, selfterm=o, cls=c) is not None
            except Unreachable:
                done = False
        ctx.saw(*I.analysed)
        bad = bad_lookup(ctx, I, 0, st)
        certain = [e for e in I.effects if e.kind == "raise" and not [q for q in e.path if norm(q) is not TRUE]]
        if val is BAD:
            ok = bool(not done or bad or certain)
            ctx.ob("option-rejected", f"{c.name}({p}={val!r})", ok, "an undocumented value is accepted", init.loc())
        else:
            ok = done and not bad and not certain
            ctx.ob("option-accepted", f"{c.name}({p}={val!r})", ok, "a documented value is rejected", init.loc())


def features_need_solver(ctx):
    c = ctx.proj.find_class("irspack.recommenders.ials.IALSRecommender")
    init = c.find("__init__")
    for side in ("user_features", "item_features"):
        for solver, rej in (("IALSPP", True), ("CG", False), ("CHOLESKY", False)):
            other = "item_features" if side == "user_features" else "user_features"
            e = Entry(ctx, c, consts={side: sym(side), other: NONE, "solver_type": const(solver), "n_threads": const(1)})
            v, why = verdict(e.effs, Sizes(ctx, {sym(side): (3, 2), sym("X_train_all"): (3, 3)}))
            ctx.ob("features-solver" if rej else "consistent-accepted", f"{c.name}: {side} with solver {solver}", v if rej else v is not True, f"{'accepted' if rej else 'rejected'} {why}", init.loc())


def config_class(ctx):
    B = ctx.proj.find_class(BASE)
    f = B.find("from_config")
    I, st, v = analyse(ctx, f, B)
    rs = [e for e in I.effects if e.kind == "raise"]
    ok = None
    for e in rs:
        for p in e.path:
            p = norm(p)
            if p.op == "not" and any(y is sym("config") for y in walk(p)) and ("isinstance" in str(p.a[0].op) or any(y.op == "ext" and y.a[0] == "builtins.isinstance" for y in walk(p))):
                ok = True
            elif p.op != "not" and ok is None and any(y is sym("config") for y in walk(p)) and ("isinst" in p.op or p.op == "truth" and any(y.op == "ext" and y.a[0] == "builtins.isinstance" for y in walk(p))):
                ok = False
    if ok is None and not rs:
        ok = False
    ctx.ob("config-type", "BaseRecommender.from_config", ok, "a configuration of another class is accepted", f.loc())


def mind(ctx):
    m = ctx.proj.modules.get("irspack.dataset.mind")
    if m is None:
        return
    for c in [k for k in ctx.proj.all_classes() if k.module is m]:
        for f in c.methods.values():
            for p, good in (("size", ["small", "large"]), ("download_source", ["huggingface", "azure"]), ("split", ["train", "dev"])):
                names = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
                if p not in names or f.name.startswith("_") and f.name != "__init__":
                    continue
                for val in good + [BAD]:
                    e = Entry(ctx, c, None if f.name == "__init__" else f, consts={p: const(val)})
                    certain = any(not [q for q in x.path if norm(q) is not TRUE] for x in e.effs)
                    if val is BAD:
                        ctx.ob("option-rejected", f"{e.name}({p}={val!r})", certain or None if not e.effs else certain, "an undocumented value is accepted", f.loc())
                    else:
                        ctx.ob("option-accepted", f"{e.name}({p}={val!r})", not certain, "a documented value is rejected", f.loc())


def ranges(ctx):
    """Tuning ranges: low > high and unusable parameter names are rejected, everything else is accepted."""
    from .c14 import ev, Unknown
    base = ctx.proj.find_class("irspack.optimization.parameter_range.ParameterRange")
    if base is None:
        return
    for c in ctx.proj.subclasses(base.qual):
        init = c.find("__init__")
        if init is None:
            continue
        I, st, o = construct(ctx, c)
        path = [norm(p) for p in st.path]
        low, high, name = sym("low"), sym("high"), sym("name")
        if {"low", "high"} <= set(init.params()):
            rel = [p for p in path if contains(p, low) and contains(p, high)]
            ok, why = True, ""
            for a, b in ((1, 2), (2, 2), (2, 1), (5, 1)):
                try:
                    got = all(ev(p, {low: a, high: b}) for p in rel)
                except Unknown:
                    ok = None
                    break
                if got != (a <= b):
                    ok, why = False, f"a range from {a} to {b} is {'accepted' if got else 'rejected'}"
                    break
            ctx.ob("range-ordered", c.name, ok, why, init.loc())
        rel = [p for p in path if contains(p, name)]
        m = {x for p in rel for x in walk(p) if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("match", "fullmatch", "search") or
             x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("re.match", "re.fullmatch", "re.search")}
        ok, why = (None if rel else False), "any parameter name is accepted"
        if m:
            try:
                good = all(ev(p, {x: 1 for x in m}) for p in rel)
                bad = all(ev(p, {x: None for x in m}) for p in rel)
                ok, why = good and not bad, "valid parameter names are rejected" if not good else "invalid parameter names are accepted"
            except Unknown:
                ok = None
        ctx.ob("range-name", c.name, ok, why, init.loc())


def check(ctx):
    for f in (evaluators, ranges, cold, model_checks, score_matrices, chunk_scores, pairs, mappers, splits, features_need_solver, config_class, mind):
        ctx.guard(f, ctx)
    for q, p, good in OPTIONS:
        ctx.guard(option, ctx, q, p, good)
