"""C07: constructor arguments of every recommender, followed to the native or third-party learner."""
from ..common import *
from ..norm import norm, eqv

LEVEL = "proof"
MIN_OBLIGATIONS = 150
EXPLANATION = ("Every recommender is constructed with symbolic arguments and its learning code analysed on that object; the arguments of each "
               "learner call (native computers and builders bound through the type stubs, scikit-learn, LightFM, haiku/optax) are compared with "
               "the role the constructor argument has to play, and a constructor argument which reaches no learner call, stored model or branch is "
               "reported as dropped. Configuration fields and default search spaces are compared with the constructor signature.")
ASSUMPTIONS = ["builder setters set_<name> set the field of that name (checked on the native side by C17)"]

S = sym


def given(p):
    """The caller's value once the None default is excluded."""
    return lambda P, t: norm(assume(t, isnone(S(p)), False)) is S(p)


def exactly(f):
    return lambda P, t: eqv(t, f(P) if callable(f) else S(f))


def default_none(p, other):
    """p, or other(P) when it is None."""
    return lambda P, t: norm(assume(t, isnone(S(p)), False)) is S(p) and norm(assume(t, isnone(S(p)), True)) is norm(other(P))


def getname(enum_, p):
    def f(P, t):
        t = norm(t)
        if not contains(t, S(p)):
            return False
        return any(x.op in ("cls", "enum", "enumval") and str(x.a[0]).split(".")[-1] == enum_ for x in walk(t))
    return f


def X(P):
    return S("X_train_all") if "X_train_all" in P else S("X_train")


def XT(P):
    return transpose(X(P))


nt = given("n_threads")
KNN = [("compute_similarity", "top_k", "top_k", exactly("top_k"))]
ITEM = [("compute_similarity", "X", None, exactly(XT))]
USER = [("compute_similarity", "X", None, exactly(X))]
BM = [("okapi_BM_25_weight", "X", None, exactly(X)), ("okapi_BM_25_weight", "k1", "bm25_k1", exactly("bm25_k1")), ("okapi_BM_25_weight", "b", "bm25_b", exactly("bm25_b")),
      ("tf_idf_weight", "X", None, exactly(X))]


def computer(cls, *names):
    return [(cls, "shrinkage", "shrinkage", exactly("shrinkage")), (cls, "n_threads", "n_threads", nt)] + [(cls, n, n, exactly(n)) for n in names]


COS = computer("CosineSimilarityComputer", "normalize")
ASY = computer("AsymmetricSimilarityComputer", "alpha")


def walks(cls, *names):
    return [(cls, "X", None, exactly(XT)), (cls, "n_threads", "n_threads", nt), ("compute_W", "X", None, exactly(XT)),
            ("compute_W", "top_k", "top_k", default_none("top_k", lambda P: dim(X(P), 1)))] + [(cls, n, n, exactly(n)) for n in names]


def slim(fn):
    U = lambda P: dim(X(P), 0)
    return [(fn, "X", None, exactly(X)), (fn, "n_threads", "n_threads", nt), (fn, "n_iter", "n_iter", exactly("n_iter")), (fn, "tol", "tol", exactly("tol")),
            (fn, "l2_coeff", "alpha", exactly(lambda P: mul(mul(U(P), S("alpha")), sub(ONE, S("l1_ratio"))))),
            (fn, "l1_coeff", "l1_ratio", exactly(lambda P: mul(mul(U(P), S("alpha")), S("l1_ratio")))),
            (fn, "top_k", "top_k", default_none("top_k", lambda P: const(-1)))]


IM, IS = "IALSModelConfig", "IALSSolverConfig"


def solver(i, steps, it):
    k = f"{IS}#{i}"
    return [(k, "n_threads", "n_threads", nt), (k, "solver_type", "solver_type", getname("SolverType", "solver_type")), (k, "max_cg_steps", steps, exactly(steps)),
            (k, "ialspp_subspace_dimension", "ialspp_subspace_dimension", exactly("ialspp_subspace_dimension"))] + (
               [(k, "ialspp_iteration", it, exactly(it))] if it else [])


def scaled_reg(P, t):
    t = norm(t)
    if norm(assume(t, isnone(S("nu_star")), True)) is not S("reg"):
        return False
    u = norm(assume(t, isnone(S("nu_star")), False))
    if not all(contains(u, S(p)) for p in ("reg", "alpha0", "nu", "nu_star")):
        return False
    # reg * scale(nu_star) / scale(nu): swapping the exponents inverts the ratio
    if u.op == "div":
        num, den = u.a
    elif u.op == "mul":
        d = [x for x in u.a[0] if x.op == "div"]
        if len(d) != 1:
            return None
        num, den = d[0].a
        if not contains(num, S("reg")) and S("reg") not in u.a[0]:
            return False
    else:
        return None
    if contains(den, S("nu_star")) or contains(num, S("nu")) or contains(den, S("reg")):
        return False
    if opaque(u):
        return None
    ref = norm(mul(S("reg"), subst(den, {S("nu"): S("nu_star")})))
    full = num if u.op == "div" else norm(mul(*[x for x in u.a[0] if x is not d[0]], num))
    if ref is not norm(full):
        return False
    return scale(P, den)


def scale(P, den):
    """sum over the rows of (N_u + alpha0 * items) ** nu, plus the same over the columns."""
    a0 = S("alpha0")
    parts = [x for x, k in sorted(lin_parts(den).items(), key=lambda z: repr(z[0])) if x is not None and k == 1]
    rest = {x: k for x, k in lin_parts(den).items() if x is None or k != 1}
    pows = [x for x in walk(den) if x.op == "pow" and contains(x, S("nu"))]
    if len(pows) == 1 and [k for x, k in lin_parts(den).items() if x is not None] == [2]:
        return False        # the same side twice
    if len(pows) != 2:
        return None
    if len(parts) != 2 or any(k for k in rest.values()) or not all(len([y for y in walk(p) if y in pows]) == 1 for p in parts):
        return False
    axes = set()
    for p in pows:
        base, ex = p.a
        if ex is not S("nu"):
            return False
        for k in (0, 1):
            c = norm(sub(base, mul(a0, dim(X(P), k))))
            if not contains(c, a0):
                axes.add(k)
                break
        else:
            return False
        ip = mk("attr", norm(X(P)), "indptr")
        if contains(c, ip):
            leaves_ = {y for y in walk(c) if y.op == "sym"}
            ends = norm(mk("attr", X(P), "indptr"))
            want = norm(sub(mk("idx", ends, mk("slice", ONE, NONE, NONE)), mk("idx", ends, mk("slice", NONE, const(-1), NONE))))
            if c is not want and leaves_ <= {y for y in walk(want) if y.op == "sym"} and all(y.op in ("lin", "idx", "attr", "sym", "slice", "const") for y in walk(c)):
                return False
    return axes == {0, 1}


def lin_parts(t):
    """term -> coefficient of a sum (constant under None)."""
    if t.op == "lin":
        out = dict(t.a[1])
        if t.a[0]:
            out[None] = t.a[0]
        return out
    return {t: 1}


TABLE = {
    "BPRFMRecommender": [("LightFM", "no_components", "n_components", exactly("n_components")), ("LightFM", "item_alpha", "item_alpha", exactly("item_alpha")),
                         ("LightFM", "user_alpha", "user_alpha", exactly("user_alpha")), ("LightFM", "loss", "loss", exactly("loss")),
                         ("fit_partial", "num_threads", "n_threads", nt), ("fit_partial", 0, None, exactly(X)), ("@train_epochs", "", "train_epochs", exactly("train_epochs"))],
    "IALSRecommender": [(IM, "K", "n_components", exactly("n_components")), (IM, "init_stdev", "init_std", exactly("init_std")), (IM, "alpha0", "alpha0", exactly("alpha0")),
                        (IM, "reg", "reg", scaled_reg), (IM, "nu", "nu", exactly("nu")), (IM, "loss_type", "loss_type", getname("LossType", "loss_type")),
                        (IM, "random_seed", "random_seed", exactly("random_seed")), (IM, "lambda_user_feature", "lambda_user_feature", exactly("lambda_user_feature")),
                        (IM, "lambda_item_feature", "lambda_item_feature", exactly("lambda_item_feature")),
                        (IM, "feature_warmup_epochs", "feature_warmup_epochs", exactly("feature_warmup_epochs")),
                        ("@train_epochs", "", "train_epochs", exactly("train_epochs"))],
    "CosineKNNRecommender": KNN + ITEM + BM + COS,
    "AsymmetricCosineKNNRecommender": KNN + ITEM + BM + ASY,
    "JaccardKNNRecommender": KNN + ITEM + computer("JaccardSimilarityComputer"),
    "TverskyIndexKNNRecommender": KNN + ITEM + computer("TverskyIndexComputer", "alpha", "beta"),
    "CosineUserKNNRecommender": KNN + USER + BM + COS,
    "AsymmetricCosineUserKNNRecommender": KNN + USER + BM + ASY,
    "P3alphaRecommender": walks("P3alphaComputer", "alpha"),
    "RP3betaRecommender": walks("RP3betaComputer", "alpha", "beta"),
    "SLIMRecommender": slim("slim_weight_positive_only") + slim("slim_weight_allow_negative"),
    "NMFRecommender": [("NMF", "n_components", "n_components", exactly("n_components")), ("NMF", "l1_ratio", "l1_ratio", exactly("l1_ratio")),
                       ("NMF", "beta_loss", "beta_loss", exactly("beta_loss")), ("NMF", "init", "init", exactly("init")), ("NMF", "alpha|alpha_W", "alpha", exactly("alpha"))],
    "TruncatedSVDRecommender": [("TruncatedSVD", "random_state", "random_seed", exactly("random_seed")),
                                ("TruncatedSVD", "n_components", "n_components", lambda P, t: norm(t) is norm(min_(S("n_components"), sub(dim(X(P), 1), ONE)))
                                 or norm(t) is norm(phi(le(dim(X(P), 1), S("n_components")), sub(dim(X(P), 1), ONE), S("n_components"))))],
    "DenseSLIMRecommender": [], "EDLAERecommender": [], "TopPopRecommender": [], "MultVAERecommender": [],
}


def opaque(t):
    return any(x.op in ("mu", "loopout", "unknown", "havoc") for x in walk(t))


def check(ctx):
    for c in recommenders(ctx):
        init = c.find("__init__")
        if abstract(c):
            continue
        ctx.guard(one, ctx, c, init)
        ctx.guard(config, ctx, c, init)
    for c in recommenders(ctx):
        if c.name == "MultVAERecommender":
            ctx.guard(multvae, ctx, c)
        if c.name == "IALSRecommender":
            ctx.guard(ials_solvers, ctx, c)
        if c.name in ("DenseSLIMRecommender", "EDLAERecommender"):
            ctx.guard(ridge, ctx, c)
    ctx.guard(from_config, ctx)


def abstract(c):
    """Some method in force is still abstract."""
    names = set()
    for k in c.mro():
        names |= set(k.methods)
    return any(c.find(n) is not None and c.find(n).is_abstract for n in names)


def sinks(ctx, c, I, st, effects):
    out = []
    count = {}
    for e in effects:
        if e.kind == "new" and getattr(e.cls, "stub", None) is not None or (e.kind == "new" and e.cls.qual.split(".")[-2].startswith("_")):
            n = e.cls.name
            count[n] = count.get(n, 0) + 1
            a = dict(e.kwargs)
            for i, x in enumerate(e.args):
                a[i] = x
            for k in (n, f"{n}#{count[n]}"):
                out.append((k, a, e))
        elif e.kind == "call":
            fn = e.fn
            n = None
            if fn.op == "ext":
                n = fn.a[0].split(".")[-1]
                if fn.a[0].startswith(("builtins.", "warnings.")):
                    continue
            elif fn.op == "fn":
                n = str(fn.a[0]).split(".")[-1].rstrip(">")
                n = getattr(fn.a[0], "name", n)
            elif fn.op == "attr":
                n = fn.a[1]
            if n:
                a = dict(e.kwargs)
                if "**" in a:
                    d = I.deep(a.pop("**"), st)
                    a.update(entries(d))
                for i, x in enumerate(e.args):
                    a.setdefault(i, x)
                out.append((n, a, e))
    return out


def entries(d):
    """Known string keys of a dict term."""
    d = strip(d)
    if d.op == "dict":
        return {q.a[0]: v for k, v in d.a[0] for _, q in leaves(k) if q.op == "const"}
    if d.op == "store":
        r = entries(d.a[0])
        for _, k in leaves(d.a[1]):
            if k.op == "const":
                r[k.a[0]] = d.a[2]
        return r
    if d.op == "dictmerge":
        r = entries(d.a[0])
        r.update(entries(d.a[1]))
        return r
    return {}


def learnt(ctx, c):
    I, st, obj = construct(ctx, c)
    n0 = len(I.effects)
    ct = c.find("_create_trainer")
    if ct is not None and not ct.is_abstract:
        analyse(ctx, ct, c, selfterm=obj, st=st, interp=I)
        I2, st2, v = I, st, None
        f = c.find("start_learning")
        tr = None
        I, st, tr = analyse(ctx, ct, c, selfterm=obj, st=st, interp=I)
        if tr is not None and tr in I.types or tr is not None and tr.op == "new":
            tc = I.types.get(tr) or ctx.proj.find_class(tr.a[0])
            rf = tc.find("run_epoch") if tc else None
            if rf is not None and not rf.is_abstract:
                analyse(ctx, rf, tc, selfterm=tr, st=st, interp=I)
    else:
        f = c.find("_learn")
        I, st, v = analyse(ctx, f, c, selfterm=obj, st=st, interp=I)
    return I, st, obj, I.effects[n0:]


# nothing else in the package computes what these compute
MUST = {"fit_partial", "compute_W", "slim_weight_positive_only", "slim_weight_allow_negative", "LightFM", "NMF", "TruncatedSVD"}


def one(ctx, c, init):
    I, st, obj, E = learnt(ctx, c)
    P = [p for p in init.params() if p != "self"]
    sk = sinks(ctx, c, I, st, E)
    spec = TABLE.get(c.name)
    for sink, arg, p, pred in spec or []:
        where = f"{c.name} {p or arg} -> {sink}({arg})"
        if p is not None and p not in P:
            continue
        if sink.startswith("@"):
            t = st.heap.get((obj, sink[1:])) if hasattr(st, "heap") else None
            t = attr_of(I, st, obj, sink[1:])
            ctx.ob("role", where, None if t is None else (True if pred(P, t) else False), f"stored as {t is not None and short(t)}", init.loc())
            continue
        found = [(a, e) for n, a, e in sk if n == sink]
        if not found:
            known = all(e.fn.op in ("fn", "ext", "attr") and not (e.fn.op == "ext" and e.fn.a[0].startswith(("builtins.getattr", "functools", "operator"))) for e in E if e.kind == "call")
            ctx.ob("role", where, False if sink in MUST and known else None, f"no {sink} call found", init.loc())
            continue
        for a, e in found:
            t = next((a[k] for k in str(arg).split("|") if k in a), None) if isinstance(arg, str) else a.get(arg)
            if t is None and arg == "X" and 0 in a:
                t = a[0]
            if t is None and arg == "top_k" and 1 in a:
                t = a[1]
            if t is None:
                ctx.ob("role", where, None if any(k.startswith("**") for k in a if isinstance(k, str)) else False, f"{sink} called without {arg}", e.loc)
                continue
            t = norm(strip(I.deep(t, st)))
            ok = pred(P, t)
            ctx.ob("role", where, True if ok else (None if ok is None or opaque(t) else False), f"{sink} gets {arg}={short(t)}", e.loc)
    # nothing dropped
    used = set()
    for e in E:
        for t in e.path:
            used |= {x for x in walk(t) if x.op == "sym"}
        for v in list(e.d.values()):
            for t in terms_in(v):
                used |= {x for x in walk(I.deep(t, st)) if x.op == "sym"}
    own_init = c.find("__init__")
    for p in P:
        if p in ("X_train_all", "X_train") or p == "kwargs" or c.name == "MultVAERecommender":
            continue
        if p == "train_epochs":
            t = attr_of(I, st, obj, p)
            ctx.ob("not-dropped", f"{c.name} {p}", t is not None and contains(t, S(p)), "train_epochs is not stored", init.loc())
            continue
        ctx.ob("not-dropped", f"{c.name} {p}", S(p) in used, f"constructor argument {p} reaches no learner call", init.loc())
    weighting(ctx, c, I, st, sk, P)
    schemes_accepted(ctx, c, I, st, E, P)
    branches(ctx, c, I, st, sk, E, obj)


def terms_in(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, dict):
        return [x for y in v.values() for x in terms_in(y)]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in terms_in(y)]
    return []


def attr_of(I, st, obj, name):
    v = st.heap.get(("a", obj, name))
    if v is None:
        for k, x in st.heap.items():
            if isinstance(k, tuple) and obj in k and name in k:
                return norm(strip(I.deep(x, st)))
        return None
    return norm(strip(I.deep(v, st)))


def given_scheme(t, name):
    u = t
    for x in list(walk(t)):
        if x.op == "eq" and any(y.op == "enum" and y.a[0].endswith("FeatureWeightingScheme") for y in x.a) and contains(x, S("feature_weighting")):
            en = next(y for y in x.a if y.op == "enum")
            u = assume(u, x, en.a[1] == name)
        elif x.op == "eq" and any(y.op == "const" and y.a[0] in ("NONE", "TF_IDF", "BM_25") for y in x.a) and contains(x, S("feature_weighting")):
            en = next(y for y in x.a if y.op == "const")
            u = assume(u, x, en.a[0] == name)
    return norm(u)


def schemes_accepted(ctx, c, I, st, E, P):
    """No weighting scheme that can be asked for is refused."""
    if "feature_weighting" not in P:
        return
    for name in ("NONE", "TF_IDF", "BM_25"):
        bad = [e for e in E if e.kind == "raise" and e.path and all(given_scheme(strip(I.deep(p, st)), name) is TRUE for p in e.path)]
        ctx.ob("scheme-accepted", f"{c.name} {name}", not bad, f"{name} is refused", bad[0].loc if bad else "")


def weighting(ctx, c, I, st, sk, P):
    """The matrix handed to the similarity computer, per weighting scheme."""
    if "feature_weighting" not in P:
        return
    comp = [(a, e) for n, a, e in sk if n.endswith("Computer") and "X" in a]
    for a, e in comp:
        t = norm(strip(I.deep(a["X"], st)))
        item = "UserKNN" not in c.name
        for name, want in (("NONE", None), ("TF_IDF", "tf_idf_weight"), ("BM_25", "okapi_BM_25_weight")):
            u = given_scheme(t, name)
            if item:
                u = norm(transpose(u))
            if want is None:
                ok = u is S("X_train_all")
            else:
                ok = u.op == "call" and u.a[0].op == "fn" and str(getattr(u.a[0].a[0], "name", u.a[0].a[0])).split(".")[-1].rstrip(">") == want
            und = opaque(u) or u.op == "phi" or any(y.op == "in" for y in walk(u))
            ctx.ob("weighting", f"{c.name} {name}", True if ok else (None if und else False), f"with {name} the similarity is computed from {short(u)}", e.loc)


def branches(ctx, c, I, st, sk, E, obj):
    if c.name == "SLIMRecommender":
        for n, a, e in sk:
            if n in ("slim_weight_positive_only", "slim_weight_allow_negative"):
                want = mk("truth", S("positive_only"))
                if n.endswith("negative"):
                    want = not_(want)
                path = [norm(p) for p in e.path]
                ctx.ob("branch", f"{c.name} {n}", want in path or (False if not_(want) in path or not any(contains(p, S("positive_only")) for p in path) else None),
                       f"{n} is used when {' and '.join(map(short, path))}", e.loc)
    if "normalize_weight" in c.find("__init__").params():
        W = attr_of(I, st, obj, "_W")
        if W is not None:
            nw = mk("truth", S("normalize_weight"))
            on, off = norm(assume(W, nw, True)), norm(assume(W, nw, False))
            ctx.ob("branch", f"{c.name} normalize_weight", True if on is not off and size(on) > size(off) else (False if on is off or size(on) < size(off) else None),
                   f"normalize_weight gives {short(on, 150)} against {short(off, 150)}", c.find("_learn").loc())


def size(t):
    return sum(1 for _ in walk(t))


def ials_solvers(ctx, c):
    """Training uses the training solver settings, fold-in the prediction-time ones."""
    ct = c.find("_create_trainer")
    I, st, obj = construct(ctx, c)
    I, st, tr = analyse(ctx, ct, c, selfterm=obj, st=st, interp=I)
    ctx.anchor(tr is not None and tr.op == "new", "trainer object")
    tc = ctx.proj.find_class(tr.a[0])
    P = c.find("__init__").params()

    def config_of(m, name, steps, it):
        f = tc.find(m)
        if f is None:
            ctx.ob("solver-settings", f"{m}", None, "no such method", c.loc() if hasattr(c, "loc") else "")
            return
        n0 = len(I.effects)
        analyse(ctx, f, tc, selfterm=tr, st=st, interp=I)
        calls = [e for e in I.effects[n0:] if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1].startswith(name)]
        if not calls:
            ctx.ob("solver-settings", f"{tc.name}.{m}", None, f"no {name} call", f.loc())
        for e in calls:
            a = e.kwargs.get("solver_config") or next((x for x in list(e.args) + list(e.kwargs.values()) if "SolverConfig" in pp(x)[:200]), None)
            if a is None:
                ctx.ob("solver-settings", f"{tc.name}.{m} {e.fn.a[1]}", None, "no solver configuration passed", e.loc)
                continue
            t = norm(strip(I.deep(a, st)))
            kw = dict(t.a[2]) if t.op == "new" and len(t.a) > 2 and isinstance(t.a[2], tuple) else {}
            for k, p in (("max_cg_steps", steps), ("ialspp_iteration", it), ("ialspp_subspace_dimension", "ialspp_subspace_dimension"), ("n_threads", "n_threads"), ("solver_type", "solver_type")):
                if p is None:
                    continue
                got = kw.get(k)
                if got is None:
                    ctx.ob("solver-settings", f"{tc.name}.{m} {e.fn.a[1]} {k}", None if not kw else False, f"{k} is not set", e.loc)
                    continue
                got = norm(got)
                good = got is S(p) or (p == "n_threads" and nt(P, got)) or (p == "solver_type" and getname("SolverType", "solver_type")(P, got))
                ctx.ob("solver-settings", f"{tc.name}.{m} {e.fn.a[1]} {k}", True if good else (None if opaque(got) else False), f"{k}={short(got)}", e.loc)

    config_of("run_epoch", "step", "max_cg_steps", None)
    for m in ("transform_user", "transform_item"):
        config_of(m, m, "prediction_time_max_cg_steps", "prediction_time_ialspp_iteration")


def ridge(ctx, c):
    """Regularisation strength enters the diagonal of the inverted Gram matrix."""
    I, st, obj, E = learnt(ctx, c)
    inv = [e for e in E if e.kind == "call" and e.fn.op == "ext" and e.fn.a[0].split(".")[-1] in ("inv", "pinv", "inv_ex", "cho_factor", "solve")]
    if len(inv) != 1:
        ctx.ob("role", f"{c.name} diagonal", None, f"{len(inv)} inversions", c.find("_learn").loc())
        return
    e = inv[0]
    t = norm(strip(I.deep(e.args[0], st)))
    x = S("X_train_all")
    gram = norm(matmul(transpose(x), x))
    n = dim(x, 1)
    if t.op != "store" or norm(t.a[0]) is not gram:
        alt = t.op == "lin" or contains(t, gram)
        ctx.ob("role", f"{c.name} gram", None if alt else False, f"inverts {short(t)}", e.loc)
        return
    ctx.ob("role", f"{c.name} gram", True, "", e.loc)
    i, v = t.a[1], t.a[2]
    ar = norm(mk("arange", ZERO, n, ONE))
    ctx.ob("role", f"{c.name} diagonal", True if i.op == "tuple" and all(norm(y) is ar for y in i.a[0]) else None, f"adds at {short(i)}", e.loc)
    inc = norm(sub(v, idx(gram, i)))
    if c.name == "DenseSLIMRecommender":
        ok = inc is S("reg")
    else:
        p = S("dropout_p")
        d = None
        for cand in walk(inc):
            if cand.op == "call" and cand.a[0].op == "ext" and cand.a[0].a[0] == "numpy.diag":
                d = cand
        if d is None:
            d = next((y for y in walk(inc) if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "diagonal"), None)
        if d is None:
            ctx.ob("role", f"{c.name} increment", None, short(inc), e.loc)
            return
        g = norm(d.a[1][0]) if d.a[1] else None
        okg = g is gram if g is not None else None
        want = norm(add(mul(mk("div", p, sub(ONE, p)), d), S("reg")))
        ok = eqv(inc, want)
    ctx.ob("role", f"{c.name} increment", True if ok else (None if ok is None or opaque(inc) else False), f"the diagonal grows by {short(inc)}", e.loc)


MV = {"dim_z": "dim_z", "enc_hidden_dims": "enc_hidden_dim", "dec_hidden_dims": "dec_hidden_dim", "dropout_p": "dropout_p", "l2_regularizer": "l2_regularizer",
      "kl_anneal_goal": "kl_anneal_goal", "anneal_end_epoch": "anneal_end_epoch", "minibatch_size": "minibatch_size", "learning_rate": "learning_rate"}


def multvae(ctx, c):
    """The network and the update step see each argument in its own place."""
    init = c.find("__init__")
    I, st, obj, E = learnt(ctx, c)
    loc = c.find("_create_trainer").loc()
    tr = next((e for e in E if e.kind == "new" and e.cls.name.endswith("Trainer")), None)
    ctx.anchor(tr is not None, "MultVAE trainer")
    sk = sinks(ctx, c, I, st, E)
    D = lambda t: norm(strip(I.deep(t, st)))

    def ob(p, t, pred, what, loc=loc):
        ok = t is not None and pred(t)
        ctx.ob("role", f"{c.name} {p} -> {what}", True if ok else (None if t is None or opaque(t) else False), f"{what} is {t is not None and short(t)}", loc)

    ad = [(a, e) for n, a, e in sk if n == "adam"]
    for a, e in ad[:1]:
        ob("learning_rate", D(a.get("learning_rate", a.get(0, NONE))), lambda t: t is S("learning_rate"), "adam(learning_rate)", e.loc)
    # the network builder
    tf = [(a, e) for n, a, e in sk if n == "transform"]
    nets = []
    for a, e in tf[:1]:
        n0 = len(I.effects)
        x, p, tn = sym("X!"), sym("p!"), sym("train!")
        try:
            I.call(a[0], [x, p, tn], {}, st, c.find("_create_trainer").node)
        except Unreachable:
            pass
        F = I.effects[n0:]
        vae = [f for f in F if f.kind == "new" and f.cls.name == "MultVAE"]
        for f in vae[:1]:
            kw = {k: D(v) for k, v in f.kwargs.items()}
            names = ctx.proj.find_class(f.cls.qual).find("__init__").params()[1:]
            for nme, v in zip(names, f.args):
                kw[nme] = D(v)
            ob("dim_z", kw.get("latent_dim"), lambda t: t is S("dim_z"), "latent dimension", f.loc)
            ob("enc_hidden_dims", kw.get("enc_hidden_dims"), lambda t: t is mk("list", (S("enc_hidden_dims"),)), "encoder widths", f.loc)
            ob("dec_hidden_dims", kw.get("dec_hidden_dims"), lambda t: t.op == "list" and len(t.a[0]) == 1 and default_none("dec_hidden_dims", lambda P: S("enc_hidden_dims"))(None, t.a[0][0]), "decoder widths", f.loc)
            ob("n_obs", kw.get("n_obs"), lambda t: t is dim(S("X_train_all"), 1), "output width", f.loc)
        drop = [f for f in F if f.kind == "call" and f.fn.op == "ext" and f.fn.a[0].endswith("dropout")]
        for f in drop[:1]:
            ob("dropout rate", D(f.args[1]) if len(f.args) > 1 else None, lambda t: t is p, "hk.dropout(rate)", f.loc)
    # the update step
    up = [e for e in E if e.kind == "call" and "static_argnums" not in e.kwargs and e.loops and len(e.args) == 6]
    if not up:
        ctx.ob("role", f"{c.name} update", None, "no update call found", loc)
    for e in up[:1]:
        a = [D(x) for x in e.args]
        ob("dropout_p", a[5], lambda t: t is S("dropout_p"), "update(dropout)", e.loc)
        kl = a[4]
        ob("kl_anneal_goal", kl, lambda t: contains(t, S("kl_anneal_goal")), "update(kl_coeff)", e.loc)
        ob("anneal_end_epoch", kl, lambda t: contains(t, S("anneal_end_epoch")), "annealing", e.loc)
        ob("minibatch_size", kl, lambda t: contains(t, S("minibatch_size")), "annealing", e.loc)
        dom = norm(e.loops[-1].dom) if e.loops[-1].dom is not None else None
        ob("minibatch_size", dom, lambda t: t.op == "range" and t.a[2] is S("minibatch_size"), "mini-batch step", e.loc)
    used = set()
    for e in E:
        for n, a, _ in sk:
            pass
    reach = set()
    for n, a, e in sk:
        for t in a.values():
            reach |= {x for x in walk(D(t)) if x.op == "sym"}
    for a, e in tf[:1]:
        for f in I.effects:
            if f.kind in ("call",):
                for v in f.d.values():
                    for t in terms_in(v):
                        reach |= {x for x in walk(I.deep(t, st)) if x.op == "sym"}
    for e in E:
        for l in e.loops:
            if l.dom is not None:
                reach |= {x for x in walk(l.dom) if x.op == "sym"}
    for p in MV:
        if p in ("dim_z", "enc_hidden_dims", "dec_hidden_dims"):
            continue
        ctx.ob("not-dropped", f"{c.name} {p}", S(p) in reach, f"constructor argument {p} reaches no learner call", init.loc())
    t = attr_of(I, st, obj, "train_epochs")
    ctx.ob("not-dropped", f"{c.name} train_epochs", None if t is None else t is S("train_epochs"), f"train_epochs={t is not None and short(t)}", init.loc())


def config(ctx, c, init):
    cc = c.class_attr("config_class") if hasattr(c, "class_attr") else None
    names = [p for p in init.params() if p != "self"]
    fields = config_fields(ctx, c)
    if fields is None:
        ctx.ob("config-names", c.name, None, "config_class not resolved", init.loc())
        fields = None
    else:
        for n, loc in fields.items():
            ctx.ob("config-names", f"{c.name} {n}", n in names[1:] or "kwargs" in names, f"configuration field {n} is no constructor argument", loc)
    rng_ = tune_names(ctx, c)
    if rng_ is None:
        ctx.ob("search-space", c.name, None, "default_tune_range not resolved", init.loc())
        return
    seen = set()
    for n in rng_:
        ctx.ob("search-space", f"{c.name} {n}", n in names[1:] and (fields is None or n in fields),
               f"{n} of the default search space is not both a constructor argument and a configuration field", init.loc())
        ctx.ob("search-space", f"{c.name} {n} distinct", n not in seen, f"{n} occurs twice in the default search space", init.loc())
        seen.add(n)


def config_fields(ctx, c):
    import ast
    q = class_value(ctx, c, "config_class")
    if q is None or q.op != "cls":
        return None
    k = ctx.proj.find_class(q.a[0])
    if k is None:
        return None
    out = {}
    for m in k.mro():
        for s in m.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out.setdefault(s.target.id, f"{m.module.relpath}:{s.lineno}" if hasattr(m.module, "relpath") else f"{m.qual}:{s.lineno}")
    return out


def class_value(ctx, c, name):
    I = Interp(ctx.proj)
    st = State()
    try:
        t = I.deep(I.getattr_(mk("cls", c.qual), name, st, c.node), st)
    except AnalysisError:
        return None
    if t.op == "list" or t.op == "concat":
        return I, st, t
    return t


def tune_names(ctx, c):
    r = class_value(ctx, c, "default_tune_range")
    if not isinstance(r, tuple):
        return None
    I, st, t = r
    out = []

    def rec(t):
        t = I.deep(t, st)
        if t.op == "concat":
            return all(rec(x) for x in t.a[0])
        if t.op == "conv":
            return rec(t.a[1])
        if t.op != "list":
            return False
        for x in t.a[0]:
            n = I.getattr_(x, "name", st, c.node)
            if n is None or n.op != "const":
                return False
            out.append(n.a[0])
        return True

    return out if rec(t) else None


def from_config(ctx):
    c = ctx.proj.cls(BASE)
    f = c.find("from_config")
    if f is None:
        ctx.ob("from-config", BASE, None, "no from_config", "")
        return
    I, st, v = analyse(ctx, f, c, selfterm=mk("cls", c.qual), inline=lambda fn: fn.name == "from_config")
    news = [e for e in I.effects if e.kind == "new" and e.cls.qual == c.qual]
    if len(news) != 1:
        ctx.ob("from-config", BASE, None, f"{len(news)} constructions", f.loc())
        return
    e = news[0]
    kw = e.kwargs.get("**")
    ok = kw is not None and contains(norm(kw), S("config")) and any(x.op == "attr" and x.a[1] in ("dict", "model_dump") for x in walk(norm(kw)))
    bad = kw is not None and any(x.op == "attr" and x.a[1] in ("dict", "model_dump") for x in walk(norm(kw))) and not is_plain_dump(norm(kw))
    ctx.ob("from-config", "every configured value is passed", False if bad or kw is None else (True if ok else None), f"constructed with {kw is not None and short(norm(kw))}", e.loc)
    x = e.args[0] if e.args else e.kwargs.get("X_train_all")
    ctx.ob("from-config", "the data is passed", x is not None and norm(x) is S("X_train_all"), "", e.loc)


def is_plain_dump(t):
    if t.op == "conv":
        return is_plain_dump(t.a[1])
    return t.op == "call" and t.a[0].op == "attr" and not t.a[1] and not t.a[2]
