"""C18: fold-in of new users and items uses the model that training used."""
from ..common import *
from ..norm import norm, same

LEVEL = "proof"
TECHNIQUE = "static analysis: relational symbolic dataflow; the arguments that fold-in hands to the native solver are compared with those of training under the substitution of the new interactions for the training ones"
MIN_OBLIGATIONS = 20
EXPLANATION = ("The recommender and its trainer are constructed symbolically. The interactions given to the native learner, as a function of the training matrix, must be the same function of the new interactions at every "
               "fold-in call; the call must be of its own side, with the caller's features and a solver configuration that carries the prediction-time settings; a training epoch is one native step with the "
               "training settings. In the native trainer every solve reached by a step or a fold-in is traced to the worker routine: its factors, interactions, Gram matrix, prior, settings and regularisation scale must be those of its own side, with the Gram matrix computed after the last change of the other side.")
ASSUMPTIONS = ["format and precision conversions keep the values", "the native solver configuration is exactly what its builder was given (C07)"]

IALS = "irspack.recommenders.ials.IALSRecommender"
CORE = sym("<core>")


def check(ctx):
    for c in [ctx.proj.cls(IALS)] + ctx.proj.subclasses(IALS):
        ctx.guard(one, ctx, c)
    from .c18_native import native as native_side
    ctx.guard(native_side, ctx)


def one(ctx, c):
    I, st, o = construct(ctx, c)
    f = c.find("_create_trainer")
    I.pending_raises = []
    tr = I.run(f, st=st, selfterm=o, cls=c)
    if tr.op != "new":
        raise AnalysisError("the trainer is not one object")
    T_ = ctx.proj.find_class(tr.a[0])
    key, core = None, None
    for k, v in st.heap.items():
        if k[0] == "a" and k[1] is tr and any(x.op == "new" and native(ctx, x, "IALSTrainer") for _, x in leaves(v)):
            key, core = k, v
    ctx.anchor(key is not None, "the native learner")
    data = norm(project(ctx, I, st, core, "interaction", 1))
    XT = sym("X_train_all")
    scaling(ctx, c, data, XT, f)
    features(ctx, c, I, st, core, f)
    given_features(ctx, c, I, st, core, f)
    st.heap[key] = CORE
    st.heap[("a", o, "trainer")] = tr
    for k in list(st.heap):
        if k[0] == "a" and k[1] is o and k[2] == "trainer":
            st.heap[k] = tr
    st.heap[("a", o, "trainer")] = tr
    cfg_train = epoch(ctx, c, I, st, o, f)
    X, F = sym("<new interactions>"), sym("<new features>")
    want = norm(subst(data, {XT: X}))
    for side in ("user", "item"):
        for feat in (False, True):
            nm = f"compute_{side}_embedding"
            m = c.find(nm)
            ctx.anchor(m is not None, nm)
            ps = params(m)
            args = {ps[0]: X, ps[1]: F if feat else NONE}
            fold(ctx, c, I, st, o, m, args, side, feat, want, X, F, cfg_train)


def params(f):
    return [x.arg for x in f.node.args.posonlyargs + f.node.args.args][1:]


def native(ctx, x, name):
    c = ctx.proj.find_class(x.a[0]) if isinstance(x.a[0], str) else None
    return c is not None and c.module.is_stub and c.name == name


def arg(x, name, pos):
    """Argument of an object construction or call term."""
    args, kw = (x.a[1], dict(x.a[2]))
    if name in kw:
        return kw[name]
    return args[pos] if pos < len(args) else None


def project(ctx, I, st, v, name, pos):
    """The given constructor argument of every alternative, as one value."""
    if v.op == "phi":
        a, b = project(ctx, I, st, v.a[1], name, pos), project(ctx, I, st, v.a[2], name, pos)
        return phi(v.a[0], a, b)
    if v.op != "new":
        raise AnalysisError(f"the native learner is {short(v, 80)}")
    r = arg(v, name, pos)
    if r is None:
        raise AnalysisError(f"no {name}")
    return I.deep(r, st)


def judge(ctx, rule, what, a, b, loc, say=""):
    r, why = same(a, b)
    ctx.ob(rule, what, r, why or f"{say}{short(norm(a), 200)} instead of {short(norm(b), 200)}", loc)


def scaling(ctx, c, data, XT, f):
    """Training: the values themselves, or log(1 + x / epsilon)."""
    for cs, v in hoist(data):
        none = [a for a in cs if "IALSConfigScaling" in repr_(a)]
        x = strip(v)
        if len(none) != 1:
            ctx.ob("documented-scaling", f"{c.name} training", False if not none and x is XT else None, "the confidence scaling option has no effect" if x is XT else "scheme not recognised", f.loc())
            continue
        plain = none[0].op != "not"
        if plain:
            judge(ctx, "documented-scaling", f"{c.name} training, no scaling", v, XT, f.loc())
        else:
            vs = [y for y in walk(v) if y.op == "withdata"]
            d = vs[0].a[1] if vs else v
            base = norm(vs[0].a[0]) if vs else None
            dd = norm(d)
            logs = [y for y in walk(dd) if y.op == "call" and y.a[0].op == "ext" and str(y.a[0].a[0]).startswith("numpy.log")]
            if x is XT:
                ctx.ob("documented-scaling", f"{c.name} training, log scaling", False, "the values are not scaled", f.loc())
                continue
            if not vs or len(logs) != 1:
                ctx.ob("documented-scaling", f"{c.name} training, log scaling", None, short(dd, 100), f.loc())
                continue
            datas = [y for y in walk(dd) if y.op == "attr" and y.a[1] == "data"]
            if not datas:
                ctx.ob("documented-scaling", f"{c.name} training, log scaling", None, short(dd, 100), f.loc())
                continue
            D, e = datas[0], sym("epsilon")
            l = logs[0]
            g = l.a[1][0]
            log1p = l.a[0].a[0].endswith("log1p")
            w = mk("div", D, e) if log1p else add(ONE, mk("div", D, e))
            ok = dd is l and not l.a[0].a[0].endswith(("log2", "log10"))
            r, why = same(g, w)
            ctx.ob("documented-scaling", f"{c.name} training, log scaling", r if ok or r is False else False, why or f"the values become {short(dd, 120)}", f.loc())


def repr_(t):
    return short(t, 4000)


def features(ctx, c, I, st, core, f):
    for cs, v in leaves(core):
        if v.op != "new":
            continue
        for side, pos in (("user", 2), ("item", 3)):
            a = arg(v, f"{side}_feature", pos)
            if a is None:
                continue
            for c2, x in hoist(norm(I.deep(a, st))):
                syms = {y.a[0] for y in walk(x) if y.op == "sym"}
                other = {"user": "item_features", "item": "user_features"}[side]
                ctx.ob("feature-side", f"{c.name} training {side} features", other not in syms, f"{other} are given as {side} features", f.loc())


def given_features(ctx, c, I, st, core, f):
    """Each combination of given and absent features: what is given reaches the native learner, what is absent is an empty matrix."""
    F = {"user": sym("user_features"), "item": sym("item_features")}
    seen = {}
    for cs, v in leaves(core):
        if v.op != "new":
            continue
        if any(not any(x in F.values() for x in walk(a)) and a.op != "not" for a in cs):
            continue
        for gu in (True, False):
            for gi in (True, False):
                g = {"user": gu, "item": gi}
                fact = {}
                for s_, t in F.items():
                    fact[isnone(t)] = not g[s_]
                if not all(holds(a, fact) for a in cs):
                    continue
                for pos, (side, ax) in enumerate((("user", 0), ("item", 1)), 2):
                    a = arg(v, f"{side}_feature", pos)
                    got = [NONE] if a is None else [x for c2, x in hoist(norm(I.deep(a, st))) if all(holds(y, fact) for y in c2)]
                    where = f"{c.name} training, {'with' if gu else 'no'} user and {'with' if gi else 'no'} item features: {side}"
                    for x in got:
                        x = strip(x)
                        if g[side]:
                            ok = True if x is F[side] else False if x is NONE or x.op == "zeros" else None
                            seen[where] = min3(seen.get(where, True), ok), f"the {side} features given are replaced by {short(x, 60)}"
                        elif x is not NONE:
                            n = dim(sym("X_train_all"), ax)
                            ok = True if x.op == "zeros" and x.a[0].op == "tuple" and x.a[0].a[0] == (n, ZERO) else (None if x.op != "zeros" else False)
                            seen[where] = min3(seen.get(where, True), ok), f"no {side} features, but the learner gets {short(x, 60)}"
    for w, (ok, why) in seen.items():
        ctx.ob("features-reach-learner", w, ok, why, f.loc())


def min3(a, b):
    a = a[0] if isinstance(a, tuple) else a
    return False if a is False or b is False else (None if a is None or b is None else True)


def holds(c, fact):
    """Could c hold?  Atoms that are not in fact are open."""
    r = val(c, fact)
    return r is not False


def val(c, fact):
    if c in fact:
        return fact[c]
    if c.op == "not":
        r = val(c.a[0], fact)
        return None if r is None else not r
    if c.op in ("and", "or"):
        rs = [val(x, fact) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a)]
        z = c.op == "or"
        return z if any(r is z for r in rs) else (None if any(r is None for r in rs) else not z)
    return None


def epoch(ctx, c, I, st, o, f):
    m = c.find("run_epoch")
    n = len(I.effects)
    s = st.copy()
    I.pending_raises = []
    I.run(m, st=s, selfterm=o, cls=c)
    calls = [e for e in I.effects[n:] if e.kind == "call" and e.fn.op == "attr" and e.fn.a[0] is CORE]
    ctx.saw(*I.analysed)
    steps = [e for e in calls if e.fn.a[1] == "step"]
    others = [e for e in I.effects[n:] if e.kind == "call" and e.fn.op not in ("cls", "fn", "bound")]
    ctx.ob("one-step-per-epoch", f"{c.name}.run_epoch", len(steps) == 1 and not steps[0].loops and not [p for p in steps[0].path if p not in st.path] or (None if not steps and others else False),
           f"{len(steps)} native steps", m.loc())
    if not steps:
        return None
    e = steps[0]
    cfg = I.deep((list(e.args) + list(e.kwargs.values()))[0], s)
    config(ctx, c, "run_epoch", cfg, {"max_cg_steps": sym("max_cg_steps"), "ialspp_iteration": ONE}, e.loc)
    return cfg


def config(ctx, c, where, cfg, want, loc, like=None):
    for cs, v in leaves(norm(cfg)):
        if v.op != "new":
            ctx.ob("solver-settings", f"{c.name}.{where}", None, f"configuration {short(v, 80)}", loc)
            continue
        kw = dict(v.a[2])
        for k, w in want.items():
            g = kw.get(k)
            if g is None:
                ctx.ob("solver-settings", f"{c.name}.{where} {k}", None, "not set", loc)
            else:
                judge(ctx, "solver-settings", f"{c.name}.{where} {k}", g, w, loc, f"{k} is ")
        if like is not None and like.op == "new":
            lk = dict(like.a[2])
            for k in lk:
                if k not in want and k in kw and k != "n_threads":
                    judge(ctx, "solver-settings", f"{c.name}.{where} {k}", kw[k], lk[k], loc, f"{k} is ")


def fold(ctx, c, I, st, o, m, args, side, feat, want, X, F, train):
    where = f"{c.name}.{m.name}" + (" with features" if feat else "")
    s = st.copy()
    I.pending_raises = []
    n = len(I.effects)
    try:
        v = I.run(m, args=args, st=s, selfterm=o, cls=c)
    except Unreachable:
        v = None
    ctx.saw(*I.analysed)
    if v is None:
        ctx.ob("folds-in", where, False, "never returns", m.loc())
        return
    v = norm(I.deep(v, s))
    cases = hoist(v)
    wants = hoist(want)
    for cs, x in cases:
        if isnone(F) in cs:
            continue
        x = strip(x)
        loc = m.loc()
        if not (x.op == "call" and x.a[0].op == "attr" and x.a[0].a[0] is CORE):
            inner = [y for y in walk(x) if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[0] is CORE]
            if not inner and not any(y is CORE for y in walk(x)):
                ctx.ob("folds-in", where, None if any(y.op == "call" for y in walk(x)) else False, f"the embedding is {short(x, 100)}", loc)
            else:
                # further arithmetic on the solution is another model
                ctx.ob("folds-in", where, False if x.op in ("lin", "mul", "div", "matmul") and inner else None, f"the embedding is {short(x, 100)}", loc)
            continue
        name = x.a[0].a[1]
        a = list(x.a[1])
        kw = dict(x.a[2])
        fn = f"transform_{side}" + ("_with_feature" if feat else "")
        if name != fn:
            ok = None if name not in ("transform_user", "transform_item", "transform_user_with_feature", "transform_item_with_feature", "transform_user_feature", "transform_item_feature") else False
            ctx.ob("own-side", where, ok, f"{name} is used instead of {fn}", loc)
            continue
        ctx.ob("own-side", where, True, "", loc)
        gx = kw.get("interaction", a[0] if a else None)
        wx = [w for wc, w in wants if possible(ctx, tuple(cs) + tuple(wc))]
        rs = [same(gx, w) for w in wx] if gx is not None else []
        if gx is None or not rs:
            ctx.ob("same-scaling", where, None, "no interactions found", loc)
        else:
            for (r, why), w in zip(rs, wx):
                ctx.ob("same-scaling", where, r, f"fold-in solves for {short(gx, 160)}, training for {short(w, 160)}", loc)
        cfg = kw.get("solver_config", a[-1] if a else None)
        if feat:
            gf = kw.get("feature", a[1] if len(a) > 1 else None)
            if gf is None:
                ctx.ob("own-features", where, None, "no features found", loc)
            else:
                judge(ctx, "own-features", where, gf, F, loc)
        if cfg is not None:
            config(ctx, c, m.name + (" with features" if feat else ""), cfg,
                   {"max_cg_steps": sym("prediction_time_max_cg_steps"), "ialspp_iteration": sym("prediction_time_ialspp_iteration")}, loc, train)


def possible(ctx, cs):
    """Can these conditions hold together?  Enumerations are tried member by member."""
    if any(not_(q) in cs for q in cs):
        return False
    es = {(x, k.a[0]) for q in cs for e in walk(q) if e.op == "eq" for x, k in ((e.a[0], e.a[1]), (e.a[1], e.a[0])) if k.op == "enum" and x.op != "enum"}
    for x, cl in es:
        c = ctx.proj.find_class(cl)
        ms = [n for n in c.attrs] if c is not None and hasattr(c, "attrs") else []
        if not ms:
            continue
        ok = False
        for n in ms:
            m = mk("enum", cl, n)
            vals = [norm(subst(q, {x: m})) for q in cs]
            if not any(v is FALSE or v.op == "eq" and v.a[0].op == v.a[1].op == "enum" and v.a[0] is not v.a[1]
                       or v.op == "not" and v.a[0].op == "eq" and v.a[0].a[0] is v.a[0].a[1] for v in vals):
                ok = True
        if not ok:
            return False
    return True
