"""C06: what one tuning trial builds, trains, scores and records; what the study receives; what is returned."""
from ..common import *
from ..norm import norm

LEVEL = "proof"
MIN_OBLIGATIONS = 40
EXPLANATION = ("tune is analysed through Optimizer up to study.optimize; the objective passed there is then applied to a symbolic trial. "
               "The constructed recommender, its training call, the scored object, the objective value, the recorded attributes, the study "
               "construction, the returned parameters and every suggest() method are compared with their specification in each case of "
               "(study given or not) x (data or data function) x (parameter function given or not).")
ASSUMPTIONS = ["optuna's create_study minimises by default and best_trial is the trial of minimal value",
               "default_tune_range entries of one class have distinct names"]

PR = "irspack.optimization.parameter_range."


def own(fn):
    if fn.name in ("learn_with_optimizer", "get_score", "get_scores", "get_target_score", "_get_score_as_dict"):
        return False
    return not (fn.name == "__init__" and "recommenders" in fn.qual)


def merged(t):
    """Parts of a dictionary merge, later ones winning."""
    t = norm(t)
    if t.op == "dictmerge":
        return merged(t.a[0]) + merged(t.a[1])
    if t.op == "conv" and t.a[0] in ("dict", "copy", "deepcopy"):
        return merged(t.a[1])
    if t.op == "dict" and not t.a[0]:
        return []
    return [t]


def opaque(t):
    return any(x.op in ("mu", "loopout", "unknown", "havoc") for x in walk(t))


def verdict(ok, t):
    return True if ok else (None if opaque(t) else False)


def check(ctx):
    seen = set()
    bases = [ctx.proj.cls(BASE)] + recommenders(ctx)
    for c in bases:
        f = c.find("tune")
        ctx.anchor(f, "tune")
        if f in seen:
            continue
        seen.add(f)
        for study in (False, True):
            ctx.guard(one, ctx, c, f, study)
    seen = set()
    for c in bases:
        f = c.find("tune_doubling_dimension")
        if f and f not in seen:
            seen.add(f)
            ctx.guard(doubling, ctx, c, f)
    for c in ctx.proj.subclasses(PR + "ParameterRange"):
        ctx.guard(suggest, ctx, c)
    ctx.guard(frame, ctx)


def args_of(e, *names):
    """Arguments of an opaque call by position or keyword."""
    out = {}
    for n, a in zip(names, e.args):
        out[n] = a
    out.update(e.kwargs)
    return out


def method(E, name, recv=None):
    return [e for e in E if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == name and (recv is None or e.fn.a[0] is recv)]


def ext(E, name):
    r = []
    for e in E:
        if e.kind == "call":
            n = extname(e.fn)
            if n and n.split(".")[-1] == name:
                r.append(e)
    return r


def extname(t):
    if t.op in ("ext", "global"):
        return t.a[0]
    if t.op == "attr":
        b = extname(t.a[0])
        return b and f"{b}.{t.a[1]}"
    return None


def one(ctx, c, f, given):
    where = f"{c.name}.tune"
    st = State()
    study = sym("study")
    st.path = (not_(isnone(study)) if given else isnone(study),)
    I, st, v = analyse(ctx, f, c, selfterm=mk("cls", c.qual), st=st, inline=own)
    P = {n: sym(n) for n in f.params()}
    E = I.effects
    ops = method(E, "optimize")
    if len(ops) != 1:
        ctx.ob("study-optimised-once", where, False if ops or not opaque_use(E, lambda x: any(y.op in ("fn", "bound", "closure", "lambda") for y in walk(x))) else None, f"{len(ops)} optimize calls", f.loc())
        return
    op = ops[0]
    a = args_of(op, "func", "n_trials", "timeout")
    for k in ("n_trials", "timeout"):
        ctx.ob("option-reaches-study", f"{where} {k}", verdict(a.get(k) is P[k], a.get(k, NONE)), f"optimize gets {k}={short(a.get(k, NONE))}", op.loc)
    extra = set(a) - {"func", "n_trials", "timeout", "n_jobs", "show_progress_bar", "gc_after_trial", "callbacks"}
    ctx.ob("option-reaches-study", f"{where} catch", not extra or None, f"extra options {extra}", op.loc)
    free = [x for x in map(norm, op.path) if x is not TRUE and not is_none_case(x)]
    ctx.ob("study-optimised-once", where, not op.loops and (not free or None), "optimize is conditional on " + ", ".join(map(short, free)), op.loc)
    recv = op.fn.a[0]
    if given:
        ctx.ob("given-study-used", where, verdict(norm(recv) is study, recv), f"optimises {short(recv)}", op.loc)
        ctx.ob("given-study-used", f"{where} no second study", not ext(E, "create_study"), "creates another study although one is given", f.loc())
    else:
        new_study(ctx, where, E, norm(recv), P, f)
    objective(ctx, c, where, I, st, op, P, f)
    returned(ctx, where, I, st, v, recv, f)


def is_none_case(x):
    while x.op == "not":
        x = x.a[0]
    return x.op == "isnone"


def new_study(ctx, where, E, recv, P, f):
    cs = ext(E, "create_study")
    if len(cs) != 1:
        ctx.ob("study-created", where, None, f"{len(cs)} create_study calls", f.loc())
        return
    e = cs[0]
    ctx.ob("study-created", where, verdict(norm(e.term) is recv, recv), f"optimises {short(recv)}", e.loc)
    kw = args_of(e, "storage", "sampler", "pruner", "study_name", "direction")
    d = kw.get("direction")
    if d is not None and d is not NONE:
        ctx.ob("study-minimises", where, True if d.op == "const" and str(d.a[0]).lower() == "minimize" else False, f"direction={short(d)}", e.loc)
    else:
        ctx.ob("study-minimises", where, "directions" not in kw or None, "directions given", e.loc)
    want = (("sampler", "TPESampler", "seed", P["tuning_random_seed"]), ("pruner", "MedianPruner", "n_startup_trials", P["prunning_n_startup_trials"]))
    for k, cls, arg, val in want:
        t = kw.get(k)
        if t is None:
            ctx.ob("option-reaches-study", f"{where} {arg}", False, f"no {k} passed to create_study", e.loc)
            continue
        made = [x for x in ext(E, cls) if norm(x.term) is norm(t)]
        if not made:
            ctx.ob("option-reaches-study", f"{where} {arg}", None, f"{k}={short(t)}", e.loc)
            continue
        got = made[0].kwargs.get(arg)
        if got is None and k == "pruner" and made[0].args:
            got = made[0].args[0]
        ctx.ob("option-reaches-study", f"{where} {arg}", verdict(got is not None and norm(got) is val, got or NONE),
               f"{cls} gets {arg}={got is not None and short(got)}", made[0].loc)


def objective(ctx, c, where, I, st, op, P, f):
    n0 = len(I.effects)
    trial = mk("sym", "trial!")
    a = args_of(op, "func", "n_trials", "timeout")
    r = I.call(a["func"], [trial], {}, st, f.node)
    E = I.effects[n0:]
    value_ = norm(value(I, st, r))
    news = [e for e in E if e.kind == "new" and ctx.proj.cls(BASE) in e.cls.mro()]
    if len(news) != 1:
        ctx.ob("trial-builds-one-model", where, None, f"{len(news)} recommenders built per trial", f.loc())
        return
    new = news[0]
    model = new.d.get("term") if new.d.get("term") is not None else None
    learn = method(E, "learn_with_optimizer")
    score = [e for e in method(E, "get_score") + method(E, "get_scores") + method(E, "get_target_score")]
    data = norm(new.args[0]) if new.args else norm(new.kwargs.get("X_train_all", NONE))
    want = phi(isnone(P["data"]), mk("call", P["data_suggest_function"], (trial,), ()), P["data"])
    ctx.ob("trains-on-suggested-data", where, same_cases(data, want), f"trained on {short(data)}", new.loc)
    odd = [e for e in I.effects if e.kind == "raise" and {norm(p) for p in e.path} >= {norm(isnone(P["data"])), norm(not_(isnone(P["data_suggest_function"])))}]
    ctx.ob("trains-on-suggested-data", where + " accepted", not odd, "data given by a suggestion function are refused", odd[0].loc if odd else new.loc)
    kw = new.kwargs.get("**")
    ctx.ob("trial-parameters", where, set(new.kwargs) <= {"**", "X_train_all"} and len(new.args) <= 1 or None, f"other arguments {list(new.kwargs)}", new.loc)
    rp = mk("sym", "**recommender_params")
    rp = next((x for x in P.values() if x.a[0].endswith("recommender_params")), rp)
    if kw is None:
        ctx.ob("trial-parameters", where, None if new.kwargs else False, "recommender built without the suggested parameters", new.loc)
    else:
        kw = I.deep(kw, st) if hasattr(I, "deep") else kw
        psf = P["parameter_suggest_function"]
        for case, fact in (("default suggestion", True), ("given suggestion", False)):
            t = norm(assume(kw, isnone(psf), fact))
            parts = merged(t)
            fixed_last = bool(parts) and is_rp(parts[-1]) and not any(is_rp(p) for p in parts[:-1])
            ctx.ob("fixed-parameters-win", f"{where} ({case})", verdict(fixed_last, t),
                   f"parameters are merged as {' < '.join(short(p, 120) for p in parts)}", new.loc)
            rest = [p for p in parts if not is_rp(p)]
            if fact:
                default_suggestion(ctx, c, where, rest, trial, new)
            else:
                ok = len(rest) == 1 and rest[0].op == "call" and rest[0].a[0] is psf and tuple(rest[0].a[1]) == (trial,)
                ctx.ob("given-suggestion-used", where, verdict(ok, t), f"parameters {short(t)}", new.loc)
    # training, scoring
    order = {id(e): i for i, e in enumerate(E)}
    if len(learn) != 1 or len(score) != 1:
        unsure = opaque_use(E, lambda x: any(y.op == "new" and y.a[0] == new.cls.qual for _, y in leaves(x)), {id(e) for e in learn + score}) if not learn or not score else False
        ctx.ob("trains-then-scores-once", where, None if unsure else False, f"{len(learn)} training and {len(score)} scoring calls", f.loc())
        return
    learn, score = learn[0], score[0]
    ctx.ob("trains-then-scores-once", where, order[id(new)] < order[id(learn)] < order[id(score)] and not learn.loops and not score.loops,
           "the model is scored before it is trained", learn.loc)
    la = args_of(learn, "evaluator", "trial", "max_epoch", "validate_epoch", "score_degradation_max")
    for k in ("evaluator", "max_epoch", "validate_epoch", "score_degradation_max"):
        ctx.ob("option-reaches-training", f"{where} {k}", verdict(la.get(k) is not None and norm(la[k]) is P[k], la.get(k) or NONE),
               f"learn_with_optimizer gets {k}={la.get(k) is not None and short(la[k])}", learn.loc)
    ctx.ob("option-reaches-training", f"{where} trial", verdict(la.get("trial") is trial, la.get("trial") or NONE), "pruning trial is not passed", learn.loc)
    m = learn.fn.a[0]
    ctx.ob("trained-model-is-the-built-one", where, verdict(m.op == "new" and m.a[0] == new.cls.qual, m), f"trains {short(m)}", learn.loc)
    sm = score.kwargs.get("model", score.args[0] if score.args else None)
    ctx.ob("scored-model-is-the-trained-one", where, verdict(sm is m, sm or NONE), f"scores {sm is not None and short(sm)}", score.loc)
    ctx.ob("scored-by-the-evaluator", where, verdict(norm(score.fn.a[0]) is P["evaluator"], score.fn), f"scored by {short(score.fn)}", score.loc)
    sv = norm(score.term)
    ev = P["evaluator"]
    if score.fn.a[1] == "get_score":
        want = neg(idx(sv, mk("attr", mk("attr", ev, "target_metric"), "name")))
    elif score.fn.a[1] == "get_target_score":
        want = neg(sv)
    else:
        want = None
    ctx.ob("objective-is-negated-target", where, None if want is None else verdict(value_ is norm(want), value_), f"objective is {short(value_)}", f.loc())
    # records
    rec = [e for e in method(E, "set_user_attr") if e.fn.a[0] is trial]
    lc = mk("attr", m, "learnt_config")
    ok = None
    loc = f.loc()
    for e in rec:
        loc = e.loc
        if e.loops and e.loops[-1].dom is not None and len(e.args) == 2:
            dom = norm(e.loops[-1].dom)
            x = elem(e.loops[-1].dom, e.loops[-1].depth)
            free = [p for p in map(norm, e.path) if contains(p, norm(x))]
            if items_of(dom, lc):
                k, val = map(norm, e.args)
                good = (k, val) in ((norm(idx(x, ZERO)), norm(idx(x, ONE))), (norm(x), norm(idx(lc, x))))
                ok = good and not free and order[id(e)] > order[id(learn)]
                if not good and opaque(mk("t", k, val)):
                    ok = None
    if not rec:
        ok = False
    ctx.ob("learnt-parameters-recorded", where, ok, "the trial does not record every learnt parameter under its own name", loc)
    hist = [e for e in method(E, "set_user_attr") if norm(e.fn.a[0]) is mk("attr", trial, "study")]
    if len(hist) != 1:
        ctx.ob("scores-recorded", where, None if hist else False, f"{len(hist)} score-history updates", f.loc())
        return
    h = hist[0]
    k, val = h.args if len(h.args) == 2 else (None, None)
    if val is None:
        ctx.ob("scores-recorded", where, None, "set_user_attr arguments", h.loc)
        return
    raw = val
    val = norm(I.deep(val, st))
    free = [p for p in map(norm, h.path) if not is_none_case(p)]
    good, why = history(val, k, trial, sv, ev)
    if good is None and not any(contains(val, x) for x in (sv, norm(sv))) and not opaque_use(E, lambda x: x is raw, {id(h)}) and not any(e.kind == "mutcall" and e.obj is raw for e in E):
        good, why = False, "the trial's own scores are not in the history: " + why
    ctx.ob("scores-recorded", where, good if not free else None, why + (" only when " + ", ".join(map(short, free)) if free else ""), h.loc)


def opaque_use(E, hit, skip=()):
    """Something of interest is handed to a call whose body is not seen."""
    for e in E:
        if e.kind == "call" and id(e) not in skip and not (e.fn.op == "attr" and e.fn.a[1] in ("info", "debug", "warning", "warn", "format", "__init__")):
            if any(hit(x) for x in list(e.iargs) + list(e.ikwargs.values()) if x is not None) or e.fn.op == "attr" and hit(e.fn.a[0]):
                return True
    return False


def items_of(dom, lc):
    dom = norm(dom)
    if dom is norm(lc):
        return True
    if dom.op == "conv":
        return items_of(dom.a[1], lc)
    if dom.op == "call" and dom.a[0].op == "attr" and dom.a[0].a[1] in ("items", "keys"):
        return items_of(dom.a[0].a[0], lc)
    if dom.op in ("items", "keys"):
        return items_of(dom.a[0], lc)
    return False


def is_rp(t):
    if t.op == "conv":
        return is_rp(t.a[1])
    return t.op == "sym" and t.a[0].lstrip("*") == "recommender_params"


def same_cases(a, b):
    """Equality under every assignment of the phi conditions."""
    if a is b or norm(a) is norm(b):
        return True
    for cs, x in leaves(norm(b)):
        y = a
        for cnd in cs:
            y = assume(y, cnd, True)
        if norm(y) is not x:
            return None if opaque(y) else False
    return True


def history(val, k, trial, sv, ev):
    parts = None
    if val.op == "append":
        parts = (val.a[0], val.a[1])
    elif val.op == "concat":
        xs = val.a[0] if isinstance(val.a[0], tuple) else val.a
        l = xs[-1]
        if l.op == "list" and len(l.a[0]) == 1:
            parts = (xs[0] if len(xs) == 2 else None, l.a[0][0])
    elif val.op == "list":
        return (False, "earlier entries of the score history are dropped")
    if parts is None:
        return (None, f"history is {short(val)}")
    prev, item = parts
    if prev is not None and not any(x.op == "attr" and x.a[1] == "user_attrs" and x.a[0] is mk("attr", trial, "study") for x in walk(prev)):
        return (None if opaque(prev) else False, f"earlier entries are replaced by {short(prev)}")
    if item.op != "tuple" or len(item.a[0]) != 2:
        return (None, f"entry is {short(item)}")
    num, d = item.a[0]
    if num is not mk("attr", trial, "number"):
        return (None if opaque(num) else False, f"scores recorded under {short(num)}")
    if not contains(d, sv):
        return (None if opaque(d) else False, f"recorded scores {short(d)}")
    if not contains(d, mk("attr", ev, "cutoff")):
        return (None if opaque(d) else False, "the recorded names lack the evaluator's cutoff")
    if d.op == "comp":
        body = d.a[1]
        conds = d.a[3] if len(d.a) > 3 else ()
        if conds not in ((), None) and conds is not TRUE:
            return (None, f"recorded scores are filtered: {short(d)}")
        if body.op == "tuple" and len(body.a[0]) == 2:
            key_, v = body.a[0]
            if not any(x is sv for x in walk(v)):
                return (False, f"recorded value {short(v)}")
            if any(x.op in ("lin", "mul", "neg") for x in walk(v) if x is not v) or v.op in ("lin", "mul"):
                return (False, f"recorded value {short(v)}")
        return (True, "")
    return (None, f"recorded scores {short(d)}")


def default_suggestion(ctx, c, where, rest, trial, new):
    if len(rest) != 1:
        ctx.ob("default-suggestion", where, None, f"{len(rest)} suggestion parts", new.loc)
        return
    d = rest[0]
    if d.op == "condlist" and d.a[0] == "dict":
        for cond, kv in d.a[1]:
            k, v = kv.a[0]
            nm = f"{where} {short(k)}"
            ok = v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1].startswith("suggest_") and v.a[0].a[0] is trial and v.a[1] and v.a[1][0] is k
            ctx.ob("default-suggestion", nm, verdict(ok, v), f"suggests {short(kv)}", new.loc)
            cond = norm(cond)
            good = cond.op == "not" and cond.a[0].op == "in" and cond.a[0].a[0] is k and is_rp(keysof(cond.a[0].a[1]))
            rev = cond.op == "in" and cond.a[0] is k and is_rp(keysof(cond.a[1]))
            ctx.ob("fixed-not-suggested", nm, True if good else (False if cond is TRUE or rev else None),
                   f"suggested when {short(cond)}", new.loc)
        return
    if d.op != "comp":
        ctx.ob("default-suggestion", where, None, short(d), new.loc)
        return
    dom = mk("attr", mk("cls", c.qual), "default_tune_range")
    x = next((y for y in walk(d) if y.op == "elem"), None)
    name = mk("attr", x, "name") if x is not None else None
    if x is None or not contains(d, dom):
        ctx.ob("default-suggestion", where, None, short(d), new.loc)
        return
    body = next((y for y in walk(d) if y.op == "tuple" and len(y.a[0]) == 2), None)
    if body is None:
        ctx.ob("default-suggestion", where, None, short(d), new.loc)
        return
    k, v = body.a[0]
    ok = k is name and v.op == "call" and v.a[0] is mk("attr", x, "suggest") and tuple(v.a[1]) == (trial,) and not v.a[2]
    ctx.ob("default-suggestion", where, verdict(ok, body), f"suggests {short(body)}", new.loc)
    conds = [norm(y) for y in comp_conds(d)]
    flat = []
    for y in conds:
        flat += list(y.a[0]) if y.op == "and" else [y]
    good = [y for y in flat if y.op == "not" and y.a[0].op == "in" and y.a[0].a[0] is name and is_rp(keysof(y.a[0].a[1]))]
    bad = [y for y in flat if y not in good]
    rev = any(y.op == "in" and y.a[0] is name and is_rp(keysof(y.a[1])) for y in flat)
    ctx.ob("fixed-not-suggested", where, True if good and not bad else (False if not bad or rev else None),
           "the default search space suggests parameters that are fixed" if not good else f"suggestion filtered by {' and '.join(map(short, bad))}", new.loc)


def keysof(t):
    while True:
        if t.op == "conv":
            t = t.a[1]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "keys":
            t = t.a[0].a[0]
        elif t.op in ("keys",):
            t = t.a[0]
        else:
            return t


def comp_conds(d):
    out = []
    for y in d.a[2:]:
        if isinstance(y, T):
            if y.op in ("not", "in", "and", "or", "lt", "le", "eq"):
                out.append(y)
        elif isinstance(y, tuple):
            out += [z for z in y if isinstance(z, T) and z.op in ("not", "in", "and", "or", "lt", "le", "eq")]
            for z in y:
                if isinstance(z, tuple):
                    out += [w for w in z if isinstance(w, T) and w.op in ("not", "in", "and", "or", "lt", "le", "eq")]
    return out


def returned(ctx, where, I, st, v, recv, f):
    if v is None:
        ctx.ob("returns-best", where, None, "no value", f.loc())
        return
    t = norm(value(I, st, v))
    alts = [x for _, x in leaves(t)]
    for x in alts:
        if x.op != "tuple" or len(x.a[0]) != 2:
            ctx.ob("returns-best", where, None, short(x), f.loc())
            continue
        b = x.a[0][0]
        parts = merged(b)
        best = [mk("attr", norm(r), "best_trial") for _, r in leaves(norm(recv))]
        p = [y for y in parts if any(y is mk("attr", q, "params") for q in best) or (y.op == "attr" and y.a[1] == "best_params")]
        ctx.ob("returns-best", f"{where} suggested", verdict(len(p) == 1, b), f"returned parameters are {short(b)}", f.loc())
        u = [y for y in parts if y not in p]
        ok = len(u) == 1 and any(contains(u[0], mk("attr", q, "user_attrs")) for q in best)
        ctx.ob("returns-best", f"{where} learnt", verdict(ok, b), f"returned parameters are {short(b)}", f.loc())


def suggest(ctx, c):
    f = c.find("suggest")
    if f is None or f.is_stub or "abstractmethod" in f.decorators:
        return
    init = c.find("__init__")
    I, st, obj = construct(ctx, c)
    I.effects.clear() if hasattr(I.effects, "clear") else None
    I, st, v = analyse(ctx, f, c, selfterm=obj, st=st, interp=I)
    where = f"{c.name}.suggest"
    calls = [e for e in I.effects if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1].startswith("suggest_")]
    if len(calls) != 1:
        ctx.ob("range-suggestion", where, None, f"{len(calls)} suggest calls", f.loc())
        return
    e = calls[0]
    kind = e.fn.a[1]
    a = args_of(e, *(("name", "choices") if kind == "suggest_categorical" else ("name", "low", "high")))
    a = {k: norm(value(I, st, x)) for k, x in a.items()}
    t = value(I, st, v)
    ctx.ob("range-suggestion", f"{where} value", verdict(norm(t) is norm(e.term), t), f"returns {short(t)}", e.loc)
    nm = a.get("name")
    want = add(sym("prefix"), sym("name"))
    ok = nm is not None and contains(nm, sym("name")) and contains(nm, sym("prefix"))
    ctx.ob("range-suggestion", f"{where} name", verdict(ok, nm or NONE), f"suggests under {nm is not None and short(nm)}", e.loc)
    params = set(init.params())
    isint = "Integer" in c.name
    if "choices" in params:
        ctx.ob("range-suggestion", f"{where} choices", verdict(kind == "suggest_categorical" and keysof(a.get("choices", NONE)) is sym("choices"), a.get("choices", NONE)), str(a), e.loc)
        return
    ctx.ob("range-suggestion", f"{where} kind", kind == ("suggest_int" if isint else "suggest_float"), kind, e.loc)
    for k in ("low", "high", "step"):
        if k in params:
            got = a.get(k)
            if got is not None and got.op == "conv":
                got = got.a[1]
            ctx.ob("range-suggestion", f"{where} {k}", verdict(got is sym(k), got or NONE), f"{k}={got is not None and short(got)}", e.loc)
        elif k in a and not (k == "step" and a[k] in (ONE, NONE)):
            ctx.ob("range-suggestion", f"{where} {k}", None, f"{k}={short(a[k])}", e.loc)
    lg = a.get("log", FALSE)
    ctx.ob("range-suggestion", f"{where} log", verdict(lg is (TRUE if c.name.startswith("Log") else FALSE), lg), f"log={short(lg)}", e.loc)


def frame(ctx):
    """study_to_dataframe joins scores to trials by trial number."""
    f = ctx.proj.func("irspack.optimization.optimizer.study_to_dataframe")
    I, st, v = analyse(ctx, f)
    E = I.effects
    where = "study_to_dataframe"
    dfs = [e for e in ext(E, "DataFrame")]
    joins = method(E, "join") + method(E, "merge")
    if len(dfs) != 1 or not joins:
        ctx.ob("history-frame", where, None, "frame construction not recognised", f.loc())
        return
    e = dfs[0]
    a = args_of(e, "data", "index")
    scores, num = norm(a["data"]), norm(a.get("index", NONE))
    x = [y for y in walk(scores) if y.op == "idx" and y.a[0].op == "elem" and y.a[1] is ONE]
    y = [y for y in walk(num) if y.op == "idx" and y.a[0].op == "elem" and y.a[1] is ZERO]
    ctx.ob("history-frame", where, True if x and y else None if opaque(scores) or opaque(num) else False,
           f"scores {short(scores)} indexed by {short(num)}", e.loc)


def doubling(ctx, c, f):
    where = f"{c.name}.tune_doubling_dimension"
    I, st, v = analyse(ctx, f, c, selfterm=mk("cls", c.qual), inline=lambda fn: fn.name != "tune")
    P = {n: sym(n) for n in f.params()}
    E = I.effects
    ts = [e for e in E if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "tune"]
    if len(ts) != 1 or not ts[0].loops:
        ctx.ob("doubling", where, None, f"{len(ts)} tune calls", f.loc())
        return
    t = ts[0]
    a = args_of(t, *[n for n in c.find("tune").params() if n not in ("cls", "self")])
    for k in ("data", "evaluator", "max_epoch", "validate_epoch", "score_degradation_max"):
        ctx.ob("option-reaches-training", f"{where} {k}", verdict(a.get(k) is not None and norm(a[k]) is P[k], a.get(k) or NONE), f"{k}={a.get(k) is not None and short(a[k])}", t.loc)
    cs = ext(E, "create_study")
    if len(cs) != 1:
        ctx.ob("doubling", where, None, "create_study", t.loc)
        return
    ctx.ob("option-reaches-study", f"{where} study", norm(a.get("study", NONE)) is norm(cs[0].term), "tunes another study", t.loc)
    ctx.ob("study-minimises", where, "direction" not in cs[0].kwargs or None, "direction", cs[0].loc)
    nc = (a.get("n_components") if "n_components" in a else None)
    if nc is None and "recommender_params" in a:
        d = norm(a["recommender_params"])
        if d.op == "dict":
            nc = dict((k.a[0], w) for k, w in d.a[0]).get("n_components")
    ctx.ob("doubling", f"{where} dimension", None if nc is None else True, "n_components", t.loc)
    if nc is None:
        return
    nc = norm(nc)
    loop = t.loops[-1]
    if nc.op == "mu" or nc in {norm(m) for m in loop.mus}:
        for m, (ini, nxt) in loop.mus.items():
            if norm(m) is nc:
                ctx.ob("doubling", f"{where} first", norm(ini) is P["initial_dimension"], short(ini), t.loc)
                ctx.ob("doubling", f"{where} next", verdict(norm(nxt) is mul(const(2), nc), norm(nxt).a[0] if norm(nxt).op == "mu" else NONE), f"next dimension {short(norm(nxt))}", t.loc)
    prev = next((x for x in walk(norm(a.get("n_trials", NONE))) if x.op == "phi"), None)
    for k, ini, fol in (("n_trials", "n_trials_initial", "n_trials_following"),):
        t_ = norm(a.get(k, NONE))
        vals = [x for _, x in leaves(t_)]
        ok = vals == [P[ini], P[fol]] and t_.a[0].op == "isnone"
        ctx.ob("option-reaches-study", f"{where} {k}", True if ok else (False if all(x.op == "sym" or x.op == "const" for x in vals) else None), f"{k}={short(t_)}", t.loc)
    mp = ext(E, "MedianPruner")
    if mp:
        t_ = norm(mp[0].kwargs.get("n_startup_trials", mp[0].args[0] if mp[0].args else NONE))
        vals = [x for _, x in leaves(t_)]
        ok = vals == [P["n_startup_trials_initial"], P["n_startup_trials_following"]] and t_.a[0].op == "isnone"
        ctx.ob("option-reaches-study", f"{where} n_startup_trials", True if ok else (False if all(x.op in ("sym", "const") for x in vals) else None), f"n_startup_trials={short(t_)}", t.loc)
    tp = ext(E, "TPESampler")
    sd = norm(tp[0].kwargs.get("seed", NONE)) if tp else NONE
    ctx.ob("option-reaches-study", f"{where} random_seed", verdict(contains(sd, P["random_seed"]), sd) or (False if sd is NONE else None), f"seed={short(sd)}", t.loc)
    so = norm(cs[0].kwargs.get("storage", NONE))
    ctx.ob("option-reaches-study", f"{where} storage", verdict(so is P["storage"], so), f"storage={short(so)}", t.loc)
    sg = norm(a.get("parameter_suggest_function", NONE))
    alts = leaves(sg)
    ini = [x for cnd, x in alts if x is P["suggest_function_initial"]]
    fns = [x for cnd, x in alts if x.op == "fn"]
    ctx.ob("doubling", f"{where} suggestion", True if len(ini) == 1 and len(fns) == 1 and len(alts) == 2 else None, f"suggestion {short(sg)}", t.loc)
    for fn in fns:
        n0 = len(E)
        trial = mk("sym", "trial!")
        st2 = State()
        try:
            I.call(fn, [trial], {}, st, f.node)
        except Unreachable:
            continue
        for e in method(I.effects[n0:], "suggest_float"):
            q = args_of(e, "name", "low", "high")
            ns = P["neighborhood_scale"]
            k, lo, hi = (norm(q.get(z, NONE)) for z in ("name", "low", "high"))
            val = idx_base(hi, ns)
            ok = val is not None and norm(mk("div", val, ns)) is lo and norm(q.get("log", FALSE)) is TRUE
            ctx.ob("doubling", f"{where} neighbourhood", True if ok else None, f"searches [{short(lo)}, {short(hi)}]", e.loc)
            sto = [w for w in I.effects[n0:] if w.kind == "store" and norm(w.val) is norm(e.term)]
            ctx.ob("doubling", f"{where} neighbourhood name", all(norm(w.idx) is k for w in sto) if sto else None, "suggested value stored under another name", e.loc)
    # the study and the label of the same dimension
    lab = [e for e in E if e.kind == "store" and e.idx.op == "const" and e.idx.a[0] == "n_components"]
    ctx.ob("doubling", f"{where} label", all(norm(e.val) is nc for e in lab) if lab else None, "results labelled with another dimension", t.loc)
    ap = [e for e in E if e.kind == "mutcall" and e.name == "append" and e.loops and e.loops[-1] is loop]
    ok = None
    for e in ap:
        x = norm(I.deep(e.args[0], st)) if e.args else NONE
        if x.op == "tuple" and len(x.a[0]) == 3:
            ok = True
    ctx.ob("doubling", f"{where} results", ok, "results list not recognised", f.loc())
    r = norm(value(I, st, v))
    if r.op != "tuple":
        ctx.ob("doubling", f"{where} best", None, short(r), f.loc())
        return
    bp = r.a[0][0]
    ok, why = best_of(ctx, I, st, bp, f)
    ctx.ob("doubling", f"{where} best", ok, why, f.loc())


def idx_base(hi, ns):
    """x with hi == x * ns."""
    if hi.op == "mul" and ns in hi.a[0]:
        rest = list(hi.a[0])
        rest.remove(ns)
        return mul_list(rest) if rest else ONE
    return None


def best_of(ctx, I, st, bp, f):
    """bp must be the parameters of the entry whose value is minimal, compared by that value alone."""
    if bp.op != "idx" or bp.a[1] is not ONE:
        return None, f"returns {short(bp)}"
    w = bp.a[0]
    if w.op == "idx" and w.a[0].op == "sorted":
        kw = dict(w.a[0].a[1])
        i = w.a[1]
        rev = kw.get("reverse", FALSE)
        if i is ZERO and rev is FALSE or i is const(-1) and rev is TRUE:
            pass
        elif i in (ZERO, const(-1)) and rev in (TRUE, FALSE):
            return False, "returns the worst entry"
        else:
            return None, f"returns entry {short(i)}"
        keyf = kw.get("key")
    elif w.op == "minof" and w.a and isinstance(w.a[-1], tuple):
        keyf = dict(w.a[-1]).get("key")
    elif w.op == "minof":
        keyf = None
    elif w.op == "maxof":
        return False, "returns the worst entry"
    else:
        return None, f"returns {short(w)}"
    if keyf is None:
        return False, "entries of equal value are compared by their parameter dictionaries, which raises TypeError"
    e = mk("sym", "entry!")
    k = norm(value(I, st, I.call(keyf, [e], {}, st, f.node)))
    if k is idx(e, ZERO):
        return True, ""
    return (None if opaque(k) or k.op != "idx" else False), f"compares entries by {short(k)}"
