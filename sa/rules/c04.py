"""C04: early stopping as a transition system over (best score, snapshot, learnt epochs, non-improvement count)."""
from ..common import *
from ..norm import norm, _norm

LEVEL = "proof"
MIN_OBLIGATIONS = 20
EXPLANATION = ("learn_with_optimizer of every early-stopping recommender is reduced to its loop transition system: the loop-carried "
               "values, the guarded effects and the break guard are evaluated in each of the cases (validation due or not) x "
               "(evaluator or none) x (improved or not) x (trial or none) and compared with the specified transition.")
ASSUMPTIONS = ["evaluator.get_target_score does not change the trainer's parameters"]

BASE_ES = "irspack.recommenders.base_earlystop.BaseRecommenderWithEarlyStopping"


def N(t):
    t = norm(t)
    return _truthnum(t)


_TN = {}


def _truthnum(t):
    """truth(x % k)  ->  not (x % k == 0)."""
    r = _TN.get(t)
    if r is not None:
        return r
    x = rebuild(t, _truthnum)
    if x.op == "truth" and x.a[0].op in ("mod_", "lin", "len"):
        x = not_(eq(x.a[0], ZERO))
    _TN[t] = x
    return x


def check(ctx):
    base = ctx.proj.cls(BASE_ES)
    seen = set()
    for c in [base] + ctx.proj.subclasses(BASE_ES):
        f = c.find("learn_with_optimizer")
        ctx.anchor(f, "learn_with_optimizer")
        if f in seen:
            continue
        seen.add(f)
        ctx.guard(one, ctx, c, f)
    seen = set()
    for c in [base] + ctx.proj.subclasses(BASE_ES):
        f = c.find("_learn")
        if f is None or f in seen:
            continue
        seen.add(f)
        ctx.guard(plain_learn, ctx, c, f)


def own(func):
    return func.name not in ("_create_trainer",)


def plain_learn(ctx, c, f):
    I, st, v = analyse(ctx, f, c, inline=own)
    where = f"{c.name}._learn"
    runs = [e for e in I.effects if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "run_epoch"]
    if not runs:
        ctx.ob("all-epochs-run", where, None, "no run_epoch call found", f.loc())
    for e in runs:
        dom = N(e.loops[-1].dom) if e.loops and e.loops[-1].dom is not None else None
        want = mk("attr", sym("self"), "train_epochs")
        ok = dom is not None and dom.op == "range" and dom.a[2] is ONE and sub(dom.a[1], dom.a[0]) is want
        ctx.ob("all-epochs-run", where, True if ok else (None if dom is None or dom.op != "range" else False),
               f"epochs run over {short(dom) if dom is not None else None} instead of train_epochs", e.loc)
        ctx.ob("all-epochs-run", where, not any(l.breaks for l in e.loops), "training without evaluator can stop early", e.loc)


def one(ctx, c, f):
    I, st, v = analyse(ctx, f, c, inline=own)
    where = f"{c.name}.learn_with_optimizer"
    E = I.effects
    P = {n: sym(n) for n in f.params()}
    ctx.anchor({"evaluator", "trial", "max_epoch", "validate_epoch", "score_degradation_max"} <= set(P), "parameters")
    call = lambda n: [e for e in E if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == n]
    runs, scores, saves, loads, reports = call("run_epoch"), call("get_target_score"), call("save_state"), call("load_state"), call("report")
    runs = [e for e in runs if e.fn.a[0] is not sym("self")]
    saves = [e for e in saves if e.fn.a[0] is not sym("self")]
    loads = [e for e in loads if e.fn.a[0] is not sym("self")]
    order = {id(e): i for i, e in enumerate(E)}
    if len(runs) != 1 or not runs[0].loops:
        ctx.ob("one-epoch-per-step", where, None if not runs else (False if len(runs) > 1 else None), f"{len(runs)} run_epoch sites", f.loc())
        return
    run = runs[0]
    loop = run.loops[-1]
    dom = N(loop.dom) if loop.dom is not None else None
    if dom is None or dom.op != "range":
        ctx.ob("epoch-range", where, None, f"epochs over {dom and short(dom)}", run.loc)
        return
    lo, hi, step = dom.a
    ctx.ob("epoch-range", where, step is ONE and sub(hi, lo) is P["max_epoch"], f"epochs run over {short(dom)}", run.loc)
    nth = add(sub(N(elem(loop.dom, loop.depth)), lo), ONE)      # 1-based epoch
    base_path = frozenset(N(a) for a in run.path)
    free = {a for a in base_path if any(x.op in ("elem", "mu") for x in walk(a))}
    ctx.ob("one-epoch-per-step", where, not free, "an epoch is skipped when " + ", ".join(short(not_(a), 100) for a in free), run.loc)
    if not scores:
        ctx.ob("validated", where, None, "no get_target_score call", f.loc())
        return
    s = N(scores[0].term)
    ctx.ob("validated", where, all(N(e.term) is s for e in scores) or None, "several score expressions", f.loc())
    model = next(iter(scores[0].kwargs.values()), None) or (scores[0].args[0] if scores[0].args else None)
    ctx.ob("validates-this-model", where, model is sym("self"), f"validates {model and short(model)}", scores[0].loc)
    # cadence
    due = eq(mk("mod_", nth, P["validate_epoch"]), ZERO)
    has_ev = not_(isnone(P["evaluator"]))
    facts0 = [a for a in base_path]
    sp = residual(scores[0], facts0 + [has_ev])
    cadence = [a for a in sp if a is not TRUE]
    okc = cadence == [due]
    if not okc:
        und = any(x.op in ("mu", "loopout", "call") for a in cadence for x in walk(a))
        ctx.ob("validation-cadence", where, None if und else False,
               f"validation happens when {' and '.join(short(a, 150) for a in cadence)} instead of every validate_epoch epochs", scores[0].loc)
        if not cadence:
            return
        due = cadence[0] if len(cadence) == 1 else and_(*cadence)
    else:
        ctx.ob("validation-cadence", where, True, "", scores[0].loc)
    if not saves:
        ctx.ob("snapshot-on-improvement", where, False, "no snapshot is ever taken", f.loc())
        return
    # improvement guard
    save = saves[0]
    rest = [a for a in residual(save, facts0 + [has_ev, due])]
    imp = [a for a in rest if any(x is s for x in walk(a))]
    extra = [a for a in rest if a not in imp]
    if len(imp) != 1:
        ctx.ob("snapshot-on-improvement", where, None if imp else False,
               f"snapshot guard {[short(a, 120) for a in rest]}", save.loc)
        return
    g = imp[0]
    best = None
    if g.op == "lt" and g.a[1] is s and g.a[0].op == "mu":
        best = g.a[0]
    elif g.op == "not" and g.a[0].op == "le" and g.a[0].a[0] is s and g.a[0].a[1].op == "mu":
        best = g.a[0].a[1]
    elif g.op in ("le", "lt") and s in [x for x in g.a]:
        ctx.ob("snapshot-on-improvement", where, False, f"the snapshot is taken when {short(g, 200)}, not when the score strictly exceeds the best so far", save.loc)
        return
    elif g.op == "or":
        # best is None or s > best
        mus = {x for x in walk(g) if x.op == "mu"}
        if len(mus) == 1:
            best = mus.pop()
            gg = assume(g, isnone(best), False)
            if gg is not lt(best, s):
                ctx.ob("snapshot-on-improvement", where, None, short(g), save.loc)
                return
    if best is None:
        ctx.ob("snapshot-on-improvement", where, None, f"guard {short(g, 200)} not recognised", save.loc)
        return
    ctx.ob("snapshot-on-improvement", where, not extra, "an improving state is not snapshotted unless " + ", ".join(short(a, 100) for a in extra), save.loc)
    if best.a[0] is not (loop.dom if best.a[0] is loop.dom else best.a[0]):
        pass
    mus = {N(m): (N(a), N(b)) for m, (a, b) in loop.mus.items()}
    if best not in mus:
        ctx.ob("best-score", where, None, "best score is not loop-carried", save.loc)
        return
    init, nxt = mus[best]
    ctx.ob("best-score", where, init is NEGINF or init is NONE, f"the best score starts at {short(init)}", save.loc)

    def case(t, *facts):
        for a in list(facts0) + list(facts):
            t = assume_lit(t, a)
        return _truthnum(_norm(t))
    CASES = {
        "no validation due": (not_(due),),
        "no evaluator": (due, not_(has_ev)),
        "improved": (due, has_ev, g),
        "not improved": (due, has_ev, not_(g)),
    }

    def transition(rule, term, expect, what):
        for name, fs in CASES.items():
            got = case(term, *fs)
            want = expect.get(name)
            for cs, x in leaves(got):
                ok = x is want
                und = any(y.op in ("unk", "mutated", "loopout") for y in walk(x))
                ctx.ob(rule, f"{where}[{name}]", True if ok else (None if und else False),
                       f"{what} becomes {short(x, 120)} instead of {short(want, 120)}" + (" when " + " and ".join(short(q, 80) for q in cs) if cs else ""), f.loc())

    transition("best-score", nxt, {"no validation due": best, "no evaluator": best, "improved": s, "not improved": best}, "the best score")
    # snapshot content
    snap = [m for m in mus if m.a[2] == ("a", sym("self"), "best_state")]
    sets = [e for e in E if e.kind == "setattr" and e.name == "best_state" and e.loops]
    if len(snap) == 1:
        m = snap[0]
        vals = {N(e.content) for e in sets}
        if len(vals) == 1:
            got = vals.pop()
            transition("snapshot", mus[m][1], {"no validation due": m, "no evaluator": m, "improved": got, "not improved": m}, "the snapshot")
            stream = save.kwargs.get("ofs") or (save.args[0] if save.args else None)
            if stream is not None:
                sn = N(stream)
                ok = any(x is sn for x in walk(got)) or (sn.op == "enter" and any(x is sn.a[0] for x in walk(got)))
                ctx.ob("snapshot", where, ok or None, f"the kept snapshot {short(got)} is not what the trainer wrote", save.loc)
        else:
            ctx.ob("snapshot", where, None, "several snapshot expressions", f.loc())
    else:
        ctx.ob("snapshot", where, False if not sets else None, "the snapshot is not kept", f.loc())
    # learnt epochs
    st_ep = [e for e in E if e.kind == "store" and e.idx is const("train_epochs")]
    if not st_ep:
        ctx.ob("learnt-epochs", where, None, "train_epochs is not recorded by a store", f.loc())
    for e in st_ep:
        if not e.loops:
            ctx.ob("learnt-epochs", where, None, "recorded outside the loop", e.loc)
            continue
        ctx.ob("learnt-epochs", where, N(e.val) is nth, f"records {short(N(e.val))} as the number of epochs, the snapshot is of epoch {short(nth)}", e.loc)
        executed(ctx, "learnt-epochs", where, e, facts0, CASES, {"improved"})
    executed(ctx, "snapshot-on-improvement", where, save, facts0, CASES, {"improved"})
    # order of effects inside one step
    ctx.ob("step-order", where, order[id(run)] < order[id(scores[0])] < order[id(save)], "the validated state is not the one just trained or snapshotted", save.loc)
    # patience
    brk = [b for b in loop.breaks]
    if not brk:
        ctx.ob("stops-after-patience", where, None if not loop.returns else None, "no break in the training loop", f.loc()) if False else \
            ctx.ob("stops-after-patience", where, False, "training never stops early", f.loc())
    cnt = None
    for b in brk:
        atoms = simplify_atoms([N(a) for a in b], facts0 + [has_ev, due])
        pat = [a for a in atoms if any(x is P["score_degradation_max"] for x in walk(a))]
        others = [a for a in atoms if a not in pat and a is not not_(g)]
        if len(pat) != 1:
            ctx.ob("stops-after-patience", where, False if not any(x.op == "call" for a in atoms for x in walk(a)) else None,
                   f"training stops when {' and '.join(short(a, 100) for a in atoms)}", f.loc())
            continue
        a = pat[0]
        ms = [x for x in walk(a) if x.op == "mu"]
        if len(set(ms)) != 1:
            ctx.ob("stops-after-patience", where, None, short(a), f.loc())
            continue
        cnt = ms[0]
        if cnt not in mus:
            ctx.ob("stops-after-patience", where, None, "counter not loop carried", f.loc())
            cnt = None
            continue
        c0, cn = mus[cnt]
        # normalise: number of consecutive non-improvements including this one
        inc = case(cn, due, has_ev, not_(g))
        down = sub(inc, cnt) is const(-1)
        if down:
            want = [le(sub(cnt, ONE), ZERO), eq(sub(cnt, ONE), ZERO), lt(sub(cnt, ONE), ONE)]
            ctx.ob("stops-after-patience", where, None, "count-down form", f.loc())
            cnt = None
            continue
        off = sub(c0, ZERO)
        now = add(cnt, ONE)
        want = [le(P["score_degradation_max"], now), eq(now, P["score_degradation_max"]), not_(lt(now, P["score_degradation_max"]))]
        if c0 is not ZERO and is_int(c0):
            want = [subst(w, {cnt: sub(cnt, c0)}) for w in want]
        ctx.ob("stops-after-patience", where, a in want, f"training stops when {short(a, 200)}, not once score_degradation_max consecutive validations did not improve", f.loc())
        bad_others = [o for o in others if not (o.op == "not" and o is not_(g))]
        ctx.ob("stops-after-patience", where, not bad_others or None, f"extra stop condition {[short(o, 80) for o in bad_others]}", f.loc())
        if not_(g) not in atoms:
            ctx.ob("stops-after-patience", where, None if bad_others else None, "stop test also reached after an improvement", f.loc())
        transition("non-improvement-count", cn, {"no validation due": cnt, "no evaluator": cnt, "improved": c0, "not improved": now}, "the non-improvement count")
    # reports to the study
    for e in reports:
        args = [N(a) for a in e.args] + [N(x) for x in e.kwargs.values()]
        ok = neg(s) in args
        ctx.ob("report-sign", where, ok if s in args or ok else None, f"reports {[short(a, 100) for a in args]}", e.loc)
        step_ok = args[1:] and (args[1] is nth or args[1] is sub(nth, ONE))
        ctx.ob("report-step", where, True if step_ok else None, f"step {[short(a, 60) for a in args[1:]]}", e.loc)
    # the best state is what remains
    if not loads:
        ctx.ob("best-state-restored", where, False, "the best snapshot is never loaded back", f.loc())
    for e in loads:
        ctx.ob("best-state-restored", where, not e.loops, "the snapshot is loaded inside the training loop", e.loc)
        atoms = simplify_atoms([N(a) for a in e.path], facts0 + [has_ev])
        extra = [a for a in atoms if not (a.op == "not" and a.a[0].op == "isnone" and (("best_state" in pp(a)[:4000]) or "trainer" in pp(a)[:400]))]
        und = [a for a in extra if (outs := [x for x in outer(a)]) and all(x.op != "loopout" or x.a[1] in (NEGINF, NONE) for x in outs)]
        ctx.ob("best-state-restored", where, True if not extra else (None if und else False),
               f"the snapshot is only restored when {' and '.join(short(a, 120) for a in extra)}", e.loc)
        late = [q for q in runs + saves if order[id(q)] > order[id(e)]]
        ctx.ob("best-state-restored", where, not late, "training continues after the snapshot was restored", e.loc)
        src = e.kwargs.get("ifs") or (e.args[0] if e.args else None)
        if src is not None:
            txt = [x for x in walk(N(src)) if x.op == "attr" and x.a[1] == "best_state" or (x.op == "mu" and x.a[2] == ("a", sym("self"), "best_state"))]
            ctx.ob("best-state-restored", where, bool(txt) or None, "restores something else than the snapshot", e.loc)


def outer(t):
    """Outermost loop results / opaque parts of a term."""
    if t.op in ("loopout", "last", "call", "unk"):
        if t.op == "loopout":
            while t.a[1].op == "loopout":
                t = t.a[1]
        return [t]
    return [y for x in children(t) if isinstance(x, T) for y in outer(x)]


def assume_lit(t, a):
    if a.op == "not":
        return assume(t, a.a[0], False)
    if a.op == "and":
        for x in a.a:
            t = assume_lit(t, x)
        return t
    return assume(t, a, True)


def simplify_atoms(atoms, facts):
    out = []
    for a in atoms:
        if a in facts:
            continue
        for f in facts:
            a = assume_lit(a, f)
        if a is not TRUE:
            out.append(a)
    return out


def residual(e, facts):
    return simplify_atoms([N(a) for a in e.path], facts)


def executed(ctx, rule, where, e, facts0, cases, want):
    """The effect happens exactly in the wanted cases."""
    for name, fs in cases.items():
        at = [N(a) for a in e.path]
        vals = []
        for a in at:
            for f in list(facts0) + list(fs):
                a = assume_lit(a, f)
            vals.append(a)
        if FALSE in vals:
            got = False
        elif all(x is TRUE for x in vals):
            got = True
        else:
            got = None
        exp = name in want
        ctx.ob(rule, f"{where}[{name}]", True if got is exp else (None if got is None else False),
               f"{'does not happen' if exp else 'happens'} in this case", e.loc)
