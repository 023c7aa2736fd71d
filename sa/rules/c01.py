"""C01: remove-seen scores = plain scores of the same users with -inf at exactly their seen cells."""
from ..common import *
from ..norm import norm, same

LEVEL = "proof"
MIN_OBLIGATIONS = 60
EXPLANATION = ("For every recommender class (subclasses of BaseRecommender, methods resolved through the MRO) the value "
               "returned by each remove-seen method is computed as a gated dataflow term over all paths and compared with "
               "store(plain scores of the same request, nonzero cells of the same rows, -inf). Also the in-place masking "
               "must not reach memory owned by the model or the caller.")
ASSUMPTIONS = ["scipy/numpy indexing, nonzero and dot follow their documented semantics",
               "third-party overrides of the recommender classes outside the repository are not analysed"]

PAIRS = [
    ("get_score_remove_seen", "get_score", "user_indices"),
    ("get_score_remove_seen_block", "get_score_block", "begin:end"),
    ("get_score_cold_user_remove_seen", "get_score_cold_user", "X"),
]


def check(ctx):
    base = ctx.proj.cls(BASE)
    for masked, plain, rows in PAIRS:
        ctx.anchor(base.find(masked) and base.find(plain), f"BaseRecommender.{masked}/{plain}")
        for c in recommenders(ctx):
            ctx.guard(one, ctx, c, masked, plain, rows)


def one(ctx, c, masked, plain, rows):
    me = sym("self")
    fm, fp = c.find(masked), c.find(plain)
    where = f"{c.name}.{masked}"
    # parameters are named by the public signature; positional in both
    names = fm.params()[1:]
    pn = fp.params()[1:]
    args = [sym(f"arg{i}") for i in range(len(names))]
    I, st, v = analyse(ctx, fm, c, me, args=dict(zip(names, args)), defaults=True)
    J, sj, p = analyse(ctx, fp, c, me, args=dict(zip(pn, args)), defaults=True)
    if fp.is_abstract:
        return                  # the class itself cannot be instantiated
    if p is None:
        ok = v is None or any(e.kind == "raise" for e in I.effects)
        ctx.ob("unsupported-raises", where, True if v is None else None, "plain scoring is not offered", fm.loc())
        return
    if v is None:
        ctx.ob("masked-available", where, False, f"{plain} returns scores but {masked} always raises", fm.loc())
        return
    scores = J.deep(p, sj)
    if rows == "user_indices":
        seen = idx(mk("attr", me, "X_train_all"), args[0])
    elif rows == "begin:end":
        seen = idx(mk("attr", me, "X_train_all"), mkslice(args[0], args[1], NONE))
    else:
        seen = args[0]
    expected = mk("store", scores, mk("nonzero", seen), NEGINF)
    actual = I.deep(v, st)
    ok, why = same(actual, expected)
    ctx.ob("masked-scores", where, ok, why, fm.loc())
    # masking must not write through to the model's or the caller's memory
    for e in I.effects:
        if e.kind == "store":
            b = strip_alias(e.obj)
            for _, leaf in leaves(b):
                bad = leaf.op in ("sym", "attr") or (leaf.op == "idx" and leaf.a[1].op == "slice")
                ctx.ob("mask-fresh-array", f"{where}@{e.stack[-1].rsplit('.', 1)[-1]}", not bad,
                       f"the masking store writes into {short(leaf)} which outlives the call" if bad else "", e.loc)


MAYALIAS = {"asarray", "csr", "csc", "coo", "view", "contig", "ravel"}


def strip_alias(t):
    """Follow conversions that may share memory."""
    if t.op == "conv" and t.a[0] in MAYALIAS:
        return strip_alias(t.a[1])
    if t.op == "phi":
        return phi(t.a[0], strip_alias(t.a[1]), strip_alias(t.a[2]))
    if t.op == "store":
        return strip_alias(t.a[0])
    return t
