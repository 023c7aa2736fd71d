"""C19: no self-similarity."""
from ..common import *
from ..norm import norm, eqv, opaque_in
from .c16 import concrete, outcome, members

LEVEL = "proof"
TECHNIQUE = "static analysis: zero-diagonal abstract domain over the symbolic value of every learnt similarity matrix"
MIN_OBLIGATIONS = 10
EXPLANATION = ("For every concrete nearest-neighbour, SLIM, dense SLIM and EDLAE recommender, learning is analysed symbolically on every option path and the resulting similarity matrix (as its public accessor "
               "returns it) is evaluated in a zero-diagonal domain: diagonal removal, a zero store over the full diagonal and the native SLIM solver establish it; transposition, format changes, scaling and "
               "sums of such matrices keep it; products, inverses and raw similarities do not have it.")
ASSUMPTIONS = ["the native diagonal removal and SLIM solver have the summaries that the native part of this check establishes"]
EXEMPT = {"P3alphaRecommender", "RP3betaRecommender"}   # graph walks: not part of the property
ZERO_FN = {"remove_diagonal", "slim_weight_positive_only", "slim_weight_allow_negative"}


def zero(v):
    return v.op == "const" and isinstance(v.a[0], (int, float)) and v.a[0] == 0


def full_range(i, n):
    """Is i every position 0..n-1?"""
    if i.op in ("arange", "range"):
        if not (is_const(i.a[0], 0) and is_const(i.a[2], 1)):
            return False
        return True if eqv(i.a[1], n) else (None if opaque_in(i.a[1]) or any(x.op == "call" for x in walk(i.a[1])) else False)
    return None


def zd(t, n):
    """(True/False/None, why)"""
    op = t.op
    if op == "conv":
        return zd(t.a[1], n)
    if op == "T":
        return zd(t.a[0], n)
    if op == "phi":
        r = [zd(x, n) for x in t.a[1:]]
        for want in (False, None):
            for x in r:
                if x[0] is want:
                    return x
        return r[0]
    if op == "call" and t.a[0].op == "fn":
        name = t.a[0].a[0].split(".")[-1]
        if name in ZERO_FN:
            return True, ""
        return (False, f"{name} does not clear the diagonal") if "_cpp" in t.a[0].a[0] or "_knn" in t.a[0].a[0] else (None, name)
    if op == "call" and t.a[0].op == "attr":
        m = t.a[0].a[1]
        if m in ("compute_similarity", "compute_W"):
            return False, f"{m} keeps each item's similarity with itself"
        if m in ("multiply",) and len(t.a[1]) == 1:
            a, b = zd(t.a[0].a[0], n), zd(t.a[1][0], n)
            if a[0] or b[0]:
                return True, ""
            return a if a[0] is None else b
        return None, f".{m}()"
    if op == "call" and t.a[0].op == "ext":
        q = t.a[0].a[0]
        if q.endswith("linalg.inv") or q.endswith("pinv") or q.endswith(".solve"):
            return False, "an inverse has a non-zero diagonal"
        if q in ("numpy.multiply",):
            r = [zd(x, n) for x in t.a[1]]
            if any(x[0] for x in r):
                return True, ""
        if q in ("numpy.eye", "numpy.identity", "scipy.sparse.eye", "scipy.sparse.identity", "numpy.ones", "numpy.diag", "numpy.diagflat"):
            return False, f"{q.split('.')[-1]} has a non-zero diagonal"
        if q == "numpy.tril" or q == "numpy.triu":
            k = t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("k", ZERO)
            if is_int(k) and (k.a[0] < 0 if q == "numpy.tril" else k.a[0] > 0):
                return True, ""
        return None, q
    if op == "store":
        o, i, v = t.a
        if is_const(i) and i.a[0] == "diag":
            return (True, "") if zero(v) else (False, f"the diagonal is set to {short(v, 60)}")
        if i.op == "tuple" and len(i.a[0]) == 2 and eqv(*i.a[0]):
            r = full_range(i.a[0][0], n)
            if zero(v):
                if r is False:
                    return False, f"only part of the diagonal is cleared: {short(i.a[0][0], 80)}"
                return r, "diagonal store"
            inner = zd(o, n)
            if is_num(v) or v.op in ("lin",):
                return False, f"the diagonal is set to {short(v, 60)}"
            return (None, "diagonal store") if inner[0] else inner
        inner = zd(o, n)
        if inner[0] and zero(v):
            return inner
        if inner[0]:
            return None, f"store at {short(i, 60)}"
        return inner
    if op == "mul":
        r = [zd(x, n) for x in t.a[0]]
        if any(x[0] for x in r):
            return True, ""
        if any(x[0] is None and x[1] != "value" for x in r):
            return next(x for x in r if x[0] is None and x[1] != "value")
        return False, next((x[1] for x in r if x[0] is False), "product")
    if op == "div":
        return zd(t.a[0], n)
    if op == "lin":
        c, d = lin_parts(t)
        r = [zd(x, n) for x in d]
        if not c and r and all(x[0] for x in r):
            return True, ""
        if len(r) == 1 and not c:
            return r[0]
        if subtract_diag(t, n):
            return True, ""
        bad = [x for x in r if x[0] is None]
        return bad[0] if bad else (False, f"sum {short(t, 80)}")
    if op == "matmul":
        return False, "a product of matrices has a non-zero diagonal"
    if op in ("sym", "attr", "const", "idx"):
        return None, "value"
    return None, op


def subtract_diag(t, n):
    c, d = lin_parts(t)
    if c or len(d) != 2:
        return False
    (a, ka), (b, kb) = d.items()
    for x, kx, y, ky in ((a, ka, b, kb), (b, kb, a, ka)):
        if kx == -ky and y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0] in ("numpy.diag", "scipy.sparse.diags"):
            z = y.a[1][0]
            if z.op == "call" and (z.a[0].op == "ext" and z.a[0].a[0] == "numpy.diag" and z.a[1][0] is x or z.a[0].op == "attr" and z.a[0].a[1] == "diagonal" and z.a[0].a[0] is x):
                return True
    return False


def one(ctx, c, acc):
    I, st, o = construct(ctx, c)
    f = c.find("learn")
    v, s, effs = outcome(ctx, c, f, o, st, I)
    ctx.saw(*I.analysed)
    if v is None:
        ctx.ob("learns", c.name, False, "learning never completes", f.loc())
        return
    g = c.find(acc)
    w, s2, _ = outcome(ctx, c, g, o, s, I)
    if w is None:
        raise AnalysisError(f"{acc} is not available after learning")
    X = S = sym("X_train_all")
    n = dim(X, 1) if acc == "W" else dim(X, 0)
    k = 0
    for cs, leaf in leaves(norm(I.deep(w, s2))):
        k += 1
        if leaf is NONE:
            continue
        ok, why = zd(leaf, n)
        opts = " and ".join(short(x, 70) for x in cs if not x.op == "isnone")
        learn_f = c.find("_learn") or f
        ctx.ob("zero-diagonal", f"{c.name}.{acc} #{k}" if k > 1 else f"{c.name}.{acc}", ok, f"{why}" + (f" when {opts}" if opts else ""), learn_f.loc())


def check(ctx):
    n = 0
    for c in concrete(ctx):
        if c.name in EXEMPT:
            continue
        names = {k.name for k in c.mro()}
        acc = "W" if "BaseSimilarityRecommender" in names else "U" if "BaseUserSimilarityRecommender" in names else None
        if acc is None:
            continue
        n += 1
        ctx.guard(one, ctx, c, acc)
    ctx.ob("classes-found", "similarity recommenders", None if n < 6 else True, f"{n} classes")
