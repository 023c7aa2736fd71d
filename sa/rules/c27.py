"""C27: each neighbourhood keeps the top_k largest similarities of its row."""
from ..common import *
from ..norm import norm
from .c11 import NoVal, ieval
from .c21 import post
from .c25 import root_data as root_

LEVEL = "proof"
TECHNIQUE = "static analysis: the list of triplets is extracted from the clang syntax tree as one symbolic comprehension; selection algorithms are interpreted by their specification (which prefix holds the largest entries) for every relation between row size and cutoff"
MIN_OBLIGATIONS = 8
EXPLANATION = ("The function that turns blocks of similarities into triplets is summarised as one comprehension over blocks, rows and kept positions. The row written must be the row of the block in the whole matrix, column and value must be "
               "those of one entry of that row, as many entries are kept as the row has or the cutoff allows, and the selection must leave the largest entries in the kept prefix: the specifications of nth_element, partial_sort and sort are "
               "applied to the extracted bounds and comparator.")
ASSUMPTIONS = ["the standard library's selection algorithms meet their specification", "similarities are not NaN"]
NZ, PT, B_ = sym("$nz"), sym("$p"), sym("$B")


def root_data(t):
    """The values of which matrix t holds."""
    t = strip(t)
    while t.op == "last":
        t = strip(t.a[0])
    if t.op == "phi":
        a, b = root_data(t.a[1]), root_data(t.a[2])
        return a if a is b else None
    return root_(t)


def unlast(t):
    while t.op == "last":
        t = t.a[0]
    return t


class Unclear(Exception):
    pass


def algos(t, env):
    """(base of the buffer, algorithms applied in order) for one relation of sizes."""
    t = strip(t)
    if t.op == "phi":
        return algos(t.a[1] if ieval(t.a[0], env) else t.a[2], env)
    if t.op == "algo":
        if t.a[0] == "iota" and len(t.a[2]) == 3 and is_const(t.a[2][0], 0) and is_const(t.a[2][2], 0):
            return t, []
        b, xs = algos(t.a[1], env)
        return b, xs + [(t.a[0], t.a[2])]
    return t, []


def identity(b, env):
    """Positions 0..n-1 in order; n."""
    if b.op == "algo" and b.a[0] == "iota":
        return ieval(b.a[2][1], env)
    if b.op == "loopout" and b.a[0].op == "range" and b.a[2].op == "store" and b.a[2].a[0].op == "mu":
        d, s = b.a[0], b.a[2]
        if is_const(d.a[0], 0) and is_const(d.a[2], 1) and strip(s.a[1]) is elem(d) and strip(s.a[2]) is elem(d):
            return ieval(d.a[1], env)
    raise Unclear("buffer " + short(b, 80))


def descending(I, st, fn, data, cache):
    """Does the comparator put larger similarities first?"""
    if fn in cache:
        return cache[fn]
    p, q = sym("$l"), sym("$r")
    r = None
    try:
        r = reduce_(norm(strip(I.call(fn, [p, q], [], st.copy(), None))), data)
    except Exception:
        raise Unclear("comparator")
    vals = {}
    for x in walk(r):
        if x.op == "idx":
            who = [s for s in (p, q) if contains(x.a[1], s)]
            if not who:
                continue
            if len(who) != 1:
                raise Unclear("comparator " + short(r, 80))
            rd = root_data(strip(x.a[0]))
            u = unlast(strip(x.a[0]))
            if u.op == "attr" and u.a[1] == "indptr":
                continue
            kind = "v" if rd is not None else "c" if u.op == "attr" and u.a[1] == "indices" else None
            if kind is None:
                raise Unclear("comparator " + short(r, 80))
            vals[x] = (kind, 0 if who[0] is p else 1)
    ok = True
    try:
        for a in range(3):
            for b in range(3):
                for i in range(2):
                    for j in range(2):
                        env = {x: ((a, b) if k == "v" else (i, j))[w] for x, (k, w) in vals.items()}
                        env[p], env[q] = i, j
                        g = bool(ieval(r, env))
                        if a > b and not g or a < b and g or a == b and i == j and g:
                            ok = False
    except NoVal:
        raise Unclear("comparator " + short(r, 80))
    cache[fn] = ok, r
    return cache[fn]


def reduce_(t, B):
    """Row bounds as symbols."""
    t = norm(subst(norm(t), {B: B_}))
    return t


def select(I, st, chain, env, nz, m, B, cache):
    """A problem with the first m positions for one relation of sizes, or None."""
    b, xs = algos(chain, env)
    n = identity(b, env)
    if n < nz:
        return f"only {n} of {nz} entries are considered"
    top = None           # the first `top` are the largest, in any order
    for name, args in xs:
        fn = args[-1] if args and args[-1].op == "fn" else None
        nums = [ieval(x, env) for x in args if x is not fn]
        if name in ("nth_element", "partial_sort") and len(nums) == 3:
            lo, mid, hi = nums
        elif name in ("sort", "stable_sort") and len(nums) == 2:
            lo, hi = nums
            mid = hi
        else:
            raise Unclear(name)
        if lo != 0:
            raise Unclear(f"{name} from {lo}")
        if hi <= 1 and hi <= nz:
            continue
        if hi > nz:
            return f"{name} reaches {hi} of {nz} entries"
        d = descending(I, st, fn, B, cache)[0] if fn is not None else False
        if name in ("sort", "stable_sort") and top is not None:
            if hi > top and not (d and hi == nz):
                return f"with {nz} entries and cutoff {m}, {name} moves {hi} entries after the best {top} were chosen"
            top = hi if d and hi == nz else top
            continue
        if not d:
            if hi < nz or name in ("nth_element", "partial_sort"):
                if mid < nz:
                    return f"{name} puts others than the largest first"
            top = top if top is None else (top if hi <= top else None)
            continue
        if hi < nz:
            if top is None or hi > top:
                top = None
            continue
        # nth_element also settles the element at the position itself
        top = {mid, mid + 1} if name == "nth_element" and mid < nz else set(range(mid + 1)) if name != "nth_element" else {nz}
        top = m if m in top else None if m != nz else nz
        if top is None:
            return f"with {nz} entries, the best {mid} are chosen and {m} kept"
    if m < nz and top != m:
        return f"with {nz} entries, {m} are kept that need not be the largest"
    return None


def one(ctx, N, c, f):
    I, st, v = post(N, f, c)
    ctx.saw(f.qual)
    loc = f.loc()
    q = f.qual
    r = norm(I.deep(v, st)) if v is not None else NONE
    ps = [a.arg for a in f.node.args.args][1:]
    tgt, start, end, K = (sym(x) for x in ps[:4])
    if r.op != "comp" or r.a[1].op != "tuple" or len(r.a[1].a[0]) != 3 or len(r.a[2]) < 2:
        ctx.ob("triplets", q, None, short(r, 100), loc)
        return
    e = next((e for e in I.effects if e.kind == "mutcall" and e.name == "append" and e.args and e.args[0].op == "tuple" and len(e.args[0].a[0]) == 3), None)
    loc = e.loc if e is not None else loc
    row, col, val = r.a[1].a[0]
    doms, conds = r.a[2], r.a[3]
    col, val = strip(col), strip(val)
    if col.op != "idx" or col.a[0].op != "attr" or col.a[0].a[1] != "indices" or val.op != "idx" or root_data(strip(val.a[0])) is None:
        ctx.ob("triplets", q, None, f"an entry is {short(col, 60)}, {short(val, 60)}", loc)
        return
    B = col.a[0].a[0]
    ctx.ob("own-value", q, True if norm(col.a[1]) is norm(val.a[1]) and root_data(strip(val.a[0])).a[0] is B else (False if root_data(strip(val.a[0])).a[0] is B and not contains_unk(col, val) else None),
           "the value kept is not the one of the column kept", loc)
    # the row
    b = strip(B)
    blk = next((x for x in walk(b) if x.op == "idx" and x.a[0] is tgt and x.a[1].op == "slice"), None)
    R = doms[-2]
    if blk is None or R.op != "range":
        ctx.ob("own-row", q, None, short(b, 80), loc)
        return
    i = elem(R)
    off = norm(sub(sub(row, i), blk.a[1].a[0]))
    ctx.ob("own-row", q, True if is_const(off, 0) else (False if not contains_unk(off) else None), f"row {short(row, 80)} for row {short(i, 40)} of the block starting at {short(blk.a[1].a[0], 60)}", loc)
    sizes = (norm(dim(B, 0)), norm(dim(b, 0)), norm(dim(blk, 0)), norm(sub(blk.a[1].a[1], blk.a[1].a[0])))
    full = is_const(R.a[0], 0) and is_const(R.a[2], 1) and R.a[1] in sizes
    short_ = is_num(R.a[0]) and R.a[0].a[0] > 0 or any(is_num(sub(z, R.a[1])) and sub(z, R.a[1]).a[0] > 0 for z in sizes)
    ctx.ob("every-row", q, True if full else False if short_ else None, f"rows {short(R, 60)} of the block", loc)
    # the blocks
    C = doms[0]
    if len(doms) == 3 and C.op == "range":
        lo, hi = blk.a[1].a[0], blk.a[1].a[1]
        k = [x for x in walk(lo) if x.op == "elem"]
        ok, why = None, "blocks"
        if len(k) == 1 and C.a[0] is start and C.a[1] is end:
            ok = True
            try:
                for s0 in (0, 3):
                    for n in range(6):
                        for step in (1, 2, 3):
                            for at in range(0, n, step):
                                env = {k[0]: at, start: s0, end: s0 + n, C.a[2]: step}
                                a, z = ieval(lo, env), ieval(hi, env)
                                if (a, z) != (s0 + at, min(s0 + at + step, s0 + n)):
                                    ok, why = False, f"rows {a} to {z} are computed where {s0 + at} to {min(s0 + at + step, s0 + n)} are due (rows {s0} to {s0 + n} in blocks of {step})"
            except NoVal:
                ok = None
        ctx.ob("blocks", q, ok, why, loc)
    # conditions on the value itself drop entries
    own = [x for x in conds if contains(x, val)]
    if own:
        cut = [y for x in own for y in walk(x) if y.op in ("lt", "le") and any(is_num(z) and z.a[0] for z in y.a)]
        ctx.ob("dropped", q, False if cut else None, f"an entry is kept only if {short(cut[0] if cut else own[0], 100)}", loc)
        conds = [x for x in conds if x not in own]
    # sizes
    ip = mk("attr", B, "indptr")
    m1 = {idx(ip, add(i, ONE)): add(PT, NZ), idx(ip, i): PT}
    red = lambda t: norm(subst(norm(t), m1))
    D = red(doms[-1])
    if D.op != "range" or not is_const(D.a[2], 1):
        ctx.ob("kept", q, None, short(D, 80), loc)
        return
    pos = red(col.a[1])
    j = elem(D)
    d = norm(sub(pos, PT))
    j0 = elem(doms[-1])
    if d.op == "idx":
        chain, at = d.a
    else:
        chain, at = None, d
    cnt, sel, und = None, None, None
    conds = [red(x) for x in conds]
    cache = {}
    try:
        for nz in range(5):
            for k in range(6):
                for p in (0, 7):
                    env = {NZ: nz, K: k, PT: p}
                    lo, hi = ieval(D.a[0], env), ieval(D.a[1], env)
                    env[j], env[elem(red(doms[-1]))] = lo, lo
                    first = ieval(at, env)
                    m = max(0, hi - lo) if all(ieval(x, env) for x in conds) else 0
                    if m != min(nz, k):
                        cnt = cnt or f"of {nz} entries with cutoff {k}, {m} are kept"
                    elif m and first != 0:
                        sel = sel or f"the first entry kept is number {first} of the selection"
                    elif m and not sel and not cnt:
                        if chain is None:
                            sel = sel or (f"the first {m} of {nz} entries are kept as they come" if m < nz else None)
                        else:
                            sel = sel or select(I, st, chain, env, nz, m, B, cache)
    except NoVal:
        und = "sizes not evaluable"
    except Unclear as ex:
        und = str(ex)
    ctx.ob("kept", q, False if cnt else (None if und and not sel else True), cnt or und or "", loc)
    if not cnt:
        ctx.ob("largest", q, False if sel else (None if und else True), sel or und or "", loc)


def contains_unk(*ts):
    return any(x.op in ("unk", "opaque") for t in ts for x in walk(t))


def check(ctx):
    N = ctx.native()
    seen = set()
    for c in N.mods["_knn"].classes.values():
        f = c.find("compute_similarity_triple")
        if f is None or "compute_similarity_imple" not in c.methods or f.qual in seen:
            continue
        seen.add(f.qual)
        ctx.guard(one, ctx, N, c, f)
    ctx.anchor(bool(seen), "compute_similarity_triple")
    ctx.ob("found", "similarity computers", True if len(seen) > 3 else None, f"{len(seen)} instantiations")
