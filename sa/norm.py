"""Semantic normalisation of value terms (on top of strip)."""
from .terms import *
from .interp import mkslice, transpose

_N = {}
FULL = mk("slice", NONE, NONE, NONE)

OPAQUE = {"loopout", "mu", "unk", "last", "mutated", "either", "sent", "popval", "popped", "delitem", "condlist", "setadd"}


# numeric functions that are never a neutral rewriting of something else
CHANGING = {"numpy." + n for n in ("linalg.norm", "exp", "expm1", "log", "log1p", "log2", "log10", "std", "var", "clip", "abs", "absolute", "fabs", "sign", "tanh", "median", "round", "rint", "floor", "ceil", "cumsum", "random.rand",
                                   "random.permutation")}


def norm(t):
    t = strip(t)
    return _norm(t)


def _norm(t):
    r = _N.get(t)
    if r is not None:
        return r
    x = rebuild(t, _norm)
    for _ in range(20):
        y = rule(x)
        if y is x:
            break
        x = rebuild(y, _norm)
    _N[t] = x
    return x


def is_mask_of(c):
    """Boolean array expression that is true exactly at the nonzero cells of some matrix -> that matrix."""
    if c.op == "not" and c.a[0].op == "eq" and ZERO in c.a[0].a:
        o = [y for y in c.a[0].a if y is not ZERO]
        return o[0] if o else None
    if c.op == "truth":
        return c.a[0]
    if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "__ne__":
        return c.a[0].a[0]
    return None


def rule(t):
    op = t.op
    if op == "idx":
        o, i = t.a
        if i.op == "arange" and is_const(i.a[2], 1):
            return idx(o, mkslice(i.a[0], i.a[1], NONE))
        if i.op == "range" and is_const(i.a[2], 1):
            return idx(o, mkslice(i.a[0], i.a[1], NONE))
        if i.op == "conv":
            return idx(o, i.a[1])
        if o.op == "matmul" and i.op != "tuple" and not is_int(i):
            return mk("matmul", idx(o.a[0], i), o.a[1])
        if i is FULL:
            return o
        # rows [a:b] then [c:d] of a slice with known start
        if o.op == "idx" and o.a[1].op == "slice" and i.op == "slice" and o.a[1].a[2] is NONE and i.a[2] is NONE:
            lo = ZERO if o.a[1].a[0] is NONE else o.a[1].a[0]
            l2 = ZERO if i.a[0] is NONE else i.a[0]
            if i.a[1] is NONE:
                return idx(o.a[0], mkslice(add(lo, l2), o.a[1].a[1], NONE))
        if o.op == "T" and i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][0] is FULL:
            return mk("T", idx(o.a[0], i.a[0][1]))
        if i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][0].op == "nzidx" and i.a[0][1].op == "nzidx" \
                and i.a[0][0].a[0] is i.a[0][1].a[0] and (i.a[0][0].a[1], i.a[0][1].a[1]) == (0, 1):
            return idx(o, mk("nonzero", i.a[0][0].a[0]))
    elif op == "store":
        o, i, v = t.a
        if i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][0].op == "nzidx" and i.a[0][1].op == "nzidx" \
                and i.a[0][0].a[0] is i.a[0][1].a[0] and (i.a[0][0].a[1], i.a[0][1].a[1]) == (0, 1):
            return mk("store", o, mk("nonzero", i.a[0][0].a[0]), v)
        m = is_mask_of(i)
        if m is not None:
            return mk("store", o, mk("nonzero", m), v)
        # a[:, k] style full-slice tails
        if i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][1] is FULL:
            return mk("store", o, i.a[0][0], v)
        # idempotent
        if o.op == "store" and o.a[1] is i and o.a[2] is v:
            return o
    elif op == "matmul":
        pass
    elif op == "T":
        x = t.a[0]
        if x.op == "T":
            return x.a[0]
        if x.op == "matmul":
            return mk("matmul", mk("T", x.a[1]), mk("T", x.a[0]))
    elif op == "call":
        f = t.a[0]
        if f.op == "ext":
            n = f.a[0]
            if n == "numpy.where" and len(t.a[1]) == 3:
                c, a, b = t.a[1]
                m = is_mask_of(c)
                if m is not None and a is NEGINF:
                    return mk("store", b, mk("nonzero", m), NEGINF)
                if c.op == "eq" and ZERO in c.a and b is NEGINF:
                    m = [y for y in c.a if y is not ZERO]
                    if m:
                        return mk("store", a, mk("nonzero", m[0]), NEGINF)
            if n in ("numpy.expand_dims",):
                pass
            if n in ("numpy.multiply",) and len(t.a[1]) == 2:
                return mul(*t.a[1])
            if n in ("numpy.add",) and len(t.a[1]) == 2:
                return add(*t.a[1])
            if n in ("numpy.negative",) and len(t.a[1]) == 1:
                return neg(t.a[1][0])
            if n == "scipy.sparse.csr_matrix.dot" and len(t.a[1]) == 2:
                return mk("matmul", *t.a[1])
        if f.op == "attr" and f.a[1] == "__getitem__" and len(t.a[1]) == 1:
            return idx(f.a[0], t.a[1][0])
        if f.op == "attr" and f.a[1] == "__matmul__" and len(t.a[1]) == 1:
            return mk("matmul", f.a[0], t.a[1][0])
    elif op == "nonzero":
        m = is_mask_of(t.a[0])
        if m is not None:
            return mk("nonzero", m)
    elif op == "nzidx":
        m = is_mask_of(t.a[0])
        if m is not None:
            return mk("nzidx", m, t.a[1])
    elif op == "slice":
        if is_const(t.a[0], 0):
            return mkslice(NONE, t.a[1], t.a[2])
    return t


def ext_calls(t):
    out = set()
    for x in walk(t):
        if x.op == "call":
            f = x.a[0]
            out.add(f.a[0] if f.op == "ext" else ("." + f.a[1] if f.op == "attr" else f.op))
    return out


def opaque_in(t, ref=None):
    """Why the term cannot be judged against ref, or None."""
    refops = {x.op for x in walk(ref)} if ref is not None else set()
    for x in walk(t):
        if x.op in OPAQUE and x.op not in refops:
            return x.op
    if ref is not None:
        extra = ext_calls(t) - ext_calls(ref)
        # calls into the project are part of the judged semantics, unmodelled library calls are not
        extra = {e for e in extra if isinstance(e, str) and not e.startswith("irspack") and e not in CHANGING and e != "fn"}
        if extra:
            return "unmodelled call " + ", ".join(sorted(extra))
    return None


_PRIME = (1 << 61) - 1
_FP = {}


def fingerprint(t, seed=1):
    """Value of t in a prime field with every non-arithmetic subterm as an independent point: equal for algebraically equal
    rational expressions (up to a 2^-60 chance), different constructors stay apart."""
    k = (t, seed)
    r = _FP.get(k)
    if r is not None:
        return r
    p = _PRIME
    import hashlib

    def h(*xs):
        return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big") % p

    def num(x):
        if isinstance(x, bool) or not isinstance(x, (int, float)) and not hasattr(x, "numerator"):
            return None
        if isinstance(x, float):
            if x != x or x in (float("inf"), float("-inf")):
                return None
            n, d = x.as_integer_ratio()
        else:
            n, d = x.numerator, x.denominator
        return n % p * pow(d % p, p - 2, p) % p

    def sub_(x):
        if isinstance(x, T):
            return fingerprint(x, seed)
        if isinstance(x, tuple):
            return tuple(sub_(y) for y in x)
        return getattr(x, "qual", None) or str(x)

    op = t.op
    r = None
    if op == "const":
        r = num(t.a[0])
        if r is None:
            r = h(seed, "const", repr(t.a[0]))
    elif op == "lin":
        r = num(t.a[0]) or 0
        for x, c in t.a[1]:
            r = (r + num(c) * fingerprint(x, seed)) % p
    elif op == "mul":
        r = 1
        for x in t.a[0]:
            r = r * fingerprint(x, seed) % p
    elif op == "div" and len(t.a) == 2:
        d = fingerprint(t.a[1], seed)
        if d:
            r = fingerprint(t.a[0], seed) * pow(d, p - 2, p) % p
    elif op == "pow" and len(t.a) == 2 and is_int(t.a[1]) and 0 <= t.a[1].a[0] < 64:
        r = pow(fingerprint(t.a[0], seed), t.a[1].a[0], p)
    elif op in ("min", "max", "and", "or"):
        r = h(seed, op, sorted(map(str, sub_(tuple(t.a[0]) if isinstance(t.a[0], (tuple, list, frozenset)) else t.a))))
    elif op == "eq":
        r = h(seed, op, sorted(map(str, (sub_(t.a[0]), sub_(t.a[1])))))
    if r is None:
        r = h(seed, op, tuple(sub_(x) for x in t.a))
    _FP[k] = r
    return r


def eqv(a, b):
    """Equal after normalisation, or as rational expressions."""
    a, b = norm(a), norm(b)
    return a is b or fingerprint(a) == fingerprint(b)


def same(actual, expected):
    """True equal / False differs / None cannot be judged."""
    a, e = norm(actual), norm(expected)
    if a is e:
        return True, ""
    from .common import hoist
    try:
        la, le_ = hoist(a), hoist(e)
    except Exception:
        return None, "too many alternatives"
    bad = None
    for ca, xa in la:
        for ce, xe in le_:
            if any(not_(c) in ce for c in ca):
                continue
            xa2, xe2 = _norm(xa), _norm(xe)
            if not eqv(xa2, xe2):
                why = opaque_in(xa2, xe2)
                if why:
                    return None, why
                bad = (ca, xa2, xe2)
    if bad is None:
        return True, ""
    from .common import short
    cond = " and ".join(short(c, 120) for c in bad[0])
    return False, f"computes {short(bad[1])} instead of {short(bad[2])}" + (f" when {cond}" if cond else "")
