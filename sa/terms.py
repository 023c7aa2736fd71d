"""Hash-consed dataflow terms (a gated value graph) and their normalisation.

A term describes how a value is computed from the inputs of the analysed entry
point.  Terms are interned, so equality of computations is pointer equality.
The normal forms make the analysis independent of how a computation is spelled
(helper functions, statement order, loop style, operand order, ...).
"""
from fractions import Fraction
import hashlib
import math

_INTERN = {}


class T:
    __slots__ = ("op", "a", "_canon", "_key", "_strip")

    def __repr__(self):
        return pp(self)

    def __reduce__(self):
        raise TypeError("terms are not picklable")


def mk(op, *a):
    k = (op, a)
    # distinguish True/1/1.0 in constants
    if op == "const":
        k = (op, type(a[0]).__name__, a[0] if not (isinstance(a[0], float) and math.isnan(a[0])) else "nan")
    t = _INTERN.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        t._canon = None
        t._key = None
        t._strip = None
        _INTERN[k] = t
    return t


def sym(name):
    return mk("sym", name)


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
INF = const(float("inf"))
NEGINF = const(float("-inf"))
ZERO = const(0)
ONE = const(1)


def is_const(t, v=None):
    return t.op == "const" and (v is None or (t.a[0] == v and type(t.a[0]) == type(v)))


def is_num(t):
    return t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def is_int(t):
    return t.op == "const" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool)


_KIDS = {}


def children(t):
    out = _KIDS.get(t)
    if out is None:
        out = []
        todo = list(reversed(t.a))
        while todo:
            x = todo.pop()
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, tuple):
                todo.extend(reversed(x))
        out = _KIDS[t] = tuple(out)
    return out


def rebuild(t, f):
    """Rebuild t with f applied to its direct subterms, renormalising."""

    def rec(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x

    na = tuple(rec(x) for x in t.a)
    if na == t.a:
        return t
    return build(t.op, na)


def build(op, a):
    if op == "lin":
        acc = lin_const(a[0])
        for term, co in a[1]:
            acc = add(acc, scale(term, co))
        return acc
    if op == "phi":
        return phi(*a)
    if op == "not":
        return not_(a[0])
    if op == "min" or op == "max":
        return minmax(op, list(a[0]))
    if op == "lt":
        return lt(*a)
    if op == "le":
        return le(*a)
    if op == "eq":
        return eq(*a)
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "elem":
        return elem(*a)
    if op == "idx":
        return idx(*a)
    if op == "mul":
        return mul_list(list(a[0]))
    if op == "isnone":
        return isnone(a[0])
    if op == "isinstance":
        return isinstance_(*a)
    return mk(op, *a)


def subst(t, m, _memo=None):
    """Substitute terms bottom-up: m is dict T->T."""
    if _memo is None:
        _memo = {}
    if t in m:
        return m[t]
    if t in _memo:
        return _memo[t]
    r = rebuild(t, lambda x: subst(x, m, _memo))
    if r in m:
        r = m[r]
    _memo[t] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, x):
    return any(y is x for y in walk(t))


def any_term(t, pred):
    return any(pred(y) for y in walk(t))


def key(t):
    """Deterministic structural sort key."""
    if t._key is None:
        t._key = _digest(t)
    return t._key


def _digest(t):
    """Structural digest, computed once per term (terms share subterms heavily)."""
    stack = [t]
    while stack:
        x = stack[-1]
        if x._key is not None:
            stack.pop()
            continue
        todo = []
        parts = [x.op]
        _parts(x.a, parts, todo)
        if todo:
            stack.extend(todo)
            continue
        x._key = hashlib.blake2b("\x1f".join(parts).encode(), digest_size=16).hexdigest()
        stack.pop()
    return t._key


def _parts(a, parts, todo):
    parts.append("(")
    for y in a:
        if isinstance(y, T):
            if y._key is None:
                todo.append(y)
            else:
                parts.append(y._key)
        elif isinstance(y, tuple):
            _parts(y, parts, todo)
        else:
            parts.append(type(y).__name__ + ":" + str(y))
    parts.append(")")


# ---------------------------------------------------------------- arithmetic

def lin_parts(t):
    """-> (const, {term: coeff})"""
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    if is_num(t) and not (isinstance(t.a[0], float) and (math.isinf(t.a[0]) or math.isnan(t.a[0]))):
        return t.a[0], {}
    return 0, {t: 1}


def lin_const(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return const(c)


def mk_lin(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return lin_const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: key(x[0]))
    return mk("lin", c, tuple(items))


def add(a, b):
    if a is INF or b is INF:
        return INF
    if a is NEGINF or b is NEGINF:
        return NEGINF
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return mk_lin(ca + cb, da)


def scale(a, k):
    if is_num(a):
        return const(a.a[0] * k)
    c, d = lin_parts(a)
    return mk_lin(c * k, {t: v * k for t, v in d.items()})


def neg(a):
    if is_num(a):
        return const(-a.a[0])
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul_list(fs):
    c = 1
    out = []
    for f in fs:
        if f.op == "mul":
            for g in f.a[0]:
                if is_num(g):
                    c *= g.a[0]
                else:
                    out.append(g)
        elif is_num(f):
            c *= f.a[0]
        elif f.op == "lin" and f.a[0] == 0 and len(f.a[1]) == 1:
            t, k = f.a[1][0]
            c *= k
            if t.op == "mul":
                out.extend(t.a[0])
            else:
                out.append(t)
        else:
            out.append(f)
    if c == 0:
        return const(c)
    if not out:
        return const(c)
    out.sort(key=key)
    base = out[0] if len(out) == 1 else mk("mul", tuple(out))
    if c == 1:
        return base
    return scale(base, c)


def mul(a, b):
    if is_num(a) and is_num(b):
        return const(a.a[0] * b.a[0])
    if is_num(a) and b.op == "lin":
        return scale(b, a.a[0])
    if is_num(b) and a.op == "lin":
        return scale(a, b.a[0])
    return mul_list([a, b])


def minmax(op, args):
    flat = []
    for x in args:
        if x.op == op:
            flat.extend(x.a[0])
        else:
            flat.append(x)
    flat = sorted(set(flat), key=key)
    if len(flat) == 1:
        return flat[0]
    if all(is_num(x) for x in flat):
        f = min if op == "min" else max
        return const(f(x.a[0] for x in flat))
    # pull out common addends
    parts = [lin_parts(x) for x in flat]
    common = None
    for c, d in parts:
        s = {(t, k) for t, k in d.items()}
        common = s if common is None else (common & s)
    if common:
        base = {t: k for t, k in common}
        rest = []
        for c, d in parts:
            rest.append(mk_lin(c, {t: k for t, k in d.items() if (t, k) not in common}))
        inner = mk(op, tuple(sorted(set(rest), key=key)))
        return add(mk_lin(0, base), inner)
    # normalise the constant offset: min(x+1, y+1) handled only when shared
    return mk(op, tuple(flat))


# ---------------------------------------------------------------- booleans

def min_(a, b):
    return minmax("min", [a, b])


def max_(a, b):
    return minmax("max", [a, b])


def not_(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "const":
        return const(not t.a[0])
    if t.op == "and":
        return or_(*[not_(x) for x in t.a])
    if t.op == "or":
        return mk_bool("and", [not_(x) for x in t.a])
    return mk("not", t)


def mk_bool(op, items):
    flat = []
    for x in items:
        if x.op == op:
            flat.extend(x.a)
        else:
            flat.append(x)
    out = []
    for x in flat:
        if x is TRUE:
            if op == "or":
                return TRUE
            continue
        if x is FALSE:
            if op == "and":
                return FALSE
            continue
        if x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out and x.op != "and" and x.op != "or":
            return FALSE if op == "and" else TRUE
    if not out:
        return TRUE if op == "and" else FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=key)
    return mk(op, *out)


def and_(*xs):
    return mk_bool("and", xs)


def or_(*xs):
    return mk_bool("or", xs)


def lt(a, b):
    """a < b"""
    if is_num(a) and is_num(b):
        return const(a.a[0] < b.a[0])
    d = sub(a, b)
    if d.op == "const" and is_num(d):
        return const(d.a[0] < 0)
    a2, b2 = _balance(a, b)
    return mk("lt", a2, b2)


def le(a, b):
    if is_num(a) and is_num(b):
        return const(a.a[0] <= b.a[0])
    d = sub(a, b)
    if d.op == "const" and is_num(d):
        return const(d.a[0] <= 0)
    a2, b2 = _balance(a, b)
    # integer-style normalisation is left to the rules (floats and NaN!)
    return mk("le", a2, b2)


def _balance(a, b):
    """Move everything to canonical sides: positive coefficients stay, negatives cross over."""
    if a.op not in ("lin",) and b.op not in ("lin",):
        return a, b
    c, d = lin_parts(sub(a, b))
    pos = {t: k for t, k in d.items() if k > 0}
    ng = {t: -k for t, k in d.items() if k < 0}
    lc, rc = (c, 0) if c > 0 else (0, -c)
    return mk_lin(lc, pos), mk_lin(rc, ng)


def eq(a, b):
    if a is b and not any_term(a, lambda x: x.op in ("call",)):
        return TRUE
    if a.op == "const" and b.op == "const":
        return const(a.a[0] == b.a[0])
    if a.op == "lin" or b.op == "lin":
        c, d = lin_parts(sub(a, b))
        if not d:
            return const(c == 0)
        items = sorted(d.items(), key=lambda x: key(x[0]))
        if items[0][1] < 0:
            d = {t: -k for t, k in d.items()}
            c = -c
        pos = {t: k for t, k in d.items() if k > 0}
        ng = {t: -k for t, k in d.items() if k < 0}
        lc, rc = (c, 0) if c > 0 else (0, -c)
        a, b = mk_lin(lc, pos), mk_lin(rc, ng)
    if key(b) < key(a):
        a, b = b, a
    return mk("eq", a, b)


def isnone(t):
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].startswith(("numpy.", "scipy.", "pandas.")) \
            and not t.a[0].a[0].endswith((".shuffle", ".seed", ".copyto", ".fill_diagonal", ".put", ".place")):
        return FALSE
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.dict.fromkeys", "optuna.create_study", "builtins.sorted", "builtins.list", "builtins.set"):
        return FALSE
    if t.op == "idx" and t.a[1].op == "slice":
        return FALSE
    if t.op == "attr" and t.a[1] in ("categories", "codes", "values", "shape"):
        return FALSE
    if t.op == "const":
        return const(t.a[0] is None)
    if t.op in ("list", "dict", "tuple", "fn", "new", "comp", "lin", "cls", "fstr", "store", "append", "set"):
        return FALSE
    if t.op == "conv" and t.a[0] in ("csr", "csc", "coo", "copy", "astype", "toarray", "asarray", "contig", "list", "set"):
        return FALSE
    if t.op == "phi":
        return phi(t.a[0], isnone(t.a[1]), isnone(t.a[2]))
    return mk("isnone", t)


def isinstance_(t, c):
    if t.op == "phi":
        return phi(t.a[0], isinstance_(t.a[1], c), isinstance_(t.a[2], c))
    if t.op == "const" and c.op == "ext" and c.a[0].startswith("builtins."):
        k = {"int": int, "str": str, "float": float, "list": list, "bool": bool, "dict": dict, "tuple": tuple}.get(c.a[0][9:])
        if k is not None:
            return const(isinstance(t.a[0], k))
    if t is NONE or t.op == "const" and c.op == "ext" and c.a[0].startswith("numpy.random."):
        return FALSE
    if t.op == "call" and t.a[0].op == "ext" and c.op == "ext" and t.a[0].a[0] == "numpy.random.RandomState":
        return const(t.a[0] is c)
    return mk("isinstance", t, c)


def assume(t, c, val, _memo=None):
    """Simplify t knowing that condition c has truth value val."""
    if _memo is None:
        _memo = {}
    if t is c:
        return TRUE if val else FALSE
    if t in _memo:
        return _memo[t]
    if t.op == "not" and t.a[0] is c:
        return FALSE if val else TRUE
    r = rebuild(t, lambda x: assume(x, c, val, _memo))
    _memo[t] = r
    return r


def phi(c, a, b):
    if c.op == "const":
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.a[0], b, a)
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # boolean-valued phis
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_bool(a) and is_bool(b) and (a.op == "const" or b.op == "const"):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op in ("lt", "le") and len(c.a) == 2 and (indexlike(a) or indexlike(b)):
        # choosing the smaller (larger) of two index expressions
        d = sub(c.a[0], c.a[1])
        if d is sub(a, b):
            return minmax("min", [a, b])
        if d is sub(b, a):
            return minmax("max", [a, b])
    return mk("phi", c, a, b)


def indexlike(t):
    """an integer built from sizes and loop positions"""
    if t.op in ("dim", "len", "pos"):
        return True
    if t.op == "elem":
        return t.a[0].op == "range"
    if t.op == "lin":
        return any(indexlike(x) for x in lin_parts(t)[1])
    return False


BOOL_OPS = {"lt", "le", "eq", "not", "and", "or", "isnone", "in", "is", "isinstance", "raised"}


def is_bool(t):
    return t.op in BOOL_OPS or (t.op == "const" and isinstance(t.a[0], bool))


# ---------------------------------------------------------------- containers

def rng(lo, hi, step):
    return mk("range", lo, hi, step)


def elem(dom, depth=0):
    """Generic element of an iterable during a loop over it."""
    if dom.op == "range":
        lo, hi, st = dom.a
        if is_const(lo, 0):
            if hi.op == "len" and is_const(st, 1):
                return mk("pos", hi.a[0], depth)
            return mk("elem", dom, depth)
        return add(lo, mk_elem0(sub(hi, lo), st, depth))
    if dom.op == "conv":
        # iterating a converted container visits the same elements
        return mk("elem", dom, depth)
    return mk("elem", dom, depth)


def mk_elem0(n, st, depth):
    return elem(rng(ZERO, n, st), depth)


def pos(dom, depth=0):
    """0-based position in a loop over dom."""
    if dom.op == "range":
        lo, hi, st = dom.a
        if is_const(st, 1):
            return elem(rng(ZERO, sub(hi, lo), ONE), depth)
    if dom.op == "comp" and dom.a[0] in ("list", "gen") and len(dom.a[2]) == 1 and not dom.a[3]:
        return pos(dom.a[2][0], depth)
    return mk("pos", dom, depth)


def length(x):
    if x.op in ("list", "tuple"):
        if not any(isinstance(y, T) and y.op == "star" for y in x.a[0]):
            return const(len(x.a[0]))
    if x.op == "comp" and x.a[0] in ("list", "gen") and len(x.a[2]) == 1 and not x.a[3]:
        return length(x.a[2][0])
    if x.op == "range" and is_const(x.a[2], 1) and is_const(x.a[0], 0):
        return x.a[1]
    if x.op == "listed":
        return length(x.a[0])
    if x.op == "rep":
        return x.a[0]
    if x.op == "algo":
        return length(x.a[1])
    if x.op == "store" and x.a[0].op in ("rep", "algo", "store"):
        return length(x.a[0])
    return mk("len", x)


def idx(o, i):
    if o.op in ("tuple", "list") and is_int(i) and not any(y.op == "star" for y in o.a[0]):
        k = i.a[0]
        if -len(o.a[0]) <= k < len(o.a[0]):
            return o.a[0][k]
    if o.op == "phi" and is_int(i):
        return phi(o.a[0], idx(o.a[1], i), idx(o.a[2], i))
    if i.op == "pos" and i.a[0] is o:
        return elem(o, i.a[1])
    if o.op == "attr" and o.a[1] == "shape" and is_int(i) and i.a[0] >= 0:
        return dim(o.a[0], i.a[0])
    if o.op == "dict" and i.op == "const":
        for k, v in reversed(o.a[0]):
            if k is i:
                return v
            if k.op != "const":
                break
        else:
            pass
    if o.op == "store":
        if o.a[1] is i:
            return o.a[2]
        if o.a[1].op == "const" and i.op == "const" and not is_num(i):
            return idx(o.a[0], i)
    if o.op == "zipped" and is_int(i):
        return o.a[0][i.a[0]]
    return mk("idx", o, i)


SHAPE_KEEP = {"csr", "csc", "coo", "astype", "toarray", "asarray", "contig", "copy", "sparse2arr", "float32", "asfp"}


def dim(x, k):
    while x.op == "conv" and x.a[0] in SHAPE_KEEP:
        x = x.a[1]
    if x.op == "store":
        return dim(x.a[0], k)
    if x.op == "T" and k in (0, 1):
        return dim(x.a[0], 1 - k)
    if x.op == "phi":
        return phi(x.a[0], dim(x.a[1], k), dim(x.a[2], k))
    if x.op in ("zeros", "empty", "triplets") and isinstance(x.a[0], T) and x.a[0].op == "tuple" and k < len(x.a[0].a[0]):
        return x.a[0].a[0][k]
    return mk("dim", x, k)


# ---------------------------------------------------------------- views of terms

def fresh(t):
    """Call sites matter only where every call gives a new value."""
    return t.a[3] if t.a[0].op == "ext" and t.a[0].a[0].startswith("uuid.") else None


def strip(t, _memo=None):
    """Value view: drop conversions that keep the entries of a matrix/array, call-site tags."""
    if t._strip is not None:
        return t._strip
    x = t
    if x.op == "conv":
        r = strip(x.a[1])
    elif x.op == "call":
        r = mk("call", strip(x.a[0]), tuple(strip(y) for y in x.a[1]),
               tuple((k, strip(v)) for k, v in x.a[2]), fresh(x))
    elif x.op == "new":
        r = mk("new", x.a[0], tuple(strip(y) for y in x.a[1]), tuple((k, strip(v)) for k, v in x.a[2]), None)
    else:
        r = rebuild(x, strip)
    t._strip = r
    r._strip = r
    return r


def canon(t):
    """Drop call-site tags only."""
    if t._canon is not None:
        return t._canon
    if t.op == "call":
        r = mk("call", canon(t.a[0]), tuple(canon(y) for y in t.a[1]),
               tuple((k, canon(v)) for k, v in t.a[2]), fresh(t))
    elif t.op == "new":
        r = mk("new", t.a[0], tuple(canon(y) for y in t.a[1]), tuple((k, canon(v)) for k, v in t.a[2]), None)
    elif t.op == "conv" and isinstance(t.a[-1], int):
        r = mk("conv", t.a[0], canon(t.a[1]))
    else:
        r = rebuild(t, canon)
    t._canon = r
    r._canon = r
    return r


# ---------------------------------------------------------------- printing

def pp(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(pp(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 60:
        return "..."
    d = depth + 1
    op, a = t.op, t.a
    if op == "sym":
        return a[0]
    if op == "const":
        return repr(a[0])
    if op == "ext":
        return a[0]
    if op == "attr":
        return f"{pp(a[0], d)}.{a[1]}"
    if op == "idx":
        return f"{pp(a[0], d)}[{pp(a[1], d)}]"
    if op == "slice":
        return ":".join("" if x is NONE else pp(x, d) for x in a)
    if op == "lin":
        s = []
        for x, k in a[1]:
            s.append(("" if k == 1 else f"{k}*") + pp(x, d))
        if a[0] != 0:
            s.append(str(a[0]))
        return "(" + " + ".join(s) + ")"
    if op == "mul":
        return "(" + " * ".join(pp(x, d) for x in a[0]) + ")"
    if op == "call":
        kw = ", ".join(f"{k}={pp(v, d)}" for k, v in a[2])
        ar = ", ".join(pp(x, d) for x in a[1])
        return f"{pp(a[0], d)}({ar}{', ' if ar and kw else ''}{kw})"
    if op == "new":
        return f"new {a[0]}(" + ", ".join([pp(x, d) for x in a[1]] + [f"{k}={pp(v, d)}" for k, v in a[2]]) + ")"
    if op == "phi":
        return f"phi({pp(a[0], d)} ? {pp(a[1], d)} : {pp(a[2], d)})"
    if op == "fn":
        return f"<fn {a[0]}>"
    if op == "cls":
        return f"<cls {a[0]}>"
    if op in ("list", "tuple", "set"):
        return op[0] + "[" + ", ".join(pp(x, d) for x in a[0]) + "]"
    if op == "dict":
        return "{" + ", ".join(f"{pp(k, d)}: {pp(v, d)}" for k, v in a[0]) + "}"
    if op == "conv":
        return f"{a[0]}<{pp(a[1], d)}>"
    return f"{op}(" + ", ".join(pp(x, d) for x in a) + ")"
