"""Shared helpers for the rules."""
from .terms import *
from .interp import Interp, State, Unreachable, index, mkslice, transpose, matmul
from .pyproj import AnalysisError

BASE = "irspack.recommenders.base.BaseRecommender"


def leaves(t, cap=256, conds=()):
    """Top-level phi expansion: [(conds, leaf)], dropping contradictory branches."""
    out = []

    def rec(x, cs):
        if len(out) >= cap:
            return
        if x.op == "phi":
            c = x.a[0]
            if c in cs:
                return rec(x.a[1], cs)
            if not_(c) in cs:
                return rec(x.a[2], cs)
            rec(x.a[1], cs + (c,))
            rec(x.a[2], cs + (not_(c),))
        else:
            out.append((cs, x))

    rec(t, conds)
    return out


def hoist(t, cap=200):
    """Expand every phi anywhere inside t: [(conds, phi-free term)]."""
    out = []

    def rec(x, cs):
        if len(out) > cap:
            raise AnalysisError("too many alternatives")
        p = find_phi(x)
        if p is None:
            out.append((cs, x))
            return
        c = p.a[0]
        if c in cs:
            return rec(assume(x, c, True), cs)
        if not_(c) in cs:
            return rec(assume(x, c, False), cs)
        rec(assume(x, c, True), cs + (c,) + (c.a if c.op == "and" else ()))
        rec(assume(x, c, False), cs + (not_(c),) + (tuple(not_(y) for y in c.a) if c.op == "or" else ()))

    rec(t, ())
    return out


def find_phi(t):
    for x in walk(t):
        if x.op == "phi" and not any(y.op == "phi" for y in walk(x.a[0])):
            return x
    return None


def short(t, n=400):
    s = pp(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "..."


def analyse(ctx, func, cls=None, selfterm=None, args=None, st=None, interp=None, defaults=False, **kw):
    """Run one function symbolically -> (interp, state, value or None when it never returns)."""
    I = interp or Interp(ctx.proj, **kw)
    st = st if st is not None else State()
    if cls is not None:
        selfterm = selfterm if selfterm is not None else sym("self")
        if selfterm not in I.types and selfterm.op != "new":
            I.types[selfterm] = cls
    I.pending_raises = []
    try:
        v = I.run(func, args=args, st=st, selfterm=selfterm, cls=cls, use_defaults=defaults)
    except Unreachable:
        v = None
    ctx.saw(*I.analysed)
    return I, st, v


def construct(ctx, cls, args=None, interp=None, facts=(), **kw):
    """Analyse the constructor with symbolic parameters -> (interp, state, object term)."""
    I = interp or Interp(ctx.proj, **kw)
    st = State()
    st.path = tuple(facts)
    obj = mk("new", cls.qual, (), (), I.site())
    init = cls.find("__init__")
    if init is not None and not init.is_stub:
        I.pending_raises = []
        I.run(init, args=args, st=st, selfterm=obj, cls=cls)
    ctx.saw(*I.analysed)
    return I, st, obj


def value(I, st, v):
    """Value view of a result."""
    return strip(I.deep(v, st))


def recommenders(ctx, concrete=True):
    cs = ctx.proj.subclasses(BASE)
    return cs


def root(t):
    """Object an lvalue/view term is derived from."""
    while True:
        if t.op in ("idx", "attr", "T"):
            t = t.a[0]
        elif t.op in ("conv",):
            t = t.a[1]
        elif t.op == "store":
            t = t.a[0]
        elif t.op == "mu":
            t = t.a[3]
        else:
            return t
