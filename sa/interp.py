"""Value-graph dataflow analysis of Python functions.

The interpreter never executes the analysed code.  It walks the syntax tree of a
function once per calling context and builds, for every variable, attribute and
return value, a term that says how it is computed from the entry point's inputs
(see terms.py).  Branches are joined with gated phi terms, loops are summarised
(comprehensions for collecting loops, `mu` head values for loop-carried state),
project functions, methods, properties, closures and constructors are inlined
through the resolved call graph.  Everything observable on the way (stores,
attribute writes, calls, raises, returns) is logged as an effect with its path
condition and enclosing loops.
"""
import ast
import itertools

from .terms import *
from .terms import SHAPE_KEEP
from .pyproj import AnalysisError, Func, Class, Project

UNDEF = mk("undef")
MAXDEPTH = 16


class State:
    __slots__ = ("envs", "heap", "path")

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.path = ()

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.path = self.path
        return s

    def become(self, o):
        self.envs, self.heap, self.path = o.envs, o.heap, o.path


class Exit:
    __slots__ = ("kind", "st", "val", "node")

    def __init__(self, kind, st, val, node=None):
        self.kind, self.st, self.val, self.node = kind, st, val, node


class Effect:
    __slots__ = ("kind", "path", "loops", "stack", "loc", "d", "tries", "withs", "final")

    def __init__(self, kind, path, loops, stack, loc, tries, **d):
        self.kind, self.path, self.loops, self.stack, self.loc, self.d = kind, path, loops, stack, loc, d
        self.tries = tries

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"<{self.kind} {self.d} @{self.loc} path={self.path}>"


class Loop:
    def __init__(self, dom, depth, kind, loc):
        self.dom = dom          # iterated domain (or None for an opaque while)
        self.depth = depth
        self.kind = kind
        self.loc = loc
        self.mus = {}           # mu term -> (init, next)
        self.breaks = []        # path conditions of breaks
        self.zips = ()
        self.cond = None

    def __repr__(self):
        return f"<Loop {self.dom}>"


_SITE = {}


def max_site(t):
    """Largest creation site mentioned in a term."""
    r = _SITE.get(t)
    if r is not None:
        return r
    todo = [t]
    while todo:
        x = todo[-1]
        if x in _SITE:
            todo.pop()
            continue
        kids = [c for c in children(x) if c not in _SITE]
        if kids:
            todo.extend(kids)
            continue
        todo.pop()
        m = x.a[-1] if x.op in ("new", "call", "conv") and x.a and isinstance(x.a[-1], int) else 0
        for c in children(x):
            m = max(m, _SITE[c])
        _SITE[x] = m
    return _SITE[t]


class Frame:
    def __init__(self, fid, func, module, cls, selfterm):
        self.fid, self.func, self.module, self.cls, self.selfterm = fid, func, module, cls, selfterm
        self.yields = None
        self.globals = set()
        self.nonlocals = {}


BUILTIN_EXC = {n for n in dir(__builtins__) if n.endswith("Error") or n.endswith("Exception")} if not isinstance(__builtins__, dict) else {n for n in __builtins__ if n.endswith("Error") or n.endswith("Exception")}

CONV_METHODS = {
    "tocsr": "csr", "tocsc": "csc", "tocoo": "coo", "tolil": "lil", "todok": "dok", "toarray": "toarray",
    "todense": "toarray", "copy": "copy", "astype": "astype", "tolist": "tolist", "asformat": "csr",
    "sorted_indices": "copy", "asfptype": "asfp", "to_numpy": "asarray",
}
CONV_FUNCS = {
    "numpy.asarray": "asarray", "numpy.array": "copy", "numpy.ascontiguousarray": "contig",
    "numpy.asfortranarray": "contig", "numpy.asanyarray": "asarray", "numpy.copy": "copy",
    "scipy.sparse.csr_matrix": "csr", "scipy.sparse.csc_matrix": "csc", "scipy.sparse.coo_matrix": "coo",
    "scipy.sparse.csr_array": "csr", "scipy.sparse.csc_array": "csc", "copy.copy": "copy",
    "copy.deepcopy": "copy", "scipy.sparse.lil_matrix": "lil",
}
PURE_BUILTINS = {"len", "min", "max", "int", "float", "str", "bool", "abs", "range", "sorted", "tuple", "list", "dict",
                 "set", "frozenset", "sum", "zip", "enumerate", "isinstance", "type", "repr", "getattr", "hasattr", "any",
                 "all", "reversed", "round", "map", "filter", "id", "print", "open", "super", "iter", "next",
                 "object", "callable", "issubclass", "bytes", "slice", "divmod", "pow", "hash", "vars", "setattr", "eval", "input", "exec", "compile", "globals"}

LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem",
            "add", "discard"}
UFUNC = {"numpy.multiply": ast.Mult, "numpy.add": ast.Add, "numpy.subtract": ast.Sub, "numpy.divide": ast.Div, "numpy.true_divide": ast.Div, "numpy.matmul": ast.MatMult, "numpy.power": ast.Pow}
INPLACE_EXT = {"numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.putmask", "numpy.copyto", "numpy.put_along_axis", "numpy.random.shuffle", "random.shuffle", "heapq.heappush", "heapq.heapify", "heapq.heappushpop", "heapq.heapreplace", "heapq.heappop", "bisect.insort", "bisect.insort_left", "bisect.insort_right", "operator.setitem", "operator.iadd", "operator.iconcat"}
VALUE_MUT = {"setdiag", "fill", "resize", "put", "itemset", "partition"}
LAYOUT_MUT = {"sort_indices", "eliminate_zeros", "sum_duplicates", "prune"}


def mk_conv_like(t, inner):
    """t is a chain of conversions around a phi: the same chain around one alternative."""
    if t.op == "conv":
        return mk("conv", t.a[0], mk_conv_like(t.a[1], inner), *t.a[2:])
    return inner


class Interp:
    def __init__(self, proj, max_depth=MAXDEPTH, inline=None):
        self.proj = proj
        self.effects = []
        self.loops = []          # active loops
        self.all_loops = []
        self.frames = []
        self.types = {}          # term -> Class (exact)
        self.decl = {}           # term -> Class (declared, may be a subclass at run time)
        self.closures = {}
        self.counter = itertools.count(1)
        self.muted = 0
        self.tries = ()
        self.max_depth = max_depth
        self.inline_filter = inline
        self.modcache = {}
        self.const_heap = {}
        self.analysed = set()
        self.unknown = []
        self.budget = 400000
        self.nonliteral_unroll = 24

    # ------------------------------------------------------------ utilities
    def site(self):
        return next(self.counter)

    def loc(self, node):
        f = self.frames[-1] if self.frames else None
        if f is None:
            return "?"
        return f"{f.module.rel}:{getattr(node, 'lineno', '?')}"

    def log(self, kind, st, node, **d):
        if self.muted:
            return None
        e = Effect(kind, st.path, tuple(self.loops), tuple(f.func.qual if f.func else "<module>" for f in self.frames),
                   self.loc(node), self.tries, **d)
        e.withs, e.final = self.withs, self.final
        self.effects.append(e)
        return e

    def content(self, t, st):
        k = ("c", t)
        if k in st.heap:
            return st.heap[k]
        if t.op == "phi":
            return phi(t.a[0], self.content(t.a[1], st), self.content(t.a[2], st))
        if t.op == "tuple":
            n = tuple(self.content(x, st) for x in t.a[0])
            return t if n == t.a[0] else mk("tuple", n)
        return t

    def deep(self, t, st, _d=0):
        """Content with nested container contents substituted."""
        c = self.content(t, st)
        if _d > 6:
            return c
        if c.op in ("list", "tuple", "set"):
            return mk(c.op, tuple(self.deep(x, st, _d + 1) for x in c.a[0]))
        if c.op == "dict":
            return mk("dict", tuple((self.deep(k, st, _d + 1), self.deep(v, st, _d + 1)) for k, v in c.a[0]))
        if c.op == "comp":
            return mk("comp", c.a[0], tuple(self.deep(x, st, _d + 1) for x in c.a[1]) if isinstance(c.a[1], tuple) else self.deep(c.a[1], st, _d + 1), c.a[2], c.a[3])
        if c.op == "phi":
            f = lambda x: x if x is t else self.deep(x, st, _d + 1)
            return phi(c.a[0], f(c.a[1]), f(c.a[2]))
        o = t
        while True:
            d = st.heap.get(("a", o, "data"))
            if d is not None:
                return mk("withdata", c, self.deep(d, st, _d + 1))
            if o.op == "conv" and o.a[0] in ("astype", "csr", "csc", "copy", "tocsr", "tocsc", "csr_matrix"):
                o = o.a[1]
                if o.op == "phi":
                    return phi(o.a[0], self.deep(mk_conv_like(t, o.a[1]), st, _d + 1), self.deep(mk_conv_like(t, o.a[2]), st, _d + 1))
                continue
            return c

    def join(self, states):
        """Join states whose paths partition a common prefix."""
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        pre = common_prefix([s.path for s in states])
        # find a splitting atom: the first atom after the prefix of the first state
        n = len(pre)
        for s in states:
            if len(s.path) > n:
                c = s.path[n]
                break
        else:
            # indistinguishable: take the last
            return states[-1]
        if c.op == "not":
            c = c.a[0]
        tr, fl, un = [], [], []
        for s in states:
            if len(s.path) > n and s.path[n] is c:
                tr.append(s)
            elif len(s.path) > n and s.path[n] is not_(c):
                fl.append(s)
            else:
                un.append(s)
        if un or not tr or not fl:
            # different atoms: fall back to guarding by the full condition of the first
            k = next((i for i, x in enumerate(states) if len(x.path) > n), 0)
            first, rest = states[k], states[:k] + states[k + 1:]
            c = and_(*first.path[n:]) if len(first.path) > n else mk("either", self.site())
            a, b = first, self.join(rest)
        else:
            a, b = self.join(tr), self.join(fl)
        r = State()
        r.path = pre
        if self.disjoin and not (un or not tr or not fl):
            g = phi(c, and_(*a.path[n + 1:]), and_(*b.path[n + 1:]))
            if g is not TRUE:
                r.path = extend(r.path, g)
        for fid in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is None or eb is None:
                r.envs[fid] = dict(ea if ea is not None else eb)
                continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                va, vb = ea.get(k, UNDEF), eb.get(k, UNDEF)
                e[k] = phi(c, va, vb)
            r.envs[fid] = e
        ka, kb = {k[1] for k in a.heap if k[1].op == "new"}, {k[1] for k in b.heap if k[1].op == "new"}
        onlya, onlyb = ka - kb, kb - ka
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            va = a.heap.get(k)
            vb = b.heap.get(k)
            if k[1].op == "new" and (va is None or vb is None) and (k[0] == "c" or k[1] in (onlyb if va is None else onlya)):
                r.heap[k] = va if vb is None else vb      # allocated on one side only
                continue
            if va is None:
                va = self.heap_default(k, a)
            if vb is None:
                vb = self.heap_default(k, b)
            r.heap[k] = self.phi_val(c, va, vb)
        return r

    def phi_val(self, c, a, b):
        if a is b:
            return a
        # join of list growth: keep conditional appends visible
        return phi(c, a, b)

    def heap_default(self, k, st):
        if k[0] == "c":
            t = k[1]
            if t.op == "phi":
                return phi(t.a[0], self.content(t.a[1], st), self.content(t.a[2], st))
            return t
        return mk("attr", k[1], k[2])

    # ------------------------------------------------------------ entry points
    def run(self, func, args=None, kwargs=None, st=None, selfterm=None, cls=None, node=None, use_defaults=False):
        """Analyse func; returns (value, state).  Missing parameters become symbols."""
        if st is None:
            st = State()
        args = dict(args or {})
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        is_m = func.cls is not None and not func.is_static
        if is_m and names:
            env[names[0]] = selfterm if selfterm is not None else sym("self")
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in env:
                continue
            if x.arg in args:
                env[x.arg] = args[x.arg]
            elif use_defaults and x.arg in func.defaults():
                env[x.arg] = self.default_value(func, func.defaults()[x.arg], st)
            else:
                t = sym(x.arg)
                env[x.arg] = t
                self.declare(t, x.annotation, func.module)
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, sym("*" + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, sym("**" + a.kwarg.arg))
        v, exits = self.call_body(func, env, st, selfterm, cls or func.cls, func.node, None)
        return v

    def declare(self, t, annot, module):
        if annot is None:
            return
        c = self.annot_class(annot, module)
        if c is not None:
            self.decl.setdefault(t, c)

    def annot_class(self, annot, module):
        if isinstance(annot, ast.Constant) and isinstance(annot.value, str):
            try:
                annot = ast.parse(annot.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(annot, ast.Subscript):
            n = module.dotted(annot.value) or ""
            if n.endswith("Optional"):
                return self.annot_class(annot.slice, module)
            return None
        n = module.dotted(annot)
        if n:
            return self.proj.find_class(n)
        return None

    def call_body(self, func, env, st, selfterm, cls, node, closure_fid):
        self.analysed.add(func.qual)
        fid = self.site()
        fr = Frame(fid, func, func.module, cls, selfterm)
        fr.closure_fid = closure_fid
        self.frames.append(fr)
        st.envs[fid] = env
        base_path = st.path
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body, st)
                self.frames.pop()
                return v, []
            is_gen = has_yield(func.node)
            if is_gen:
                fr.yields = mk("new", "list", (), (), self.site())
                st.heap[("c", fr.yields)] = mk("list", ())
            normal, exits = self.block(func.node.body, st)
        except BaseException:
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()
            raise
        self.frames.pop()
        rets = [e for e in exits if e.kind == "return"]
        raises = [e for e in exits if e.kind == "raise"]
        if normal is not None:
            rets.append(Exit("return", normal, NONE))
        for e in raises:
            self.pending_raises.append(e) if self.pending_raises is not None else None
        if not rets:
            return None, exits     # never returns normally
        if fr.yields is not None:
            j = self.join([e.st for e in rets])
            st.become(j)
            val = self.content(fr.yields, st)
            if val.op == "comp":
                val = mk("comp", "gen", *val.a[1:])
            return val, exits
        val = self.combine([(e.st.path, self.retval(e)) for e in rets], len(base_path))
        j = self.join([e.st for e in rets])
        st.become(j)
        return val, exits

    pending_raises = None

    def retval(self, e):
        return e.val

    def combine(self, items, n):
        if len(items) == 1:
            return items[0][1]
        pre = common_prefix([p for p, _ in items])
        n = max(n, len(pre))
        for p, _ in items:
            if len(p) > n:
                c = p[n]
                break
        else:
            return items[-1][1]
        if c.op == "not":
            c = c.a[0]
        tr = [(p, v) for p, v in items if len(p) > n and p[n] is c]
        fl = [(p, v) for p, v in items if len(p) > n and p[n] is not_(c)]
        un = [(p, v) for p, v in items if not (len(p) > n and (p[n] is c or p[n] is not_(c)))]
        if un or not tr or not fl:
            k = next((i for i, x in enumerate(items) if len(x[0]) > n), 0)
            p, v = items[k]
            cc = and_(*p[n:]) if len(p) > n else mk("either", self.site())
            return phi(cc, v, self.combine(items[:k] + items[k + 1:], n))
        return phi(c, self.combine(tr, n + 1), self.combine(fl, n + 1))

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> (normal state or None, exits)"""
        exits = []
        for s in stmts:
            self.budget -= 1
            if self.budget < 0:
                raise AnalysisError("analysis budget exceeded")
            st, ex = self.stmt(s, st)
            exits.extend(ex)
            if st is None:
                return None, exits
        return st, exits

    def stmt(self, s, st):
        saved = self.pending_raises
        self.pending_raises = []
        try:
            r, ex = self.stmt1(s, st)
        except Unreachable:
            r, ex = None, []
        finally:
            pend = self.pending_raises
            self.pending_raises = saved
        return r, list(pend) + ex

    def stmt1(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((type(s).__name__, self.loc(s)))
            return st, []
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st, []
        self.ev(s.value, st)
        return st, []

    def s_Pass(self, s, st):
        return st, []

    s_Import = s_Pass
    s_ImportFrom = s_Pass

    def s_Global(self, s, st):
        self.frames[-1].globals.update(s.names)
        return st, []

    def s_Nonlocal(self, s, st):
        for n in s.names:
            self.frames[-1].nonlocals[n] = True
        return st, []

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st, []

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            self.assign(s.target, v, st, s)
            if v.op not in ("new", "const"):
                self.declare(v, s.annotation, self.frames[-1].module)
        return st, []

    def s_AugAssign(self, s, st):
        cur = self.ev(load(s.target), st)
        v = self.ev(s.value, st)
        cc = self.content(cur, st)
        r = self.binop(s.op, cc, self.content(v, st), st, s)
        self.log("aug", st, s, target=cur, op=type(s.op).__name__, value=v,
                 name=s.target.id if isinstance(s.target, ast.Name) else None)
        if cur.op == "new" and cur.a[0] == "list" and isinstance(s.op, ast.Add):
            st.heap[("c", cur)] = r
            return st, []
        self.assign(s.target, r, st, s, aug=True)
        return st, []

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                i = self.ev(t.slice, st)
                self.log("delitem", st, s, obj=o, idx=i)
                st.heap[("c", o)] = mk("delitem", self.content(o, st), i)
            elif isinstance(t, ast.Name):
                st.envs[self.frames[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                st.heap[("a", o, t.attr)] = UNDEF
        return st, []

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        self.log("return", st, s, value=v, content=self.content(v, st))
        return None, [Exit("return", st, v, s)]

    def s_Raise(self, s, st):
        exc = None
        if s.exc is not None:
            exc = self.ev(s.exc, st)
        self.log("raise", st, s, exc=exc, name=exc_name(exc))
        return None, [Exit("raise", st, exc, s)]

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            return st, []
        bad = st.copy()
        bad.path = extend(bad.path, not_(c))
        self.log("raise", bad, s, exc=mk("ext", "builtins.AssertionError"), name="AssertionError")
        st.path = extend(st.path, c)
        self.refine(st, c)
        if c is FALSE:
            return None, [Exit("raise", bad, mk("ext", "builtins.AssertionError"), s)]
        return st, [Exit("raise", bad, mk("ext", "builtins.AssertionError"), s)]

    def s_Break(self, s, st):
        return None, [Exit("break", st, None, s)]

    def s_Continue(self, s, st):
        return None, [Exit("continue", st, None, s)]

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = Func(f"{fr.func.qual if fr.func else fr.module.name}.<locals>.{s.name}", s, fr.module, fr.cls)
        f.is_local = True
        t = self.mkclosure(f, st)
        st.envs[fr.fid][s.name] = t
        return st, []

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        c = Class(f"{fr.func.qual}.<locals>.{s.name}", s, fr.module)
        self.local_classes[c.qual] = c
        st.envs[fr.fid][s.name] = mk("cls", c.qual)
        return st, []

    local_classes = {}

    def mkclosure(self, f, st):
        fr = self.frames[-1]
        key = (f.qual, id(f.node), fr.fid)
        t = mk("fn", f.qual, key)
        self.closures[t] = (f, fr.fid, fr)
        return t

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        return self.branch(c, lambda a: self.block(s.body, a), lambda b: self.block(s.orelse, b), st)

    def known(self, st, c):
        """Truth value of c implied by the path, if any."""
        if c.op == "const":
            return bool(c.a[0])
        for p in st.path:
            if p is c:
                return True
            if p is not_(c):
                return False
            if p.op == "and" and c in p.a:
                return True
        return None

    def refine(self, st, c):
        """Propagate facts of an assumed condition into the environment."""
        return

    def branch(self, c, fa, fb, st):
        k = self.known(st, c)
        if k is not None:
            return (fa if k else fb)(st)
        if c.op == "or":
            # short-circuit decomposition keeps path atoms simple
            first, rest = c.a[0], or_(*c.a[1:])
            return self.branch(first, fa, lambda b: self.branch(rest, fa, fb, b), st)
        if c.op == "and":
            first, rest = c.a[0], and_(*c.a[1:])
            return self.branch(first, lambda a: self.branch(rest, fa, fb, a), fb, st)
        if c.op == "not":
            return self.branch(c.a[0], fb, fa, st)
        a, b = st.copy(), st
        a.path = extend(a.path, c)
        b.path = extend(b.path, not_(c))
        self.assume_state(a, c, True)
        self.assume_state(b, c, False)
        na, ea = fa(a)
        nb, eb = fb(b)
        return self.join([na, nb]), ea + eb

    def assume_state(self, st, c, val):
        """Simplify phis on c in the environment of the current frame."""
        for fid, env in st.envs.items():
            for k, v in list(env.items()):
                if v.op == "phi" or (v.op not in ("sym", "const", "new", "fn", "cls", "ext") and has_phi_on(v, c)):
                    env[k] = assume(v, c, val)
        for k, v in list(st.heap.items()):
            if has_phi_on(v, c):
                st.heap[k] = assume(v, c, val)
        if c.op == "eq" and val:
            pass

    def s_While(self, s, st):
        return self.loop_while(s, st)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        return self.loop_for(s, it, st)

    s_AsyncFor = s_For

    def s_With(self, s, st):
        entered = []
        for item in s.items:
            cm = self.ev(item.context_expr, st)
            self.log("enter", st, s, obj=cm)
            v = mk("enter", cm) if cm.op not in ("phi",) else mk("enter", cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, s)
            entered.append(cm)
        self.withs = self.withs + tuple(entered)
        try:
            n, ex = self.block(s.body, st)
        finally:
            self.withs = self.withs[: len(self.withs) - len(entered)]
        if n is not None:
            for cm in reversed(entered):
                self.log("exit", n, s, obj=cm)
        return n, ex

    withs = ()
    final = 0
    disjoin = False      # keep what a join learnt from branches that left
    s_AsyncWith = s_With

    def s_Try(self, s, st):
        pre = st.copy()
        rec = ("try", id(s), tuple(self.handler_names(h) for h in s.handlers), bool(s.finalbody))
        saved = self.tries
        self.tries = saved + (rec,)
        neff = len(self.effects)
        n, ex = self.block(s.body, st)
        self.tries = saved
        opaque = self.body_may_raise(s.body)
        out_ex = []
        hstates = []
        raised_in = [e for e in ex if e.kind == "raise"]
        others = [e for e in ex if e.kind != "raise"]
        routed = {i: [] for i in range(len(s.handlers))}
        for e in raised_in:
            nm = exc_name(e.val)
            for i, h in enumerate(s.handlers):
                if self.catches(h, nm):
                    routed[i].append(e.st)
                    break
            else:
                out_ex.append(e)
        if opaque and s.handlers:
            body_calls = [e.term for e in self.effects[neff:] if e.kind == "call"]
            tag = tuple(canon(t) for t in body_calls[:3])
            for i, h in enumerate(s.handlers):
                rc = mk("raised", self.handler_names(h), tag)
                hs = pre.copy()
                # attribute/heap updates of the body may or may not have happened: keep the pre state
                hs.path = extend(pre.path, rc)
                routed[i].append(hs)
                if n is not None:
                    n.path = pre.path + (not_(rc),) + n.path[len(pre.path):]
                for e in others:
                    e.st.path = pre.path + (not_(rc),) + e.st.path[len(pre.path):]
        normal = []
        if n is not None:
            if s.orelse:
                n, ex2 = self.block(s.orelse, n)
                out_ex.extend(ex2)
            if n is not None:
                normal.append(n)
        out_ex.extend(others)
        for i, h in enumerate(s.handlers):
            hdone = []
            for hs in routed[i]:
                fid = self.frames[-1].fid
                if h.name:
                    hs.envs[fid][h.name] = mk("exc", self.handler_names(h))
                hn, hex_ = self.block(h.body, hs)
                out_ex.extend(hex_)
                hdone.append(hn)
                if hn is not None:
                    normal.append(hn)
            if any(hn is not None for hn in hdone):
                self.log("swallow", st, h, tryid=id(s), names=self.handler_names(h))
        j = self.join(normal)
        if s.finalbody:
            self.final += 1
            for e in out_ex:
                if e.st is not None:
                    self.muted += 1
                    fn, _ = self.block(s.finalbody, e.st.copy())
                    self.muted -= 1
                    if fn is not None:
                        e.st = fn
            if j is not None:
                j, ex3 = self.block(s.finalbody, j)
                out_ex.extend(ex3)
            elif True:
                # effects of the finally block still happen
                d = pre.copy()
                self.block(s.finalbody, d)
            self.final -= 1
        return j, out_ex

    s_TryStar = s_Try

    def handler_names(self, h):
        if h.type is None:
            return ("BaseException",)
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            n = self.frames[-1].module.dotted(t) if self.frames else ast.unparse(t)
            out.append((n or ast.unparse(t)).split(".")[-1])
        return tuple(sorted(out))

    def catches(self, h, nm):
        names = self.handler_names(h)
        if "BaseException" in names or "Exception" in names:
            return True
        if nm is None:
            return False
        if nm in names:
            return True
        par = {"NotImplementedError": ["RuntimeError"], "KeyError": ["LookupError"], "IndexError": ["LookupError"],
               "FileNotFoundError": ["OSError", "IOError"], "URLError": ["OSError"], "HTTPError": ["URLError", "OSError"],
               "UnicodeDecodeError": ["ValueError"]}
        if any(p in names for p in par.get(nm, [])):
            return True
        for c in self.proj.all_classes():
            if c.name == nm:
                allb = {b.name for b in c.mro()} | {x.split(".")[-1] for x in c.ext_bases()}
                return bool(allb & set(names))
        return False

    def body_may_raise(self, body):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp)):
                    return True
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    return True
        return False

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)

        def go(i, cur):
            if i >= len(s.cases):
                return cur, []
            case = s.cases[i]
            c = self.pattern(case.pattern, subj, cur)
            if case.guard is not None:
                c = and_(c, self.cond(case.guard, cur))
            return self.branch(c, lambda a: self.block(case.body, a), lambda b: go(i + 1, b), cur)

        return go(0, st)

    def pattern(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return eq(self.content(subj, st), self.ev(p.value, st))
        if isinstance(p, ast.MatchSingleton):
            return isnone(subj) if p.value is None else eq(subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(q, subj, st) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.envs[self.frames[-1].fid][p.name] = subj
                return TRUE
            return self.pattern(p.pattern, subj, st)
        return mk("match", subj, ast.unparse(p))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.nonlocals and fr.closure_fid in st.envs:
                st.envs[fr.closure_fid][t.id] = v
            else:
                st.envs[fr.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.content(v, st)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, mk("rest", c, i), st, node)
                elif star and i > star[0]:
                    self.assign(x, idx(c, const(i - len(t.elts))), st, node)
                else:
                    self.assign(x, self.unpack(c, i, len(t.elts)), st, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev(t.slice, st)
            self.setitem(o, i, v, st, node, aug)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr_(o, t.attr, v, st, node, aug)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, c, i, n):
        if c.op == "phi":
            return phi(c.a[0], self.unpack(c.a[1], i, n), self.unpack(c.a[2], i, n))
        if c.op == "attr" and c.a[1] == "shape":
            return dim(c.a[0], i)
        if c.op == "nonzero":
            return mk("nzidx", c.a[0], i)
        if c.op == "comp" and c.a[0] in ("list", "gen") and len(c.a[2]) == 1 and not c.a[3] and c.a[2][0].op in ("list", "tuple"):
            pass
        return idx(c, const(i))

    def setitem(self, o, i, v, st, node, aug=False):
        cur = self.content(o, st)
        ci, cv = self.content(i, st), self.deep(v, st)
        self.log("store", st, node, obj=o, idx=ci, val=cv, aug=aug, base=cur)
        if cur.op == "dict" and ci.op == "const" and all(k.op == "const" for k, _ in cur.a[0]):
            items = [(k, x) for k, x in cur.a[0] if k is not ci] + [(ci, v)]
            st.heap[("c", o)] = mk("dict", tuple(items))
        elif cur.op == "dict":
            st.heap[("c", o)] = mk("store", cur, ci, v)
        elif cur.op == "list" and is_int(ci) and 0 <= ci.a[0] < len(cur.a[0]):
            l = list(cur.a[0])
            l[ci.a[0]] = v
            st.heap[("c", o)] = mk("list", tuple(l))
        else:
            st.heap[("c", o)] = mk("store", cur, ci, cv)

    def setattr_(self, o, name, v, st, node, aug=False):
        if o.op == "phi" and False:
            pass
        c = self.cls_of(o)
        if c is not None:
            for k in c.mro():
                if name in k.setters:
                    self.call_func(k.setters[name], [o, v], {}, st, node, selfterm=o, cls=c)
                    return
        self.log("setattr", st, node, obj=o, name=name, val=v, content=self.deep(v, st), aug=aug)
        st.heap[("a", o, name)] = v

    # ------------------------------------------------------------ loops
    def iter_elem(self, dom, depth, st):
        """Element term of an iteration over dom -> (element, base domain, zips)."""
        d = dom
        if d.op == "call" and d.a[0].op == "ext" and d.a[0].a[0] in TRANSPARENT_ITER and d.a[1]:
            return self.iter_elem(d.a[1][0], depth, st)
        if d.op == "zip":
            parts = d.a[0]
            if not parts:
                return mk("tuple", ()), d, ()
            e0, base, z = self.iter_elem(parts[0], depth, st)
            p = pos(base, depth)
            out = [e0]
            for x in parts[1:]:
                out.append(self.at_pos(x, p, base, depth, st))
            return mk("tuple", tuple(out)), base, tuple(parts)
        if d.op == "enumerate":
            e, base, z = self.iter_elem(d.a[0], depth, st)
            p = pos(base, depth)
            return mk("tuple", (add(p, d.a[1]), e)), base, z
        if d.op == "items":
            k = elem(d.a[0], depth)
            return mk("tuple", (k, idx(self.content(d.a[0], st), k))), d.a[0], ()
        if d.op == "values":
            k = elem(d.a[0], depth)
            return idx(self.content(d.a[0], st), k), d.a[0], ()
        if d.op == "keys":
            return elem(d.a[0], depth), d.a[0], ()
        c = self.content(d, st)
        if c.op == "comp" and c.a[0] in ("list", "gen") and len(c.a[2]) == 1 and not c.a[3]:
            # iterating a mapped sequence: the element is the mapped element of the source
            src = c.a[2][0]
            old = [x for x in walk(c.a[1]) if x.op in ("elem", "pos") and x.a[0] is src]
            m = {x: mk(x.op, x.a[0], depth) for x in old}
            return subst(c.a[1], m), src, ()
        return elem(c, depth), c, ()

    def at_pos(self, x, p, base, depth, st):
        c = self.content(x, st)
        if c.op == "zip":
            return mk("tuple", tuple(self.at_pos(y, p, base, depth, st) for y in c.a[0]))
        if c.op == "range":
            lo, hi, stp = c.a
            return add(lo, mul(p, stp))
        if c.op == "enumerate":
            return mk("tuple", (add(p, c.a[1]), self.at_pos(c.a[0], p, base, depth, st)))
        return idx(c, p)

    def depth_of(self, dom):
        return sum(1 for l in self.loops if l.dom is dom)

    def literal_items(self, it, st):
        c = self.content(it, st)
        if c.op in ("list", "tuple", "set") and len(c.a[0]) <= self.nonliteral_unroll and not any(x.op == "star" for x in c.a[0]):
            return list(c.a[0])
        if c.op == "range" and all(is_int(x) for x in c.a):
            r = range(*[x.a[0] for x in c.a])
            if len(r) <= 16:
                return [const(i) for i in r]
            return None
        if c.op == "zip":
            ls = [self.literal_items(x, st) for x in c.a[0]]
            if all(l is not None for l in ls) and ls:
                return [mk("tuple", t) for t in zip(*ls)]
            return None
        if c.op == "enumerate":
            l = self.literal_items(c.a[0], st)
            if l is not None and is_int(c.a[1]):
                return [mk("tuple", (const(i + c.a[1].a[0]), x)) for i, x in enumerate(l)]
            return None
        if c.op in ("items", "values", "keys"):
            d = self.content(c.a[0], st)
            if d.op == "dict" and all(k.op == "const" for k, _ in d.a[0]):
                if c.op == "items":
                    return [mk("tuple", (k, v)) for k, v in d.a[0]]
                return [v if c.op == "values" else k for k, v in d.a[0]]
            return None
        if c.op == "dict" and all(k.op == "const" for k, _ in c.a[0]):
            return [k for k, _ in c.a[0]]
        return None

    def loop_for(self, s, it, st):
        lits = self.literal_items(it, st)
        if lits is not None:
            return self.unroll(s, lits, st)
        c = self.content(it, st)
        if c.op == "condlist" and c.a[0] != "dict" and len(c.a[1]) <= 8:
            return self.unroll(s, list(c.a[1]), st, True)
        if c.op == "phi" and self.literal_tree(c, st):
            return self.branch(c.a[0], lambda a: self.loop_for(s, c.a[1], a), lambda b: self.loop_for(s, c.a[2], b), st)
        c0 = c
        depth = 0
        e, base, zips = self.iter_elem(c0, 0, st)
        depth = self.depth_of(base)
        if depth:
            e, base, zips = self.iter_elem(c0, depth, st)
        return self.run_loop(s, st, base, depth, e, s.target, zips, "for")

    def literal_tree(self, c, st, budget=8):
        """phi over lists whose items are all known (at most 8 of them)."""
        todo, n = [c], 0
        while todo:
            x = self.content(todo.pop(), st)
            if x.op == "phi":
                todo += [x.a[1], x.a[2]]
            else:
                n += 1
                if n > budget or self.literal_items(x, st) is None:
                    return False
        return True

    def unroll(self, s, lits, st, guarded=False):
        exits = []
        done = []
        for x in lits:
            skip = None
            if guarded:
                g, x = x
                k = self.known(st, g)
                if k is False:
                    continue
                if k is None:
                    skip = st.copy()
                    for a in (g.a if g.op == "and" else (g,)):
                        st.path = extend(st.path, a)
                    skip.path = extend(skip.path, not_(g))
                    self.assume_state(st, g, True)
                    self.assume_state(skip, g, False)
            self.assign(s.target, x, st, s)
            n, ex = self.block(s.body, st)
            nxt = [n] if skip is None else [n, skip]
            for e in ex:
                if e.kind == "continue":
                    nxt.append(e.st)
                elif e.kind == "break":
                    done.append(e.st)
                else:
                    exits.append(e)
            st = self.join(nxt)
            if st is None:
                break
        if st is not None and s.orelse:
            st, ex = self.block(s.orelse, st)
            exits.extend(ex)
        return self.join(done + [st]), exits

    def run_loop(self, s, st, base, depth, e, target, zips, kind, cond=None, indvar=None):
        fid = self.frames[-1].fid
        loop = Loop(base, depth, kind, self.loc(s))
        loop.zips = zips
        tag = base if base is not None else mk("while", self.site())
        names = assigned_names(s.body)
        if target is not None:
            names -= assigned_names_target(target)
        # phase 1: discover changed heap cells
        pre = st.copy()
        changed_heap = {}
        heads = {}
        counters = set()        # names stepping by one per iteration: the position in the sequence

        def enter(cur, heap_keys):
            for n in sorted(names):
                init = pre.envs[fid].get(n, UNDEF)
                if init is UNDEF and n not in pre.envs[fid]:
                    continue
                if indvar is not None and n == indvar:
                    continue
                h = mk("mu", tag, depth, n, init)
                heads[("n", n)] = (h, init)
                cur.envs[fid][n] = h
                if n in counters:
                    cur.envs[fid][n] = add(init, pos(base, depth))
                    continue
                if init in self.types:
                    self.types.setdefault(h, self.types[init])
                if init.op == "new":
                    self.mu_new[h] = init
            for k in heap_keys:
                init = pre.heap.get(k)
                if init is None:
                    init = self.heap_default(k, pre)
                h = mk("mu", tag, depth, k, init)
                heads[k] = (h, init)
                cur.heap[k] = h
            if target is not None:
                self.assign(target, e, cur, s)
            elif indvar is not None:
                cur.envs[fid][indvar] = e

        # the body is analysed until no further heap cell turns out to be loop-carried;
        # what earlier rounds logged is discarded
        heap_keys = []
        mark = (len(self.effects), len(self.all_loops), len(self.unknown))
        for _round in range(6):
            del self.effects[mark[0]:], self.all_loops[mark[1]:], self.unknown[mark[2]:]
            cur = pre.copy()
            heads.clear()
            self.loops.append(loop)
            if not self.muted:
                self.all_loops.append(loop)
            try:
                enter(cur, heap_keys)
                loop.heads = dict(heads)
                n0 = cur.heap.copy()
                if cond is not None:
                    loop.cond = self.cond(cond, cur)
                lpath = cur.path
                nrm, ex = self.block(s.body, cur)
            finally:
                self.loops.pop()
            if _round == 5:
                break
            ends = [nrm] + [x.st for x in ex if x.kind in ("continue", "break")]
            new = set()
            for stt in ends:
                if stt is None:
                    continue
                for k, v in stt.heap.items():
                    known_before = not self.created_inside(k, pre, base)
                    if n0.get(k) is not v and known_before and k not in heap_keys \
                            and not same_under(n0.get(k), v, stt.path):
                        new.add(k)
            if not new:
                if self.count_loops and kind == "for" and target is not None and base is not None and not counters:
                    tail = self.join([x.copy() for x in [nrm] + [x.st for x in ex if x.kind == "continue"] if x is not None])
                    if tail is not None:
                        counters.update(k[1] for k, (h, init) in heads.items()
                                        if k[0] == "n" and init is not UNDEF and tail.envs[fid].get(k[1]) is add(h, ONE))
                    if counters:
                        continue
                break
            heap_keys += sorted(new, key=lambda k: pp(k[1]) + str(k[2:]))
        exits = [x for x in ex if x.kind in ("return", "raise")]
        breaks = [x.st for x in ex if x.kind == "break"]
        loop.breaks = [x.path[len(lpath):] for x in breaks]
        loop.break_states = breaks
        loop.returns = [x.st.path[len(lpath):] for x in exits if x.kind == "return"]
        ends = [nrm] + [x.st for x in ex if x.kind == "continue"]
        end = self.join([x for x in ends if x is not None])
        out = pre.copy()
        out.path = pre.path
        if end is not None:
            loop.end = end
            for key_, (h, init) in heads.items():
                if key_[0] == "n":
                    nxt = end.envs[fid].get(key_[1], UNDEF)
                    if key_[1] in counters:
                        nxt = add(h, ONE)
                else:
                    nxt = end.heap.get(key_)
                    if nxt is None:
                        nxt = h
                loop.mus[h] = (init, nxt)
            for key_, (h, init) in heads.items():
                nxt = loop.mus[h][1]
                v = self.loop_exit_value(h, init, nxt, base, depth, loop)
                if key_[0] == "n":
                    out.envs[fid][key_[1]] = v
                    if h in self.mu_new and nxt is h:
                        out.envs[fid][key_[1]] = init
                else:
                    out.heap[key_] = v
            # names first bound in the loop keep an opaque last value
            for n in names | (assigned_names_target(target) if target is not None else set()):
                if ("n", n) not in heads and n in end.envs[fid]:
                    out.envs[fid][n] = mk("last", end.envs[fid][n], tag)
            for k, v in end.heap.items():
                if k not in out.heap and k not in heads:
                    out.heap[k] = v
        else:
            for key_, (h, init) in heads.items():
                v = init
                if breaks:
                    b = self.join(breaks)
                    v = mk("loopout", tag, init, h)
                if key_[0] == "n":
                    out.envs[fid][key_[1]] = v
                else:
                    out.heap[key_] = v
        if breaks:
            # the state after a break: loop-carried values may be those at the break
            for b in breaks:
                for key_, (h, init) in heads.items():
                    if key_[0] == "n":
                        bv = b.envs[fid].get(key_[1], UNDEF)
                        ov = out.envs[fid].get(key_[1], UNDEF)
                        if bv is not h or (ov is not init):
                            nv = mk("loopout", tag, ov, bv) if ov is not bv else ov
                            if bv is h and loop.mus.get(h, (None, h))[1] is h:
                                nv = init
                            out.envs[fid][key_[1]] = nv
                    else:
                        bv = b.heap.get(key_)
                        ov = out.heap.get(key_)
                        if bv is not h and bv is not None and bv is not ov:
                            out.heap[key_] = mk("loopout", tag, ov, bv)
                for k, v in b.heap.items():
                    if k not in out.heap:
                        out.heap[k] = v
                for n in names:
                    if ("n", n) not in heads and n in b.envs[fid] and n not in out.envs[fid]:
                        out.envs[fid][n] = mk("last", b.envs[fid][n], tag)
        for x in exits:
            pass
        if s.orelse:
            n2, ex2 = self.block(s.orelse, out)
            return n2, exits + ex2
        return out, exits

    mu_new = {}
    count_loops = True

    def created_inside(self, k, pre, base=None):
        """Heap cell of an object that belongs to one iteration only."""
        mark = self.site_mark(pre)
        for t in walk(k[1]):
            if t.op in ("new", "call") and isinstance(t.a[-1], int) and t.a[-1] > mark:
                return True
            if t.op == "conv" and t.a[0] in ("copy", "toarray") and isinstance(t.a[-1], int) and t.a[-1] > mark:
                return True
            if base is not None and t.op in ("elem", "pos") and (t.a[0] is base or (base.op == "range" and t.a[0].op == "range" and t is range_elem(base, t.a[1]))):
                return True
        return False

    def site_mark(self, pre):
        hit = getattr(self, "_mark", None)
        if hit is not None and hit[0] is pre:
            return hit[1]
        m = 0
        for env in pre.envs.values():
            for v in env.values():
                m = max(m, max_site(v))
        for k, v in pre.heap.items():
            m = max(m, max_site(k[1]), max_site(v))
        self._mark = (pre, m)
        return m

    def loop_exit_value(self, h, init, nxt, base, depth, loop):
        if nxt is h:
            return init
        r = self.collect(h, init, nxt, base, depth)
        if r is not None and not loop.breaks:
            return r
        if not contains(nxt, h) and not loop.breaks and nxt.op == "const":
            return mk("loopout", base if base is not None else mk("while", 0), init, nxt)
        return mk("loopout", base if base is not None else mk("while", 0), init, nxt)

    def collect(self, h, init, nxt, base, depth):
        """Collecting loops become comprehensions."""
        if base is None:
            return None
        # conditional append: phi(c, append(h, v), h) / nested
        conds = []
        x = nxt
        while x.op == "phi":
            c, a, b = x.a
            if b is h:
                conds.append(c)
                x = a
            elif a is h:
                conds.append(not_(c))
                x = b
            else:
                break
        ini = init
        dom0 = self.reset_depth(base)
        if x.op == "append" and x.a[0] is h and not contains(x.a[1], h):
            c = mk("comp", "list", x.a[1], (base,), tuple(conds))
            if not conds and x.a[1] is elem(base, depth):
                c = mk("conv", "list", base)
            if ini.op == "list" and not ini.a[0]:
                return c
            return mk("concat", (ini, c))
        if x.op == "concat" and x.a[0][0] is h and not any(contains(y, h) for y in x.a[0][1:]):
            inner = x.a[0][1] if len(x.a[0]) == 2 else mk("concat", x.a[0][1:])
            if inner.op == "comp":
                c = mk("comp", "list", inner.a[1], (base,) + inner.a[2], tuple(conds) + inner.a[3])
            else:
                c = mk("comp", "list", elem(inner, 0), (base, inner), tuple(conds))
            if ini.op == "list" and not ini.a[0]:
                return c
            return mk("concat", (ini, c))
        if x.op == "store" and x.a[0] is h and x.a[1] is elem(base, depth) and x.a[2] is idx(base, x.a[1]):
            # copying one mapping into another, possibly only where absent
            absent = not_(mk("in", x.a[1], h))
            inv = [c for c in conds if not contains(c, h) and not contains(c, x.a[1])]
            rest = [c for c in conds if c not in inv]
            r = None
            if not rest:
                r = mk("dictmerge", ini, base)
            elif rest == [absent]:
                r = mk("dictmerge", base, ini)
            if r is not None:
                return phi(and_(*inv), r, ini) if inv else r
        if x.op == "store" and x.a[0] is h and ini.op == "dict" and not contains(x.a[1], h) and not contains(x.a[2], h):
            c = mk("comp", "dict", mk("tuple", (x.a[1], x.a[2])), (base,), tuple(conds))
            if not ini.a[0]:
                return c
            return mk("dictmerge", ini, c)
        if x.op == "setadd" and x.a[0] is h and not contains(x.a[1], h):
            c = mk("comp", "set", x.a[1], (base,), tuple(conds))
            if ini.op == "set" and not ini.a[0]:
                return c
        if x.op == "lin":
            d = sub(x, h)
            if not contains(d, h):
                return add(init, mk("sumover", d, base, tuple(conds))) if not conds else mk("loopout", base, init, nxt)
        return None

    def reset_depth(self, b):
        return b

    def loop_while(self, s, st):
        fid = self.frames[-1].fid
        # induction variable recognition
        names = assigned_names(s.body)
        trial = st.copy()
        self.muted += 1
        fake = Loop(None, 0, "while", self.loc(s))
        self.loops.append(fake)
        ind = None
        try:
            heads = {}
            for n in sorted(names):
                if n in trial.envs[fid]:
                    h = mk("mu", mk("whiletrial", s.lineno), 0, n, trial.envs[fid][n])
                    heads[h] = n
                    trial.envs[fid][n] = h
            c = self.cond(s.test, trial)
            p0 = len(trial.path)
            nrm, ex = self.block(s.body, trial)
            conts = [x.st for x in ex if x.kind == "continue"]
            for atom in (c.a if c.op == "and" else (c,)):
                nn = atom
                if nn.op == "not" and nn.a[0].op == "eq":
                    nn = None
                if nn is not None and nn.op in ("lt",):
                    l, r = nn.a
                    cl, dl = lin_parts(sub(l, r))
                    cand = [t for t in dl if t in heads and dl[t] == 1]
                    if len(cand) == 1 and c is atom:
                        v = cand[0]
                        bound = neg(mk_lin(cl, {t: k for t, k in dl.items() if t is not v}))
                        if not any(x in heads for x in walk(bound)):
                            ends = [nrm] + conts
                            steps = set()
                            for e in ends:
                                if e is not None:
                                    nv = e.envs[fid].get(heads[v])
                                    if nv.op == "min" and bound in nv.a[0] and len(nv.a[0]) == 2:
                                        # clipped at the bound: the loop ends there anyway
                                        nv = next(y for y in nv.a[0] if y is not bound)
                                    steps.add(sub(nv, v))
                            if len(steps) == 1:
                                step = steps.pop()
                                if not any(x in heads for x in walk(step)) and not is_const(step, 0):
                                    ind = (heads[v], bound, step)
        finally:
            self.loops.pop()
            self.muted -= 1
        if ind is not None:
            name, bound, step = ind
            init = st.envs[fid][name]
            dom = rng(init, bound, step)
            depth = self.depth_of(dom)
            e = elem(dom, depth)
            out, ex = self.run_loop(s, st, dom, depth, e, None, (), "while", indvar=name)
            if out is not None:
                out.envs[fid][name] = mk("last", e, dom)
            return out, ex
        return self.run_loop(s, st, None, 0, None, None, (), "while", cond=s.test)

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        return self.truth(self.ev(e, st), st)

    def truth(self, v, st=None):
        if is_bool(v):
            return v
        if v.op == "const":
            return const(bool(v.a[0]))
        if st is not None:
            c = self.content(v, st)
        else:
            c = v
        if c.op in ("list", "tuple", "dict", "set") and not any(isinstance(x, T) and x.op == "star" for x in c.a[0]):
            return const(bool(c.a[0]))
        if c.op == "phi":
            return phi(c.a[0], self.truth(c.a[1]), self.truth(c.a[2]))
        if c.op == "condlist":
            return or_(*[x for x, _ in c.a[1]])
        if c.op in ("fn", "cls"):
            return TRUE
        if c.op == "len":
            return mk("truth", c.a[0])
        return mk("truth", c)

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((type(e).__name__, self.loc(e)))
            return mk("unk", type(e).__name__, self.site())
        return m(e, st)

    def evc(self, e, st):
        return self.content(self.ev(e, st), st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def lookup(self, name, st):
        fr = self.frames[-1]
        env = st.envs.get(fr.fid)
        if env is not None and name in env:
            return env[name]
        # closures
        cf = getattr(fr, "closure_fid", None)
        seen = 0
        f = fr
        while cf is not None and seen < 10:
            env = st.envs.get(cf)
            if env is not None and name in env:
                return env[name]
            pf = self.frame_info.get(cf)
            cf = getattr(pf, "closure_fid", None) if pf else None
            seen += 1
        return self.module_name(fr.module, name, st)

    frame_info = {}

    def module_name(self, module, name, st):
        if name in module.classes:
            return mk("cls", module.classes[name].qual)
        if name in module.funcs:
            return mk("fn", module.funcs[name].qual)
        if name in module.assigns:
            return self.module_value(module, name, st)
        if name in module.imports:
            return self.dotted_term(module.imports[name], st)
        if name in PURE_BUILTINS or name in BUILTIN_EXC or hasattr(__import__("builtins"), name):
            return mk("ext", "builtins." + name)
        if name == "__name__":
            return const(module.name)
        return mk("ext", "?" + name)

    def module_value(self, module, name, st):
        k = (module.name, name)
        if k not in self.modcache:
            self.modcache[k] = mk("ext", f"{module.name}.{name}")
            fr = Frame(self.site(), None, module, None, None)
            fr.closure_fid = None
            self.frames.append(fr)
            self.muted += 1
            s2 = State()
            s2.envs[fr.fid] = {}
            sl, self.loops = self.loops, []
            try:
                v = self.ev(module.assigns[name], s2)
                v = self.deep(v, s2)
            finally:
                self.loops = sl
                self.muted -= 1
                self.frames.pop()
            self.modcache[k] = v
            self.const_heap.update({kk: x for kk, x in s2.heap.items() if kk[0] == "a"})
        for kk, v in self.const_heap.items():
            st.heap.setdefault(kk, v)
        return self.modcache[k]

    def dotted_term(self, dotted, st):
        q = self.proj.canonical(dotted)
        if self.proj.modules.get(q):
            return mk("mod", q)
        c = self.proj.find_class(q)
        if c is not None:
            return mk("cls", c.qual)
        f = self.proj.find_func(q)
        if f is not None:
            return mk("fn", f.qual)
        mn, _, n = q.rpartition(".")
        m = self.proj.modules.get(mn)
        if m is not None and n in m.assigns:
            return self.module_value(m, n, st)
        return ext_term(q)

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr_(o, e.attr, st, e)

    def cls_of(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == "new":
            c = self.proj.find_class(t.a[0]) or self.local_classes.get(t.a[0])
            return c
        if t.op == "mu":
            return self.cls_of(t.a[3])
        if t.op == "loopout":
            return self.cls_of(t.a[1])
        return None

    def decl_of(self, t):
        c = self.cls_of(t)
        if c is not None:
            return c
        if t in self.decl:
            return self.decl[t]
        if t.op == "attr":
            oc = self.decl_of(t.a[0])
            if oc is not None:
                an = oc.find_annot(t.a[1])
                if an is not None:
                    return self.annot_class(an[1], an[0].module)
                p = oc.find(t.a[1])
                if p is not None and p.is_property and p.node.returns is not None:
                    return self.annot_class(p.node.returns, p.module)
        if t.op == "call":
            f = t.a[0]
            if f.op == "attr":
                oc = self.decl_of(f.a[0])
                if oc is not None:
                    m = oc.find(f.a[1])
                    if m is not None and m.node.returns is not None:
                        return self.annot_class(m.node.returns, m.module)
            if f.op == "fn":
                ff = self.proj.find_func(f.a[0])
                if ff is not None and ff.node.returns is not None:
                    return self.annot_class(ff.node.returns, ff.module)
        if t.op == "phi":
            a, b = self.decl_of(t.a[1]), self.decl_of(t.a[2])
            if a is b or b is None:
                return a
            return b if a is None else None
        return None

    def getattr_(self, o, name, st, node):
        k = ("a", o, name)
        if k in st.heap:
            return st.heap[k]
        if o.op == "phi":
            return phi(o.a[0], self.getattr_(o.a[1], name, st, node), self.getattr_(o.a[2], name, st, node))
        if o.op == "mod":
            return self.dotted_term(f"{o.a[0]}.{name}", st)
        if o.op == "ext":
            if o.a[0].startswith("?"):
                return mk("attr", o, name)
            return ext_term(f"{o.a[0]}.{name}")
        if o.op == "super":
            cls, cur, selft = self.supers[o]
            mro = cls.mro()
            i = mro.index(cur) + 1 if cur in mro else 1
            for c in mro[i:]:
                if name in c.methods:
                    return mk("bound", c.methods[name].qual, selft, cls.qual)
            return mk("attr", o, name)
        if o.op == "cls":
            c = self.proj.find_class(o.a[0]) or self.local_classes.get(o.a[0])
            if c is not None:
                if self.is_enum(c) and c.find_attr(name):
                    return mk("enum", c.qual, name)
                m = c.find(name)
                if m is not None:
                    if m.is_classmethod:
                        return mk("bound", m.qual, o, c.qual)
                    return mk("fn", m.qual)
                a = c.find_attr(name)
                if a is not None:
                    return self.class_value(a[0], name, a[1], st)
                if name in c.inner:
                    return mk("cls", c.inner[name].qual)
            if name == "__name__":
                return const(o.a[0].rsplit(".", 1)[-1])
            return mk("attr", o, name)
        if o.op == "clsvar":  # cls of an unknown subclass
            c = self.types.get(o)
        c = self.cls_of(o)
        if c is not None:
            if name == "__class__":
                return mk("cls", c.qual)
            m = c.find(name)
            if m is not None:
                if m.is_property and not m.is_stub:
                    return self.call_func(m, [o], {}, st, node, selfterm=o, cls=c)
                if not m.is_stub:
                    if m.is_static:
                        return mk("fn", m.qual)
                    return mk("bound", m.qual, mk("cls", c.qual) if m.is_classmethod else o, c.qual)
                if m.is_property:
                    return mk("attr", o, name)
                return mk("attr", o, name)
            a = c.find_attr(name)
            if a is not None and not c.module.is_stub:
                return self.class_value(a[0], name, a[1], st)
        if name == "__name__" and o.op == "attr" and o.a[1] == "__class__":
            return mk("attr", o, name)
        if o.op == "new" and name in LIST_MUT:
            return mk("attr", o, name)         # a bound mutator keeps the identity of its object
        co = self.content(o, st)
        if o.op == "enum" and name == "name":
            return const(o.a[1])
        if name == "T":
            return transpose(co)
        if name == "name" and co.op == "idx" and co.a[0].op == "cls":
            return co.a[1]         # Enum[x].name is x
        if name == "data" and o.op == "conv":
            x = o
            while x.op == "conv" and x.a[0] in ("astype", "csr", "csc", "copy", "tocsr", "tocsc", "csr_matrix"):
                x = x.a[1]
                if ("a", x, "data") in st.heap:
                    return st.heap[("a", x, "data")]
            if x.op == "phi" and any(("a", y, "data") in st.heap for y in (x.a[1], x.a[2])):
                return phi(x.a[0], self.getattr_(mk_conv_like(o, x.a[1]), name, st, node), self.getattr_(mk_conv_like(o, x.a[2]), name, st, node))
        if name == "data" and co.op == "dup":
            return mk("attr", co, name)
        return mk("attr", co, name)

    def is_enum(self, c):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag") for b in c.ext_bases())

    def class_value(self, c, name, node, st):
        k = (c.qual, name)
        if k not in self.modcache:
            self.modcache[k] = mk("attr", mk("cls", c.qual), name)
            fr = Frame(self.site(), None, c.module, None, None)
            fr.closure_fid = None
            self.frames.append(fr)
            self.muted += 1
            s2 = State()
            s2.envs[fr.fid] = {n: mk("attr", mk("cls", c.qual), n) for n in c.attrs if n != name}
            sl, self.loops = self.loops, []
            try:
                v = self.deep(self.ev(node, s2), s2)
            finally:
                self.loops = sl
                self.muted -= 1
                self.frames.pop()
            self.modcache[k] = v
            self.const_heap.update(s2.heap)
        for kk, v in self.const_heap.items():
            st.heap.setdefault(kk, v)
        return self.modcache[k]


    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        i = self.ev(e.slice, st)
        return self.subscript(o, i, st, e)

    def subscript(self, o, i, st, node):
        co = self.content(o, st)
        ci = self.content(i, st)
        if co.op in ("cls",) or (co.op == "ext" and co.a[0].startswith("typing")):
            c = self.proj.find_class(co.a[0]) if co.op == "cls" else None
            if c is not None and self.is_enum(c):
                if ci.op == "const" and isinstance(ci.a[0], str):
                    return mk("enum", c.qual, ci.a[0])
                self.log("enumlookup", st, node, cls=c, key=ci)
                return mk("idx", co, ci)
            return co
        r = index(co, ci)
        self.log("getitem", st, node, obj=o, idx=ci, base=co, val=r)
        return r

    def e_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.evc(x, st)
        return mkslice(f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        return mk("tuple", tuple(self.seq(e.elts, st)))

    def seq(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.evc(x.value, st)
                if v.op in ("tuple", "list"):
                    out.extend(v.a[0])
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(x, st))
        return out

    def newobj(self, kind, content, st):
        t = mk("new", kind, (), (), self.site())
        st.heap[("c", t)] = content
        return t

    def e_List(self, e, st):
        return self.newobj("list", mk("list", tuple(self.seq(e.elts, st))), st)

    def e_Set(self, e, st):
        return self.newobj("set", mk("set", tuple(self.seq(e.elts, st))), st)

    def e_Dict(self, e, st):
        items = []
        cur = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.evc(v, st)
                if d.op == "dict" and cur is None:
                    items = merge_items(items, d.a[0])
                else:
                    base = mk("dict", tuple(items)) if cur is None else (mk("dictmerge", cur, mk("dict", tuple(items))) if items else cur)
                    if cur is None and not items:
                        cur = mk("dictmerge", mk("dict", ()), d)
                    else:
                        cur = mk("dictmerge", base, d)
                    items = []
            else:
                items = merge_items(items, ((self.evc(k, st), self.ev(v, st)),))
        if cur is not None:
            if items:
                cur = mk("dictmerge", cur, mk("dict", tuple(items)))
            return self.newobj("dict", cur, st)
        return self.newobj("dict", mk("dict", tuple(items)), st)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.evc(v.value, st))
        return fstr(parts)

    def e_FormattedValue(self, e, st):
        return fstr([self.evc(e.value, st)])

    def e_UnaryOp(self, e, st):
        v = self.evc(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            if v is INF:
                return NEGINF
            if v is NEGINF:
                return INF
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, e, st):
        a = self.evc(e.left, st)
        b = self.evc(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        if isinstance(op, ast.Add):
            if is_seq(a) or is_seq(b):
                if a.op == "list" and b.op == "list":
                    return self.newobj("list", mk("list", a.a[0] + b.a[0]), st)
                if a.op == "tuple" and b.op == "tuple":
                    return mk("tuple", a.a[0] + b.a[0])
                if is_str(a) or is_str(b):
                    return fstr([a, b])
                return mk("concat", flat_concat(a) + flat_concat(self.deep(b, st)))
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            if a.op in ("list", "tuple") or b.op in ("list", "tuple"):
                l, n = (a, b) if a.op in ("list", "tuple") else (b, a)
                if len(l.a[0]) == 1:
                    return mk("comp", "list", l.a[0][0], (rng(ZERO, n, ONE),), ())
                return mk("repeat", l, n)
            return mul(a, b)
        if isinstance(op, ast.Div):
            if is_num(b) and b.a[0] not in (0,):
                if is_num(a):
                    return const(a.a[0] / b.a[0])
            return mk("div", a, b)
        if isinstance(op, ast.FloorDiv):
            return mk("floordiv", a, b)
        if isinstance(op, ast.Mod):
            if is_str(a):
                return mk("fmt", a, b)
            return mk("mod_", a, b)
        if isinstance(op, ast.Pow):
            return mk("pow", a, b)
        if isinstance(op, ast.MatMult):
            return matmul(a, b)
        return mk("binop", type(op).__name__, a, b)

    def e_BoolOp(self, e, st):
        # value semantics with short-circuit effects
        v = self.ev(e.values[0], st)
        for x in e.values[1:]:
            c = self.truth(v, st)
            k = self.known(st, c)
            isand = isinstance(e.op, ast.And)
            if k is None:
                s2 = st.copy()
                s2.path = extend(s2.path, c if isand else not_(c))
                w = self.ev(x, s2)
                if is_bool(c) and (is_bool(self.truth(w, s2))):
                    tw = self.truth(w, s2)
                    nv = and_(c, tw) if isand else or_(c, tw)
                    if not (is_bool(v) or v.op == "const") or not (is_bool(w)):
                        nv = phi(c, w, v) if isand else phi(c, v, w)
                        if is_bool(v):
                            nv = phi(c, w, v) if isand else phi(c, v, w)
                else:
                    nv = phi(c, w, v) if isand else phi(c, v, w)
                s3 = st.copy()
                s3.path = extend(s3.path, not_(c) if isand else c)
                j = self.join([s2, s3])
                st.become(j)
                v = nv
            elif k == isand:
                v = self.ev(x, st)
            else:
                return v
        return v

    def e_Compare(self, e, st):
        l = self.evc(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.evc(r, st)
            out.append(self.compare(op, l, rv, st))
            l = rv
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        n = type(op).__name__
        if n == "Eq":
            return self.eq2(a, b)
        if n == "NotEq":
            return not_(self.eq2(a, b))
        if n == "Lt":
            return lt(a, b)
        if n == "LtE":
            return le(a, b)
        if n == "Gt":
            return lt(b, a)
        if n == "GtE":
            return le(b, a)
        if n in ("Is", "IsNot"):
            if b is NONE:
                r = isnone(a)
            elif a is NONE:
                r = isnone(b)
            elif a.op in ("const", "enum", "cls") and b.op in ("const", "enum", "cls"):
                r = const(a is b)
            else:
                r = eq(a, b)
            return r if n == "Is" else not_(r)
        if n in ("In", "NotIn"):
            if b.op == "keys":
                b = b.a[0]
            if b.op in ("list", "tuple", "set") and a.op == "const" and all(x.op == "const" for x in b.a[0]):
                r = const(any(x is a for x in b.a[0]))
            elif b.op in ("list", "tuple", "set") and all(x.op in ("const", "enum", "ext", "call", "attr") for x in b.a[0]) and b.a[0]:
                r = or_(*[eq(a, x) for x in b.a[0]])
            elif b.op == "dict" and a.op == "const" and all(k.op == "const" for k, _ in b.a[0]):
                r = const(any(k is a for k, _ in b.a[0]))
            else:
                r = mk("in", a, b)
            return r if n == "In" else not_(r)
        return mk("cmp", n, a, b)

    def eq2(self, a, b):
        # shape tuples compare componentwise
        ta, tb = shape_parts(a), shape_parts(b)
        if ta is not None and tb is not None and len(ta) == len(tb):
            return and_(*[eq(x, y) for x, y in zip(ta, tb)])
        if ta is not None and b.op == "attr" and b.a[1] == "shape":
            return and_(*[eq(x, dim(b.a[0], i)) for i, x in enumerate(ta)])
        if tb is not None and a.op == "attr" and a.a[1] == "shape":
            return and_(*[eq(x, dim(a.a[0], i)) for i, x in enumerate(tb)])
        if a.op == "attr" and b.op == "attr" and a.a[1] == "shape" and b.a[1] == "shape":
            return and_(*[eq(dim(a.a[0], i), dim(b.a[0], i)) for i in (0, 1)])
        if a.op == "enum" and b.op == "enum":
            return const(a is b)
        return eq(a, b)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        k = self.known(st, c)
        if k is not None:
            return self.ev(e.body if k else e.orelse, st)
        a = st.copy()
        b = st.copy()
        a.path = extend(a.path, c)
        b.path = extend(b.path, not_(c))
        self.assume_state(a, c, True)
        self.assume_state(b, c, False)
        va = vb = None
        try:
            va = self.ev(e.body, a)
        except Unreachable:
            a = None
        try:
            vb = self.ev(e.orelse, b)
        except Unreachable:
            b = None
        if a is None and b is None:
            raise Unreachable()
        st.become(self.join([a, b]))
        if a is None:
            return vb
        if b is None:
            return va
        return phi(c, va, vb)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Starred(self, e, st):
        return mk("star", self.evc(e.value, st))

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        f = Func(f"{fr.func.qual if fr.func else fr.module.name}.<lambda>", e, fr.module, fr.cls)
        f.is_local = True
        return self.mkclosure(f, st)

    def e_Yield(self, e, st):
        v = NONE if e.value is None else self.ev(e.value, st)
        y = self.frames[-1].yields
        self.log("yield", st, e, value=self.deep(v, st))
        if y is not None:
            st.heap[("c", y)] = append_term(self.content(y, st), self.deep(v, st))
        return mk("sent", self.site())

    def e_YieldFrom(self, e, st):
        v = self.evc(e.value, st)
        y = self.frames[-1].yields
        if y is not None:
            st.heap[("c", y)] = mk("concat", flat_concat(self.content(y, st)) + flat_concat(v))
        return NONE

    def e_ListComp(self, e, st):
        return self.comp("list", e.elt, e.generators, st, e)

    def e_GeneratorExp(self, e, st):
        return self.comp("gen", e.elt, e.generators, st, e)

    def e_SetComp(self, e, st):
        return self.comp("set", e.elt, e.generators, st, e)

    def e_DictComp(self, e, st):
        return self.comp("dict", (e.key, e.value), e.generators, st, e)

    def comp(self, kind, elt, gens, st, node):
        fr = self.frames[-1]
        fid = fr.fid
        saved = dict(st.envs[fid])
        nl = len(self.loops)
        try:
            lit = None
            if len(gens) == 1:
                it = self.ev(gens[0].iter, st)
                lit = self.literal_items(it, st)
                if lit is not None:
                    lit = [(TRUE, x) for x in lit]
                else:
                    c0 = self.content(it, st)
                    if c0.op == "condlist" and c0.a[0] != "dict":
                        lit = list(c0.a[1])
            if lit is not None:
                out = []
                ok = True
                for g0, x in lit:
                    self.assign(gens[0].target, x, st, node)
                    cs = [g0] + [self.cond(f, st) for f in gens[0].ifs]
                    c = and_(*cs)
                    if c is FALSE:
                        continue
                    v = self.comp_elt(kind, elt, st)
                    if c is not TRUE:
                        out.append((c, v))
                    else:
                        out.append((TRUE, v))
                if all(c is TRUE for c, _ in out):
                    vs = [v for _, v in out]
                    if kind == "dict":
                        return self.newobj("dict", mk("dict", tuple(merge_items([], [(v.a[0][0], v.a[0][1]) for v in vs]))), st)
                    if kind == "set":
                        return self.newobj("set", mk("set", tuple(vs)), st)
                    if kind == "gen":
                        return mk("list", tuple(vs))
                    return self.newobj("list", mk("list", tuple(vs)), st)
                return self.newobj(kind if kind != "gen" else "list", mk("condlist", kind, tuple(out)), st)
            doms, conds = [], []
            for i, g in enumerate(gens):
                if not (i == 0 and len(gens) == 1):
                    it = self.ev(g.iter, st)
                c0 = self.content(it, st)
                e0, base, zips = self.iter_elem(c0, 0, st)
                depth = self.depth_of(base)
                if depth:
                    e0, base, zips = self.iter_elem(c0, depth, st)
                extra = ()
                if c0.op == "comp" and c0.a[0] in ("list", "gen") and c0.a[3]:
                    pass
                loop = Loop(base, depth, "comp", self.loc(node))
                loop.zips = zips
                self.loops.append(loop)
                if not self.muted:
                    self.all_loops.append(loop)
                self.assign(g.target, e0, st, node)
                doms.append(base)
                for f in g.ifs:
                    conds.append(self.cond(f, st))
            p0 = st.path
            for c in conds:
                st.path = extend(st.path, c)
            v = self.comp_elt(kind, elt, st)
            st.path = p0
            v = self.deep(v, st)
            t = mk("comp", kind, v, tuple(doms), tuple(conds))
            if kind == "list" and len(gens) == 1 and not conds and v is elem(doms[0], self.loops[-1].depth):
                t = mk("conv", "list", doms[0])
            if kind == "gen":
                return t
            return self.newobj(kind, t, st)
        finally:
            del self.loops[nl:]
            st.envs[fid] = saved if fid in st.envs else saved

    def comp_elt(self, kind, elt, st):
        if kind == "dict":
            k = self.evc(elt[0], st)
            v = self.ev(elt[1], st)
            return mk("tuple", (k, v))
        return self.ev(elt, st)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.envs[self.frames[-1].fid]:
            return self.mk_super(e, st)
        if isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super"):
            o = self.ev(e.func.value, st)
            args, kwargs = self.args(e, st)
            return self.call_method(o, e.func.attr, args, kwargs, st, e)
        f = self.ev(e.func, st)
        args, kwargs = self.args(e, st)
        return self.call(f, args, kwargs, st, e)

    supers = {}

    def mk_super(self, e, st):
        fr = self.frames[-1]
        f = fr
        t = mk("super", self.site())
        cls = fr.cls
        cur = fr.func.cls
        selft = fr.selfterm
        if selft is None:
            p = fr.func.params()
            selft = st.envs[fr.fid].get(p[0]) if p else None
        if cls is None:
            return t
        self.supers[t] = (cls, cur, selft)
        return t

    def args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.evc(a.value, st)
                if v.op in ("tuple", "list"):
                    args.extend(v.a[0])
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st))
        kwargs = []
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = self.content(v, st)
                kwargs.extend(self.expand_kwargs(c))
            else:
                kwargs.append((k.arg, v))
        return args, kwargs

    def expand_kwargs(self, c):
        if c.op == "dict" and all(kk.op == "const" for kk, _ in c.a[0]):
            return [(kk.a[0], vv) for kk, vv in c.a[0]]
        if c.op == "store" and c.a[1].op == "const" and isinstance(c.a[1].a[0], str):
            return self.expand_kwargs(c.a[0]) + [(c.a[1].a[0], c.a[2])]
        return [("**", c)]

    def bind(self, func, args, kwargs, st, skip_self):
        """Bind to parameter names -> ordered dict or None."""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip_self:
            names = names[1:]
        out = {}
        args = list(args)
        if any(x.op == "star" for x in args):
            si = next(i for i, x in enumerate(args) if x.op == "star")
            star = args[si].a[0]
            fixed = args[:si]
            for n, v in zip(names, fixed):
                out[n] = v
            if a.vararg and len(names) <= len(fixed):
                out[a.vararg.arg] = mk("tuple", tuple(args[len(names):]))
            else:
                for j, n in enumerate(names[len(fixed):]):
                    out[n] = mk("starget", star, j)
        else:
            for n, v in zip(names, args):
                out[n] = v
            extra = args[len(names):]
            if a.vararg:
                out[a.vararg.arg] = mk("tuple", tuple(extra))
            elif extra:
                return None
        kwn = {x.arg for x in a.args + a.kwonlyargs}
        rest = []
        stars = [v for k, v in kwargs if k == "**"]
        for k, v in kwargs:
            if k == "**":
                continue
            if k in kwn:
                out[k] = v
            else:
                rest.append((k, v))
        if a.kwarg:
            d = mk("dict", tuple((const(k), v) for k, v in rest))
            for s_ in stars:
                d = s_ if not d.a[0] and d.op == "dict" else mk("dictmerge", d, s_)
            out[a.kwarg.arg] = d if d.op != "dict" else self.newobj("dict", d, st)
        elif rest:
            return None
        # defaults
        defaults = dict(zip([x.arg for x in a.posonlyargs + a.args][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                dv = None
                if n in defaults:
                    dv = self.default_value(func, defaults[n], st)
                if stars and not a.kwarg:
                    out[n] = mk("kwget", stars[0], n, dv if dv is not None else UNDEF)
                elif dv is not None:
                    out[n] = dv
                else:
                    return None
        order = names + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        return {n: out[n] for n in order if n in out}

    def default_value(self, func, node, st):
        fr = Frame(self.site(), None, func.module, None, None)
        fr.closure_fid = None
        self.frames.append(fr)
        st.envs[fr.fid] = {}
        try:
            if isinstance(node, ast.Constant) and node.value is Ellipsis:
                return UNDEF
            return self.ev(node, st)
        finally:
            self.frames.pop()
            st.envs.pop(fr.fid, None)

    def call(self, f, args, kwargs, st, node):
        if f.op == "phi":
            c = f.a[0]
            a, b = st.copy(), st.copy()
            a.path = extend(a.path, c)
            b.path = extend(b.path, not_(c))
            va = vb = None
            try:
                va = self.call(f.a[1], args, kwargs, a, node)
            except Unreachable:
                a = None
            try:
                vb = self.call(f.a[2], args, kwargs, b, node)
            except Unreachable:
                b = None
            if a is None and b is None:
                raise Unreachable()
            st.become(self.join([a, b]))
            return vb if a is None else va if b is None else phi(c, va, vb)
        if f.op == "fn":
            if f in self.closures:
                func, fid, fr = self.closures[f]
                self.frame_info[fid] = fr
                return self.call_func(func, args, kwargs, st, node, selfterm=fr.selfterm, cls=fr.cls, closure_fid=fid)
            func = self.proj.find_func(f.a[0])
            if func is not None:
                return self.call_func(func, args, kwargs, st, node, selfterm=None, cls=func.cls)
        if f.op == "bound":
            func = self.proj.find_func(f.a[0])
            cls = self.proj.find_class(f.a[2]) or func.cls
            return self.call_func(func, [f.a[1]] + list(args), kwargs, st, node, selfterm=f.a[1], cls=cls)
        if f.op == "cls":
            return self.instantiate(f, args, kwargs, st, node)
        if f.op == "partial":
            return self.call(f.a[0], list(f.a[1]) + list(args), list(f.a[2]) + list(kwargs), st, node)
        if f.op == "attr" and f.a[0].op not in ("ext",):
            return self.call_method(f.a[0], f.a[1], args, kwargs, st, node)
        if f.op == "ext":
            r = self.call_ext(f.a[0], args, kwargs, st, node)
            if r is not None:
                return r
            if f.a[0] in INPLACE_EXT and args:
                co = self.content(args[0], st)
                self.opaque(f, args, kwargs, st, node)
                A = tuple(self.deep(a, st) for a in args[1:])
                K = dict(kwargs)
                if f.a[0] == "numpy.fill_diagonal":
                    st.heap[("c", args[0])] = mk("store", co, const("diag"), A[0] if A else self.deep(K.get("val", NONE), st))
                else:
                    st.heap[("c", args[0])] = mk("mutated", f.a[0], co, A)
                return NONE
            out = dict(kwargs).get("out")
            if out is not None and f.a[0].startswith("numpy."):
                r = self.opaque(f, args, [x for x in kwargs if x[0] != "out"], st, node)
                self.log("mutcall", st, node, obj=out, name="out", args=(), kwargs={})
                u = self.ufunc(f.a[0], args, st, node)
                st.heap[("c", out)] = u if u is not None else r
                return out
        return self.opaque(f, args, kwargs, st, node)

    def ufunc(self, q, args, st, node):
        op = UFUNC.get(q)
        if op is None:
            return None
        if len(args) == 2:
            return self.binop(op(), self.content(args[0], st), self.content(args[1], st), st, node)
        return None

    def opaque(self, f, args, kwargs, st, node, binder=None):
        cargs = tuple(self.deep(a, st) for a in args)
        ckw = [(k, self.deep(v, st)) for k, v in kwargs]
        ident = tuple(args)
        identkw = tuple(kwargs)
        if binder is not None:
            fn, skip = binder
            b = self.bind(fn, args, kwargs, st, skip)
            if b is not None:
                cargs = ()
                ckw = [(k, self.deep(v, st)) for k, v in b.items() if v is not UNDEF]
        else:
            ckw.sort(key=lambda x: x[0])
        t = mk("call", f, cargs, tuple(ckw), self.site())
        if any(x is None for x in cargs):
            raise AnalysisError("bad call")
        self.log("call", st, node, term=t, fn=f, args=cargs, kwargs=dict(ckw), iargs=ident, ikwargs=dict(identkw))
        return t

    def cls_of_self(self, args, func):
        """An abstract method reached through dynamic dispatch (not super()): some unknown override runs."""
        if not args:
            return False
        c = self.cls_of(args[0])
        return c is not None and c.find(func.name) is func

    def call_func(self, func, args, kwargs, st, node, selfterm=None, cls=None, closure_fid=None):
        depth = len(self.frames)
        recursive = sum(1 for fr in self.frames if fr.func is not None and fr.func.node is func.node)
        block = self.inline_filter is not None and not self.inline_filter(func)
        if func.is_stub or recursive or depth > self.max_depth or block or (func.is_abstract and self.cls_of_self(args, func)):
            f = mk("fn", func.qual)
            a = args
            skip = False
            if func.cls is not None and not func.is_static and args:
                f = mk("attr", args[0], func.name)
                a = args[1:]
                skip = True
            return self.opaque(f, a, kwargs, st, node, binder=(func, skip))
        b = self.bind(func, args, kwargs, st, False)
        if b is None:
            self.log("badcall", st, node, func=func, args=tuple(args), kwargs=tuple(kwargs))
            return self.opaque(mk("fn", func.qual), args, kwargs, st, node)
        sargs = [x.annotation for x in func.node.args.posonlyargs + func.node.args.args]
        self.log("inline", st, node, func=func, bound=dict(b))
        v, exits = self.call_body(func, dict(b), st, selfterm if selfterm is not None else (args[0] if func.cls is not None and not func.is_static and args else None), cls or func.cls, node, closure_fid)
        if v is None:
            raise Unreachable()
        return v

    def instantiate(self, f, args, kwargs, st, node):
        c = self.proj.find_class(f.a[0]) or self.local_classes.get(f.a[0])
        if c is None:
            return self.opaque(f, args, kwargs, st, node)
        if self.is_enum(c):
            return mk("enumval", c.qual, self.content(args[0], st) if args else NONE)
        if c.module.is_stub:
            init = c.find("__init__")
            b = self.bind(init, [NONE] + list(args), kwargs, st, False) if init is not None else None
            if b is not None:
                ckw = tuple((k, self.deep(v, st)) for k, v in list(b.items())[1:] if v is not UNDEF)
                cargs = ()
            else:
                cargs = tuple(self.deep(a, st) for a in args)
                ckw = tuple((k, self.deep(v, st)) for k, v in kwargs)
            t = mk("new", c.qual, cargs, ckw, self.site())
            self.log("new", st, node, term=t, cls=c, args=cargs, kwargs=dict(ckw), iargs=tuple(args), ikwargs=dict(kwargs))
            return t
        exc = any(b.split(".")[-1].endswith(("Exception", "Error")) for b in c.ext_bases())
        t = mk("new", c.qual, (), (), self.site())
        init = c.find("__init__")
        self.log("new", st, node, term=t, cls=c, args=tuple(args), kwargs=dict(kwargs), iargs=tuple(args), ikwargs=dict(kwargs))
        if init is not None:
            self.call_func(init, [t] + list(args), kwargs, st, node, selfterm=t, cls=c)
        else:
            fields = self.dc_fields(c)
            for (n, d), v in zip(fields, args):
                st.heap[("a", t, n)] = v
            for k, v in kwargs:
                if k != "**":
                    st.heap[("a", t, k)] = v
            for n, d in fields:
                if ("a", t, n) not in st.heap and d is not None:
                    st.heap[("a", t, n)] = self.class_value(d[0], n, d[1], st)
            if exc:
                return t
        return t

    def dc_fields(self, c):
        out = []
        for k in reversed(c.mro()):
            for n in k.annots:
                d = (k, k.attrs[n]) if n in k.attrs else None
                out = [x for x in out if x[0] != n]
                out.append((n, d))
        return out

    def call_method(self, o, name, args, kwargs, st, node):
        if o.op == "phi":
            # dispatch on both alternatives when they differ in kind
            c = o.a[0]
            ka, kb = self.cls_of(o.a[1]), self.cls_of(o.a[2])
            if (ka is not None or kb is not None) or o.a[1].op in ("new", "mod", "cls") or o.a[2].op in ("new", "mod", "cls"):
                return self.call(phi(c, mk("attr", o.a[1], name) if True else None, mk("attr", o.a[2], name)), args, kwargs, st, node)
        if o.op in ("mod", "ext", "super", "cls"):
            if o.op == "ext" and o.a[0].startswith("?"):
                return self.opaque(mk("attr", o, name), args, kwargs, st, node)
            f = self.getattr_(o, name, st, node)
            if f.op == "attr" and f.a[0] is o:
                return self.opaque(f, args, kwargs, st, node)
            return self.call(f, args, kwargs, st, node)
        k = ("a", o, name)
        if k in st.heap:
            return self.call(st.heap[k], args, kwargs, st, node)
        c = self.cls_of(o)
        if c is not None:
            m = c.find(name)
            if m is not None and not m.is_stub:
                if m.is_property:
                    f = self.getattr_(o, name, st, node)
                    return self.call(f, args, kwargs, st, node)
                if m.is_static:
                    return self.call_func(m, args, kwargs, st, node, cls=c)
                if m.is_classmethod:
                    return self.call_func(m, [mk("cls", c.qual)] + list(args), kwargs, st, node, selfterm=mk("cls", c.qual), cls=c)
                return self.call_func(m, [o] + list(args), kwargs, st, node, selfterm=o, cls=c)
            if m is not None and m.is_stub:
                return self.native_method(o, c, m, args, kwargs, st, node)
        d = self.decl_of(o)
        if d is not None and c is None:
            m = d.find(name)
            if m is not None:
                if d.module.is_stub:
                    return self.native_method(o, d, m, args, kwargs, st, node)
                return self.opaque(mk("attr", o, name), args, kwargs, st, node, binder=(m, True))
        r = self.call_known_method(o, name, args, kwargs, st, node)
        if r is not None:
            return r
        co = self.content(o, st)
        if co.op in ("fn", "bound", "cls", "partial") and name == "__call__":
            return self.call(co, args, kwargs, st, node)
        return self.opaque(mk("attr", co if co is not o and co.op not in ("dict",) else o, name), args, kwargs, st, node)

    def native_method(self, o, c, m, args, kwargs, st, node):
        """Methods of native (stub-declared) classes.  Fluent `set_*` builders become attribute writes."""
        ret = m.node.returns
        rc = self.annot_class(ret, m.module) if ret is not None else None
        name = m.name
        if name.startswith("set_") and rc is c:
            b = self.bind(m, args, kwargs, st, True)
            if b is not None and len(b) == 1:
                v = list(b.values())[0]
                self.log("setattr", st, node, obj=o, name=name[4:], val=v, content=self.deep(v, st), aug=False)
                st.heap[("a", o, name[4:])] = v
                return o
        if name == "build" and rc is not None:
            attrs = {}
            for k, v in st.heap.items():
                if k[0] == "a" and k[1] is o:
                    attrs[k[2]] = self.deep(v, st)
            t = mk("new", rc.qual, (), tuple(sorted(attrs.items())), self.site())
            self.log("new", st, node, term=t, cls=rc, args=(), kwargs=attrs, iargs=(), ikwargs={})
            return t
        return self.opaque(mk("attr", o, name), args, kwargs, st, node, binder=(m, True))

    # ---- builtin containers, numpy/scipy idioms
    def call_known_method(self, o, name, args, kwargs, st, node):
        co = self.content(o, st)
        A = [self.content(a, st) for a in args]
        K = {k: self.content(v, st) for k, v in kwargs}
        if name in LIST_MUT and (co.op in ("list", "dict", "set", "comp", "append", "concat", "store", "dictmerge", "setadd", "mu", "phi", "condlist") or o.op == "new" or name in ("append", "extend", "setdefault", "update", "insert", "popitem")):
            self.log("mutcall", st, node, obj=o, name=name, args=tuple(args), kwargs=dict(kwargs))
            if name == "append" and A:
                st.heap[("c", o)] = append_term(co, self.deep(args[0], st))
                return NONE
            if name == "extend" and A:
                if co.op == "list" and A[0].op in ("list", "tuple"):
                    st.heap[("c", o)] = mk("list", co.a[0] + A[0].a[0])
                else:
                    st.heap[("c", o)] = mk("concat", flat_concat(co) + flat_concat(self.deep(args[0], st)))
                return NONE
            if name == "add" and A:
                st.heap[("c", o)] = mk("set", co.a[0] + (A[0],)) if co.op == "set" else mk("setadd", co, A[0])
                return NONE
            if name == "update":
                d = A[0] if A else mk("dict", ())
                if K:
                    kw = mk("dict", tuple((const(k), v) for k, v in kwargs if k != "**"))
                    d = kw if not A else mk("dictmerge", d, kw)
                    for k, v in kwargs:
                        if k == "**":
                            d = mk("dictmerge", d, v)
                if co.op == "dict" and d.op == "dict":
                    st.heap[("c", o)] = mk("dict", tuple(merge_items(list(co.a[0]), d.a[0])))
                elif co.op == "set":
                    st.heap[("c", o)] = mk("setunion", co, d)
                else:
                    st.heap[("c", o)] = mk("dictmerge", co, d)
                return NONE
            if name in ("pop", "popitem") and True:
                if co.op == "dict" and A and A[0].op == "const" and all(k.op == "const" for k, _ in co.a[0]):
                    for kk, v in co.a[0]:
                        if kk is A[0]:
                            st.heap[("c", o)] = mk("dict", tuple(x for x in co.a[0] if x[0] is not kk))
                            return v
                st.heap[("c", o)] = mk("popped", co, tuple(A))
                return mk("popval", co, tuple(A))
            if name == "setdefault" and A:
                dv = args[1] if len(args) > 1 else NONE
                if co.op == "dict" and A[0].op == "const" and all(k.op == "const" for k, _ in co.a[0]):
                    for kk, v in co.a[0]:
                        if kk is A[0]:
                            return v
                    st.heap[("c", o)] = mk("dict", co.a[0] + ((A[0], dv),))
                    return dv
                c = mk("in", A[0], co)
                st.heap[("c", o)] = phi(c, co, mk("store", co, A[0], dv))
                return phi(c, idx(co, A[0]), dv)
            if name == "sort":
                st.heap[("c", o)] = mk("sorted", co, tuple(sorted(K.items(), key=lambda x: x[0])))
                return NONE
            st.heap[("c", o)] = mk("mutated", name, co, tuple(A))
            return NONE
        if name in VALUE_MUT or name in LAYOUT_MUT:
            self.log("mutcall", st, node, obj=o, name=name, args=tuple(args), kwargs=dict(kwargs))
            if name == "setdiag":
                st.heap[("c", o)] = mk("store", co, const("diag"), A[0] if A else NONE)
            elif name in VALUE_MUT:
                st.heap[("c", o)] = mk("mutated", name, co, tuple(A))
            return NONE
        if name in CONV_METHODS:
            kind = CONV_METHODS[name]
            if name == "copy" and co.op in ("list", "dict", "set", "comp") :
                return self.newobj(co.op if co.op != "comp" else "list", co, st)
            extra = tuple(A) + tuple((k, v) for k, v in sorted(K.items()))
            if kind in ("csr", "csc", "coo"):
                extra += (("self", TRUE),)      # may return the very same object
            return self.conv(kind, co, extra)
        if name == "dot" and len(A) == 1:
            return matmul(co, A[0])
        if name == "transpose" and not A:
            return transpose(co)
        if name == "nonzero" and not A:
            return mk("nonzero", co)
        if name in ("items", "values", "keys") and not A:
            return mk(name, o)
        if name == "get" and A and co.op == "dict" and A[0].op == "const" and all(k.op == "const" for k, _ in co.a[0]):
            for kk, v in co.a[0]:
                if kk is A[0]:
                    return v
            return A[1] if len(A) > 1 else NONE
        if name == "get" and A and co.op in ("comp", "dict", "store", "dictmerge", "conv"):
            return phi(mk("in", A[0], co), idx(co, A[0]), A[1] if len(A) > 1 else NONE)
        if name == "format" and is_str(co):
            return mk("fmt", co, tuple(A))
        if name == "upper" and co.op == "const" and isinstance(co.a[0], str) and not A:
            return const(co.a[0].upper())
        if name == "lower" and co.op == "const" and isinstance(co.a[0], str) and not A:
            return const(co.a[0].lower())
        if name == "getrow" and len(A) == 1:
            return index(co, mkslice(A[0], add(A[0], ONE), NONE))
        if name == "getcol" and len(A) == 1:
            return index(co, mk("tuple", (mkslice(NONE, NONE, NONE), mkslice(A[0], add(A[0], ONE), NONE))))
        if name == "ravel" and not A:
            return mk("conv", "ravel", co)
        if name == "flatten" and not A:
            return self.conv("copy", mk("conv", "ravel", co))
        if name == "index" and len(A) == 1 and co.op not in ("ext",):
            return mk("indexof", co, A[0])
        return None

    def conv(self, kind, x, extra=()):
        if x.op == "conv" and x.a[0] == kind and x.a[2:] == extra and kind not in ("copy", "astype", "toarray"):
            return x
        if kind in ("copy", "toarray"):
            return mk("conv", kind, x, self.site())
        return mk("conv", kind, x, *extra)

    def call_ext(self, q, args, kwargs, st, node):
        A = [self.content(a, st) for a in args]
        K = {k: self.content(v, st) for k, v in kwargs}
        b = q[9:] if q.startswith("builtins.") else None
        if b is not None:
            return self.call_builtin(b, args, A, K, kwargs, st, node)
        if q in CONV_FUNCS and A:
            if q.startswith("scipy.sparse") and A[0].op == "attr" and A[0].a[1] == "shape":
                A[0] = mk("tuple", (dim(A[0].a[0], 0), dim(A[0].a[0], 1)))
            if q.startswith("scipy.sparse") and A[0].op == "tuple":
                # constructor from (data, (row, col)) or an empty matrix of a shape
                kk = {k: v for k, v in K.items() if k not in ("dtype", "copy")}
                sh = kk.get("shape", A[1] if len(A) > 1 else None)
                parts = A[0].a[0]
                if len(parts) == 2 and self.content(parts[1], st).op == "tuple" and "shape" in kk or (len(parts) == 2 and self.content(parts[1], st).op in ("tuple", "phi", "nonzero")):
                    rc = self.content(parts[1], st)
                    t = mk("sparse", self.deep(parts[0], st), self.unpack(rc, 0, 2), self.unpack(rc, 1, 2), sh if sh is not None else NONE)
                elif len(parts) == 3:
                    t = mk("sparse3", tuple(self.deep(p, st) for p in parts), sh if sh is not None else NONE)
                else:
                    t = mk("zeros", A[0])
                r = mk("conv", CONV_FUNCS[q], t, *tuple((k, v) for k, v in sorted(K.items()) if k == "dtype"))
                self.log("call", st, node, term=r, fn=mk("ext", q), args=tuple(A), kwargs=K, iargs=tuple(args), ikwargs=dict(kwargs))
                return r
            self.log("call", st, node, term=None, fn=mk("ext", q), args=tuple(A), kwargs=K, iargs=tuple(args), ikwargs=dict(kwargs))
            kind = CONV_FUNCS[q]
            if q == "numpy.array" and "copy" in K and not is_const(K["copy"], True):
                kind = "asarray"
            return self.conv(kind, A[0], tuple(A[1:]) + tuple((k, v) for k, v in sorted(K.items())))
        if q in ("numpy.dot", "numpy.matmul") and len(A) == 2:
            return matmul(A[0], A[1])
        if q == "numpy.transpose" and len(A) == 1:
            return transpose(A[0])
        if q == "numpy.nonzero" and len(A) == 1:
            return mk("nonzero", A[0])
        if q in ("numpy.where", "numpy.argwhere") and len(A) == 1 and q == "numpy.where":
            x = A[0]
            if x.op == "not" and x.a[0].op == "eq" and ZERO in x.a[0].a:
                y = [z for z in x.a[0].a if z is not ZERO]
                if y:
                    return mk("nonzero", y[0])
            return mk("nonzero", x)
        if q in UFUNC and len(args) == 2 and not kwargs:
            return self.ufunc(q, args, st, node)
        if q == "numpy.negative" and len(args) == 1 and not kwargs:
            return neg(A[0])
        if q == "numpy.diag_indices" and len(args) == 1 and not kwargs:
            r = mk("arange", ZERO, A[0], ONE)
            return mk("tuple", (r, r))
        if q == "numpy.diag_indices_from" and len(args) == 1:
            r = mk("arange", ZERO, dim(A[0], 0), ONE)
            return mk("tuple", (r, r))
        if q == "numpy.arange":
            if len(A) == 1:
                return mk("arange", ZERO, A[0], ONE)
            if len(A) >= 2:
                return mk("arange", A[0], A[1], A[2] if len(A) > 2 and A[2].op != "ext" else ONE)
        if q in ("numpy.zeros", "numpy.empty") and A and q == "numpy.zeros":
            return self.newobj("ndarray", mk("zeros", A[0] if A[0].op == "tuple" else mk("tuple", (A[0],))), st)
        if q in ("numpy.minimum", "numpy.maximum") and len(A) == 2:
            return minmax("min" if q.endswith("minimum") else "max", A)
        if q == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(kwargs))
        if q == "collections.OrderedDict":
            return self.call_builtin("dict", args, A, K, kwargs, st, node)
        if q == "collections.defaultdict":
            return self.newobj("dict", mk("dict", ()), st)
        if q in ("typing.cast",) and len(args) == 2:
            return args[1]
        if q in ("contextlib.closing",) and args:
            return args[0]
        if q in ("itertools.chain",):
            return mk("concat", tuple(y for x in A for y in flat_concat(x)))
        return None

    def call_builtin(self, b, args, A, K, kwargs, st, node):
        if b == "len" and len(A) == 1:
            c = A[0]
            if c.op == "zeros" and c.a[0].op == "tuple":
                return c.a[0].a[0][0]
            if c.op in ("keys", "items", "values"):
                return length(self.content(c.a[0], st))
            if c.op == "conv" and c.a[0] in ("list", "tuple", "tolist", "asarray", "copy", "contig"):
                return length(c.a[1]) if c.a[0] != "set" else mk("len", c)
            if c.op == "dict" and all(k.op == "const" for k, _ in c.a[0]):
                return const(len(c.a[0]))
            return length(c)
        if b in ("min", "max") and not K:
            if len(A) >= 2:
                return minmax(b, A)
            if len(A) == 1 and A[0].op in ("list", "tuple") and A[0].a[0]:
                return minmax(b, [self.content(x, st) for x in A[0].a[0]])
            return mk(b + "of", *A)
        if b in ("min", "max"):
            return self.opaque_pure(b, args, A, K, st, node)
        if b == "float" and len(A) == 1:
            if A[0].op == "const" and isinstance(A[0].a[0], str):
                try:
                    return const(float(A[0].a[0]))
                except ValueError:
                    return None
            if is_num(A[0]):
                return const(float(A[0].a[0]))
            return mk("conv", "float", A[0])
        if b == "int" and len(A) == 1:
            if is_num(A[0]) and not isinstance(A[0].a[0], float):
                return A[0]
            return mk("toint", A[0])
        if b == "str" and len(A) == 1:
            if A[0].op == "const":
                return const(str(A[0].a[0]))
            return fstr([A[0]])
        if b == "bool" and len(A) == 1:
            return self.truth(A[0], st)
        if b == "abs" and len(A) == 1:
            return mk("abs", A[0])
        if b == "range":
            if len(A) == 1:
                return rng(ZERO, A[0], ONE)
            return rng(A[0], A[1], A[2] if len(A) > 2 else ONE)
        if b == "zip":
            return mk("zip", tuple(args))
        if b == "enumerate" and A:
            s0 = A[1] if len(A) > 1 else K.get("start", ZERO)
            return mk("enumerate", args[0], s0)
        if b in ("list", "tuple"):
            if not A:
                return self.newobj("list", mk("list", ()), st) if b == "list" else mk("tuple", ())
            c = A[0]
            if c.op == "keys":
                c = self.content(c.a[0], st)
                if c.op == "dict":
                    c = mk("list", tuple(k for k, _ in c.a[0]))
            elif c.op == "values" or c.op == "items":
                d = self.content(c.a[0], st)
                if d.op == "dict":
                    c = mk("list", tuple(v if c.op == "values" else mk("tuple", (k, v)) for k, v in d.a[0]))
            if c.op in ("list", "tuple"):
                r = mk(b, c.a[0])
            elif c.op == "comp" and c.a[0] in ("gen", "list"):
                r = mk("comp", "list", *c.a[1:])
            else:
                if c.op in ("zip", "enumerate", "map"):
                    e0, base, z = self.iter_elem(c, self.depth_of(c), st)
                    r = mk("comp", "list", e0, (base,), ())
                else:
                    r = mk("conv", "list", c)
            return self.newobj("list", r, st) if b == "list" else (r if r.op == "tuple" else mk("conv", "tuple", r))
        if b in ("set", "frozenset"):
            if not A:
                return self.newobj("set", mk("set", ()), st)
            c = A[0]
            if c.op in ("list", "tuple"):
                return self.newobj("set", mk("set", c.a[0]), st)
            if c.op == "comp":
                return self.newobj("set", mk("comp", "set", *c.a[1:]), st)
            return self.newobj("set", mk("setof", c), st)
        if b == "dict":
            if not A and not K:
                return self.newobj("dict", mk("dict", ()), st)
            items = []
            cur = None
            if A:
                c = A[0]
                if c.op == "dict":
                    items = list(c.a[0])
                elif c.op == "zip" and len(c.a[0]) == 2:
                    e0, base, z = self.iter_elem(c, 0, st)
                    cur = mk("comp", "dict", e0, (base,), ())
                elif c.op == "comp" and c.a[0] in ("gen", "list"):
                    cur = mk("comp", "dict", *c.a[1:])
                elif c.op in ("list", "tuple") and all(x.op == "tuple" and len(x.a[0]) == 2 for x in c.a[0]):
                    items = [tuple(x.a[0]) for x in c.a[0]]
                elif c.op == "enumerate":
                    e0, base, z = self.iter_elem(c, 0, st)
                    cur = mk("comp", "dict", e0, (base,), ())
                else:
                    cur = mk("dictmerge", mk("dict", ()), c)
            for k, v in kwargs:
                if k == "**":
                    base = cur if cur is not None else mk("dict", tuple(items))
                    if cur is not None and items:
                        base = mk("dictmerge", cur, mk("dict", tuple(items)))
                    cur = mk("dictmerge", base, v)
                    items = []
                else:
                    items = merge_items(items, ((const(k), v),))
            if cur is not None:
                if items:
                    cur = mk("dictmerge", cur, mk("dict", tuple(items)))
                return self.newobj("dict", cur, st)
            return self.newobj("dict", mk("dict", tuple(items)), st)
        if b == "sorted" and A:
            return self.newobj("list", mk("sorted", A[0], tuple(sorted(((k, v) for k, v in K.items()), key=lambda x: x[0]))), st)
        if b == "sum" and A:
            c = A[0]
            if c.op in ("list", "tuple"):
                r = A[1] if len(A) > 1 else ZERO
                for x in c.a[0]:
                    r = add(r, self.content(x, st))
                return r
            if c.op == "comp" and len(c.a[2]) == 1:
                return mk("sumover", c.a[1], c.a[2][0], c.a[3])
            return mk("sumof", c)
        if b == "isinstance" and len(A) == 2:
            c = self.cls_of(args[0])
            if c is not None and A[1].op == "cls":
                k = self.proj.find_class(A[1].a[0])
                if k is not None:
                    return const(k in c.mro())
            return isinstance_(A[0], A[1])
        if b == "type" and len(A) == 1:
            c = self.cls_of(args[0])
            if c is not None:
                return mk("cls", c.qual)
            return mk("attr", A[0], "__class__")
        if b == "getattr" and len(A) >= 2 and A[1].op == "const" and isinstance(A[1].a[0], str):
            return self.getattr_(args[0], A[1].a[0], st, node)
        if b == "getattr" and len(A) >= 2:
            return mk("getattr", A[0], A[1])
        if b == "setattr" and len(A) == 3 and A[1].op == "const":
            self.setattr_(args[0], A[1].a[0], args[2], st, node)
            return NONE
        if b == "hasattr" and len(A) == 2:
            if A[1].op == "const" and ("a", args[0], A[1].a[0]) in st.heap:
                return TRUE
            return mk("hasattr", A[0], A[1])
        if b in ("any", "all") and len(A) == 1:
            c = A[0]
            if c.op in ("list", "tuple"):
                f = or_ if b == "any" else and_
                return f(*[self.truth(x, st) for x in c.a[0]])
            if c.op == "comp" and b == "all":
                return not_(mk("anyof", mk("comp", c.a[0], not_(self.truth(c.a[1])), c.a[2], c.a[3])))
            if c.op == "comp":
                return mk("anyof", mk("comp", c.a[0], self.truth(c.a[1]), c.a[2], c.a[3]))
            return mk(b, c)
        if b == "reversed" and A:
            return mk("reversed", A[0])
        if b == "map" and len(args) == 2:
            c = self.content(args[1], st)
            e0, base, z = self.iter_elem(c, self.depth_of(c), st)
            v = self.call(args[0], [e0], [], st, node)
            return mk("comp", "gen", self.deep(v, st), (base,), ())
        if b == "slice":
            if len(A) == 1:
                return mkslice(NONE, A[0], NONE)
            return mkslice(A[0], A[1], A[2] if len(A) > 2 else NONE)
        if b == "iter" and len(A) == 1:
            return args[0]
        if b == "print":
            self.log("call", st, node, term=None, fn=mk("ext", "builtins.print"), args=tuple(A), kwargs=K, iargs=tuple(args), ikwargs=dict(kwargs))
            return NONE
        if b in ("round", "divmod", "pow", "hash", "repr", "id", "callable", "issubclass"):
            return mk(b, *A)
        return None

    def opaque_pure(self, b, args, A, K, st, node):
        return mk(b + "of", *A, tuple(sorted(K.items(), key=lambda x: x[0])))


class Unreachable(Exception):
    pass


# ---------------------------------------------------------------- helpers

def range_elem(base, depth):
    e = elem(base, depth)
    for x in walk(e):
        if x.op in ("elem", "pos") and x.a[1] == depth:
            return x
    return e


def ext_term(q):
    if q in ("numpy.inf", "numpy.Inf", "numpy.infty", "numpy.PINF", "math.inf"):
        return INF
    if q in ("numpy.NINF",):
        return NEGINF
    if q in ("numpy.nan", "math.nan", "numpy.NaN"):
        return mk("const", float("nan"))
    if q == "numpy.newaxis":
        return NONE
    return mk("ext", q)


def transpose(x):
    if x.op == "T":
        return x.a[0]
    if x.op == "matmul":
        return mk("T", x)
    return mk("T", x)


def matmul(a, b):
    return mk("matmul", a, b)


def mkslice(lo, hi, step):
    if is_const(step, 1):
        step = NONE
    if is_const(lo, 0):
        lo = NONE
    return mk("slice", lo, hi, step)


def index(o, i):
    if o.op == "phi" and i.op in ("const",):
        return phi(o.a[0], index(o.a[1], i), index(o.a[2], i))
    if o.op == "nonzero" and is_int(i):
        return mk("nzidx", o.a[0], i.a[0])
    if o.op in ("list", "tuple") and i.op == "slice" and all(x is NONE or is_int(x) for x in i.a) and not any(x.op == "star" for x in o.a[0]):
        sl = slice(*[None if x is NONE else x.a[0] for x in i.a])
        return mk(o.op, tuple(o.a[0][sl]))
    if i.op == "tuple" and o.op not in ("dict",):
        # trailing full slices select everything
        parts = list(i.a[0])
        full = mk("slice", NONE, NONE, NONE)
        while len(parts) > 1 and parts[-1] is full:
            parts.pop()
        if len(parts) == 1:
            return index(o, parts[0])
        i = mk("tuple", tuple(parts))
    if i.op == "slice" and i.a == (NONE, NONE, NONE):
        return mk("conv", "view", o)
    if o.op == "comp" and o.a[0] in ("list",) and len(o.a[2]) == 1 and not o.a[3] and i.op == "pos" and i.a[0] is o.a[2][0]:
        old = [x for x in walk(o.a[1]) if x.op in ("elem", "pos") and x.a[0] is o.a[2][0]]
        m = {x: mk(x.op, x.a[0], i.a[1]) for x in old}
        return subst(o.a[1], m)
    return idx(o, i)


def shape_parts(t):
    if t.op == "tuple":
        return list(t.a[0])
    return None


def fstr(parts):
    out = []
    for p in parts:
        if p.op == "fstr":
            out.extend(p.a[0])
        else:
            out.append(p)
    merged = []
    for p in out:
        if p.op == "const" and isinstance(p.a[0], (str, int)) and merged and merged[-1].op == "const" and isinstance(merged[-1].a[0], str):
            merged[-1] = const(merged[-1].a[0] + str(p.a[0]))
        elif p.op == "const" and isinstance(p.a[0], int) and not isinstance(p.a[0], bool):
            merged.append(const(str(p.a[0])))
        else:
            merged.append(p)
    if len(merged) == 1 and merged[0].op == "const" and isinstance(merged[0].a[0], str):
        return merged[0]
    return mk("fstr", tuple(merged))


def is_str(t):
    return t.op == "fstr" or (t.op == "const" and isinstance(t.a[0], str))


def is_seq(t):
    if t.op == "new":
        return t.a[0] == "list"
    return t.op in ("list", "tuple", "concat", "sorted") or is_str(t) or (t.op == "comp" and t.a[0] in ("list",)) or (t.op == "conv" and t.a[0] in ("list", "tuple"))


def flat_concat(t):
    if t.op == "concat":
        return t.a[0]
    if t.op == "list" and not t.a[0]:
        return ()
    return (t,)


def append_term(c, v):
    if c.op == "list":
        return mk("list", c.a[0] + (v,))
    return mk("append", c, v)


TRANSPARENT_ITER = {"fastprogress.progress_bar", "fastprogress.master_bar", "tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.trange",
                    "fastprogress.fastprogress.progress_bar"}


def same_under(a, b, path):
    """Equal once the path condition is taken into account."""
    if a is None or b is None:
        return a is b
    for c in path:
        a, b = assume(a, c, True), assume(b, c, True)
        if a is b:
            return True
    return same_tree(a, b, [200])


def same_tree(a, b, fuel):
    """Equal as decision trees (the order of the conditions does not matter)."""
    if a is b:
        return True
    fuel[0] -= 1
    if fuel[0] < 0:
        return False
    p = first_phi(a) or first_phi(b)
    if p is None:
        return False
    c = p.a[0]
    return same_tree(assume(a, c, True), assume(b, c, True), fuel) and \
        same_tree(assume(a, c, False), assume(b, c, False), fuel)


def first_phi(t):
    for x in walk(t):
        if x.op == "phi" and not any(y.op == "phi" for y in walk(x.a[0])):
            return x
    return None


def merge_items(items, new):
    items = list(items)
    for k, v in new:
        items = [(a, b) for a, b in items if a is not k]
        items.append((k, v))
    return items


def common_prefix(paths):
    pre = paths[0]
    for p in paths[1:]:
        n = 0
        while n < len(pre) and n < len(p) and pre[n] is p[n]:
            n += 1
        pre = pre[:n]
    return pre


def extend(path, c):
    if c is TRUE:
        return path
    return path + (c,)


def exc_name(e):
    if e is None:
        return None
    if e.op == "call":
        return exc_name(e.a[0])
    if e.op in ("ext", "cls"):
        return e.a[0].split(".")[-1]
    if e.op == "new":
        return e.a[0].split(".")[-1]
    if e.op == "exc":
        return e.a[0][0]
    return None


def load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


def assigned_names(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    # names bound only inside nested comprehensions/lambdas are harmless extras
    return out


def assigned_names_target(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


_HP = {}


def has_phi_on(v, c):
    k = (v, c)
    r = _HP.get(k)
    if r is None:
        r = any((x.op == "phi" and (x.a[0] is c or c in walk(x.a[0]))) or x is c for x in walk(v))
        _HP[k] = r
    return r


def pre_idents(pre):
    out = set()
    for env in pre.envs.values():
        for v in env.values():
            out.add(v)
            if v.op == "phi":
                out.update(x for x in walk(v) if x.op in ("new", "call", "sym", "attr"))
    for k in pre.heap:
        out.add(k[1])
    return out
