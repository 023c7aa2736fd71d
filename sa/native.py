"""The dataflow engine over translated native code.

The translation of sa/cxx.py turns each instantiated C++ function into the same
syntax the Python rules analyse.  This subclass adds the library meaning of the
names the translation uses: threads and futures, atomic cursors, vectors,
in-place algorithms, raw views of matrices, value copies and variants.
"""
import ast

from .terms import *
from .interp import Interp, State, Unreachable, Frame, index, mkslice, extend
from .pyproj import AnalysisError
from . import cxx

INPLACE = {"sort": 4, "stable_sort": 4, "shuffle": 4, "partial_sort": 6, "nth_element": 6, "iota": 4, "fill": 4, "reverse": 4, "transform": 4}


class NativeInterp(Interp):
    count_loops = False

    def __init__(self, proj, **kw):
        kw.setdefault("max_depth", 24)
        super().__init__(proj, **kw)
        self.caps = {}
        self.workers = []
        self.worker_info = {}

    # ---- bookkeeping
    def loc(self, node):
        f = self.frames[-1] if self.frames else None
        if f is None:
            return "?"
        path = getattr(f.func.node, "_file", None) if f.func is not None else None
        if path:
            root = self.proj.root.rstrip("/") + "/"
            path = path[len(root):] if path.startswith(root) else path
            return f"{path}:{getattr(node, 'lineno', '?')}"
        return super().loc(node)

    def log(self, kind, st, node, **d):
        e = super().log(kind, st, node, **d)
        if e is not None:
            e.d["worker"] = tuple(self.workers)
        return e

    def cls_of(self, t):
        c = super().cls_of(t)
        if c is not None:
            return c
        if t in self.decl:
            return self.decl[t]        # C++ objects have exactly their declared type
        if t.op == "conv":
            return self.cls_of(t.a[1])
        if t.op == "attr":
            oc = self.cls_of(t.a[0])
            if oc is not None:
                an = oc.find_annot(t.a[1])
                if an is not None:
                    return self.annot_class(an[1], an[0].module)
        return None

    def annot_class(self, annot, module):
        if isinstance(annot, ast.Constant):
            return None                # a kind ("dense", "sparse", ...), not a class
        return super().annot_class(annot, module)

    # ---- closures: by-value captures are fixed when the closure is made
    def mkclosure(self, f, st):
        t = super().mkclosure(f, st)
        a = f.node.args
        ds = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults)) if a.defaults else {}
        self.caps[t] = [(n, self.ev(d, st)) for n, d in ds.items()]
        return t

    def call(self, f, args, kwargs, st, node):
        if f.op == "fn" and f in self.caps and f in self.closures:
            have = {k for k, _ in kwargs}
            names = [x.arg for x in self.closures[f][0].node.args.args][:len(args)]
            kwargs = list(kwargs) + [(n, v) for n, v in self.caps[f] if n not in have and n not in names]
        if f.op == "new" and f.a[0].startswith("cxx:") and args:
            return self.draw(f, args, st, node)
        return super().call(f, args, kwargs, st, node)

    def draw(self, f, args, st, node):
        t = mk("call", f, tuple(self.content(a, st) for a in args), (), self.site())
        for a in args:
            if a.op == "new":
                st.heap[("c", a)] = mk("mutated", "draw", self.content(a, st), (), self.site())
        self.log("draw", st, node, term=t, dist=f, args=tuple(args))
        return t

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name) and t.id in self.frames[-1].nonlocals:
            self.log("setouter", st, node, name=t.id, val=self.content(v, st), aug=aug)
        return super().assign(t, v, st, node, aug)

    # ---- cells of vectors of containers
    def content(self, t, st):
        k = ("c", t)
        if k in st.heap:
            return st.heap[k]
        if t.op == "idx" and t.a[0].op in ("new", "attr", "sym"):
            b = super().content(t.a[0], st)
            f = fill_of(b)
            if f is not None:
                return super().content(f, st)
        return super().content(t, st)

    def subscript(self, o, i, st, node):
        if o.op == "flat" or self.is_cellular(o, st):
            ci = self.content(i, st)
            co = self.content(o, st)
            if ci.op not in ("slice", "tuple"):
                r = mk("idx", o, ci)
                if o.op == "flat":
                    r = flat_read(co if co is not o else o, ci, st, self)
                self.log("getitem", st, node, obj=o, idx=ci, base=co, val=r)
                return r
        return super().subscript(o, i, st, node)

    def is_cellular(self, o, st):
        if o.op not in ("new", "attr"):
            return False
        f = fill_of(super().content(o, st))
        return f is not None and f.op == "new"

    def setitem(self, o, i, v, st, node, aug=False):
        if o.op == "flat":
            m, lay = o.a
            ci = self.content(i, st)
            cv = self.deep(v, st)
            base = self.content(m, st)
            self.log("store", st, node, obj=o, idx=ci, val=cv, aug=aug, base=base)
            st.heap[("c", m)] = mk("store", base, mk("flatidx", lay, ci), cv)
            return
        super().setitem(o, i, v, st, node, aug)

    # ---- library
    def call_method(self, o, name, args, kwargs, st, node):
        if o.op != "future" and name in ("get", "join", "wait", "detach", "valid", "joinable") and not args:
            futs = {x for x in walk(self.content(o, st)) if x.op == "future"}
            if len({x.a[0] for x in futs}) == 1:
                o = futs.pop()
        if o.op == "future":
            if name in ("get", "join", "wait"):
                self.log("wait", st, node, how=name, future=o)
                return o.a[2] if name == "get" else NONE
            if name in ("valid", "joinable"):
                return TRUE
            if name == "detach":
                self.log("detach", st, node, future=o)
                return NONE
        if o.op == "new" and o.a[0] == "atomic" or self.is_atomic(o):
            if name == "fetch_add":
                step = self.content(args[0], st) if args else ONE
                t = mk("call", mk("ext", "cxx.claim"), (o,), (), self.site())
                self.log("claim", st, node, atom=o, step=step, term=t)
                return t
            if name in ("load", "store", "exchange", "compare_exchange_weak", "compare_exchange_strong", "fetch_sub", "fetch_-"):
                t = mk("call", mk("ext", "cxx." + name), (o,) + tuple(self.content(a, st) for a in args), (), self.site())
                self.log("atomic", st, node, atom=o, name=name, term=t)
                return t
        if name == "size" and not args and self.content(o, st).op == "tuple":
            return const(len(self.content(o, st).a[0]))
        if name == "clear" and not args and self.content(o, st).op in ("comp", "list", "append", "concat", "mu", "loopout", "phi", "rep"):
            self.log("mutcall", st, node, obj=o, name="clear", args=(), kwargs={}, old=self.content(o, st))
            st.heap[("c", o)] = mk("set" if o.op == "new" and o.a[0] == "set" else "list", ())
            return NONE
        return super().call_method(o, name, args, kwargs, st, node)

    def is_atomic(self, o):
        return o in self.atomics

    @property
    def atomics(self):
        return self.__dict__.setdefault("_atomics", set())

    def declare(self, t, annot, module):
        if isinstance(annot, ast.Constant):
            self.kinds.setdefault(t, annot.value)
            if annot.value == "atomic":
                self.atomics.add(t)
            return
        super().declare(t, annot, module)

    @property
    def kinds(self):
        return self.__dict__.setdefault("_kinds", {})

    def call_ext(self, q, args, kwargs, st, node):
        if q == "std.async_" or q == "std.thread":
            pol, rest = None, list(args)
            if rest and rest[0].op == "const" and isinstance(rest[0].a[0], str):
                pol = rest.pop(0).a[0]
            fn = self.content(rest[0], st) if rest else None
            if fn is None or fn.op not in ("fn", "bound"):
                return None
            return self.spawn(q[4:], pol, fn, rest[1:], st, node)
        if q == "std.visit" and len(args) == 2:
            fs = self.content(args[0], st)
            if fs.op == "tuple" and len(fs.a[0]) == 2:
                c = mk("holds", self.content(args[1], st), 0)
                return self.call(phi(c, fs.a[0][0], fs.a[0][1]), [args[1]], [], st, node)
            return None
        if q.startswith("std.") and q[4:] in INPLACE:
            n = INPLACE[q[4:]]
            base = args[0]
            A = tuple(self.content(a, st) for a in args)
            self.log("algo", st, node, name=q[4:], obj=base, args=A, iargs=tuple(args), n=n, old=self.content(base, st))
            tgt = base.a[0] if base.op == "flat" else base
            c = self.content(tgt, st)
            st.heap[("c", tgt)] = mk("algo", q[4:], c, tuple(a for k, a in enumerate(A) if k not in (0, 2, 4) or k >= n))
            for a in args[n:]:
                if a.op == "new" and a.a[0].startswith("cxx:"):
                    st.heap[("c", a)] = mk("mutated", "draw", self.content(a, st), (), self.site())
            return NONE
        if q == "cxx.placement_new" and len(args) == 2:
            dst, src = args
            self.log("placement", st, node, obj=dst, value=src)
            for k in list(st.heap):
                if k[0] == "a" and k[1] is dst:
                    del st.heap[k]
            for k, x in list(st.heap.items()):
                if k[0] == "a" and k[1] is src:
                    st.heap[("a", dst, k[2])] = x
            if self.cls_of(src) is not None:
                self.types[dst] = self.cls_of(src)
            return dst
        if q == "cxx.copy" and len(args) == 1:
            return self.copy(args[0], st, node)
        if q == "cxx.vector":
            A = [self.content(a, st) for a in args]
            if is_int(A[0]) and A[0].a[0] == 0:
                return self.newobj("list", mk("list", ()), st)
            return self.newobj("list", mk("rep", A[0], args[1] if len(args) > 1 else ZERO), st)
        if q == "cxx.resized":
            A = [self.content(a, st) for a in args]
            return self.newobj("list", mk("rep", A[1], args[2] if len(args) > 2 else ZERO, A[0]), st)
        if q == "cxx.atomic":
            init = self.content(args[0], st) if args else ZERO
            t = self.newobj("atomic", init, st)
            self.log("atomicnew", st, node, term=t, init=init)
            return t
        if q == "cxx.flat":
            return mk("flat", args[0], args[1].a[0])
        if q == "cxx.new" and args:
            A = tuple(self.content(a, st) for a in args[1:])
            ty = args[0].a[0] if args[0].op == "const" else "?"
            t = mk("new", "cxx:" + ty, (), (), self.site())
            st.heap[("c", t)] = mk("made", ty, A)
            self.log("cxxnew", st, node, term=t, type=ty, args=A)
            return t
        if q in ("numpy.empty", "numpy.zeros") and args:
            a = self.content(args[0], st)
            return self.newobj("ndarray", mk("zeros" if q == "numpy.zeros" else "empty", a if a.op == "tuple" else mk("tuple", (a,))), st)
        if q == "cxx.sparse":
            return self.newobj("sparse", mk("zeros", self.content(args[0], st)), st)
        if q == "cxx.from_triplets":
            A = [self.content(a, st) for a in args]
            sh = A[0]
            t = mk("triplets", sh, self.deep(args[1], st), *A[2:])
            self.log("triplets", st, node, shape=sh, items=t.a[1], term=t)
            return self.newobj("sparse", t, st)
        return super().call_ext(q, args, kwargs, st, node)

    def copy(self, x, st, node):
        c = self.cls_of(x)
        if c is not None:
            t = mk("new", c.qual, (), (), self.site())
            m = c.find("__copy_ctor__")
            if m is not None:
                self.call_func(m, [t, x], [], st, node, selfterm=t, cls=c)
                return t
            for k in reversed(c.mro()):
                for n in k.annots:
                    st.heap[("a", t, n)] = self.getattr_(x, n, st, node)
            return t
        co = self.content(x, st)
        if co.op in ("list", "comp", "append", "concat", "rep", "algo", "store", "zeros", "empty", "triplets", "set", "setadd", "mu") or x.op == "new":
            kind = x.a[0] if x.op == "new" and isinstance(x.a[0], str) else "list"
            t = self.newobj(kind, co, st)
            for k, v in list(st.heap.items()):
                if k[0] == "a" and k[1] is x:
                    st.heap[("a", t, k[2])] = v
            return t
        return self.conv("copy", co)

    def spawn(self, how, policy, fn, args, st, node):
        sid = self.site()
        self.log("spawn", st, node, sid=sid, how=how, policy=policy, fn=fn)
        self.workers.append(sid)
        tries, self.tries = self.tries, ()
        try:
            v = self.call(fn, args, [], st, node)
        finally:
            self.workers.pop()
            self.tries = tries
        self.worker_info[sid] = (sid, self.site(), fn)
        fut = mk("future", sid, how, v)
        return fut


def fill_of(c):
    """Default element of a sized vector."""
    while c.op in ("store", "algo", "mu", "loopout"):
        c = c.a[0] if c.op == "store" else c.a[1] if c.op in ("algo", "loopout") else c.a[3]
    return c.a[1] if c.op == "rep" else None


def flat_read(o, i, st, I):
    """Element i of a matrix seen as a flat buffer: m[r, c] when i is r * width + c."""
    m, lay = o.a
    return mk("idx", mk("flat", I.content(m, st), lay), i)


class Native:
    """All native modules of the repository in one project."""

    def __init__(self, repo, names=None):
        self.repo = repo
        self.units = cxx.load_all(repo, names)
        self.proj = cxx.NativeProject(repo)
        self.mods = {n: u.module(self.proj) for n, u in self.units.items()}

    def func(self, mod, name):
        m = self.mods[mod]
        return m.funcs.get(name)

    def funcs(self):
        """Every translated function and method: (module name, Func, Class or None)."""
        for n, m in self.mods.items():
            for f in m.funcs.values():
                yield n, f, None
            for c in m.classes.values():
                for f in c.methods.values():
                    yield n, f, c

    def run(self, f, cls=None, facts=(), args=None, st=None, interp=None, selfterm=None):
        I = interp or NativeInterp(self.proj)
        st = st if st is not None else State()
        st.path = tuple(facts)
        if cls is not None and not f.is_static:
            selfterm = selfterm if selfterm is not None else sym("self")
            if selfterm not in I.types and selfterm.op != "new":
                I.types[selfterm] = cls
        I.pending_raises = []
        try:
            v = I.run(f, args=args, st=st, selfterm=selfterm, cls=cls)
        except Unreachable:
            v = None
        return I, st, v
