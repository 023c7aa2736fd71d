"""C03: caller-owned data is never modified."""
import ast
from ..common import *
from ..norm import norm
from ..interp import LIST_MUT, VALUE_MUT, LAYOUT_MUT
from .c16 import concrete, members, outcome, is_static, is_abstract

LEVEL = "proof"
TECHNIQUE = "static analysis: effect and may-share analysis of every in-place operation against the buffers reachable from the caller's arguments"
MIN_OBLIGATIONS = 100
EXPLANATION = ("Every public function, constructor and method is analysed symbolically (methods on a constructed object, recommenders also on a learnt one). Each in-place operation found "
               "(item store, augmented assignment, mutating method, attribute rebinding, in-place library call) is traced to the object it writes: copies, astype, dense conversions and arithmetic give "
               "fresh storage, while views, slices of arrays, tocsr/csr_matrix/asarray/astype(copy=False) and attributes share the caller's. A write to storage that may be shared with an argument is a violation.")
ASSUMPTIONS = ["results of library calls that are not known to return views are fresh", "native routines receive copies or const references of Python arguments"]

SPARSE = ("InteractionMatrix", "csr_matrix", "csc_matrix", "spmatrix", "coo_matrix", "sps.")
DENSE = ("ndarray", "DenseScoreArray", "DenseMatrix", "UserIndexArray", "NDArray")
FRAME = ("DataFrame", "Series")
CONT = ("List", "Dict", "Sequence", "Iterable", "list", "dict", "Mapping", "Set", "Iterator")
INPLACE_FN = {"numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.putmask", "numpy.copyto", "numpy.random.shuffle", "random.shuffle", "numpy.put_along_axis",
              "sklearn.utils.sparsefuncs.inplace_row_scale", "sklearn.utils.sparsefuncs.inplace_column_scale", "sklearn.utils.sparsefuncs.inplace_csr_row_scale"}
MUT = LIST_MUT | VALUE_MUT | LAYOUT_MUT


class Owners:
    def __init__(self, funcs):
        self.kinds = {}
        self.fresh = set()
        for f in funcs:
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.annotation is not None and x.arg not in ("self", "cls"):
                    self.kinds.setdefault(x.arg, set()).update(kinds(ast.unparse(x.annotation)))
                else:
                    self.kinds.setdefault(x.arg, set())
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    self.fresh.add(x.arg)

    def kind(self, s):
        return self.kinds.get(s.a[0], set())

    def of(self, t, same=False, elems=False):
        """{caller symbol: how} whose storage t may share; same: only where t may be the caller's very object."""
        out = {}

        def put(s, how):
            out.setdefault(s, how)

        def rec(t, how, depth):
            if depth > 60:
                return
            op = t.op
            if op == "sym":
                if t.a[0] in self.kinds and t.a[0] not in self.fresh and t.a[0] not in ("self", "cls"):
                    put(t, how)
            elif op == "conv":
                k = t.a[0]
                extra = dict(x for x in t.a[2:] if isinstance(x, tuple) and len(x) == 2)
                copy = extra.get("copy")
                if copy is not None and is_const(copy, True):
                    return
                if k in ("copy", "toarray", "lil", "dok", "tolist", "list", "tuple", "float", "sparse2arr", "float32", "set"):
                    return
                if k == "astype":
                    if copy is None or not is_const(copy, False):
                        return
                if k == "coo" and not "coo" in "".join(self.kind(root(t))):
                    if copy is None:
                        return
                inner = t.a[1]
                if k in ("csr", "csc", "coo") and inner.op == "conv" and inner.a[0] in ("csr", "csc", "coo", "lil", "dok") and inner.a[0] != k:
                    return
                if same and k in ("csr", "csc", "coo") and "self" not in extra:
                    return
                rec(t.a[1], f"{k}({how})" if how else k, depth + 1)
            elif op == "idx":
                o, i = t.a
                r = root(o)
                if same:
                    if r.op == "sym" and "container" in self.kind(r) and not is_slice(i):
                        rec(o, how, depth + 1)
                    return
                if sparse_like(self, o):
                    return
                if basic(i) is False:
                    return
                if basic(i) is None and not (r.op == "sym" and self.kind(r) & {"container", "frame"}):
                    return
                rec(o, "view " + how, depth + 1)
            elif op == "attr":
                if t.a[1] in ("data", "indices", "indptr", "T", "values", "row", "col", "A", "flat", "loc", "iloc", "columns", "index", "A1"):
                    if same:
                        return
                    if t.a[1] in ("row", "col") or t.a[1] in ("A",):
                        return
                    rec(t.a[0], f"{how}.{t.a[1]}", depth + 1)
            elif op == "T":
                if not same:
                    rec(t.a[0], how + ".T", depth + 1)
            elif op == "phi":
                rec(t.a[1], how, depth + 1)
                rec(t.a[2], how, depth + 1)
            elif op == "store":
                rec(t.a[0], how, depth + 1)
            elif op == "mutated":
                rec(t.a[1], how, depth + 1)
            elif op == "mu":
                rec(t.a[3], how, depth + 1)
            elif op == "loopout":
                rec(t.a[1], how, depth + 1)
            elif op == "last":
                rec(t.a[0], how, depth + 1)
            elif op == "elem":
                d = t.a[0]
                while d.op == "conv" and d.a[0] in ("list", "tuple", "copy") or d.op in ("items", "values"):
                    d = d.a[1] if d.op == "conv" else d.a[0]
                r = root(d)
                if r.op == "sym" and ("container" in self.kind(r) or d is t.a[0]) and not sparse_like(self, d) and "frame" not in self.kind(r):
                    rec(d, "element of " + how, depth + 1)
        rec(t, "", 0)
        return out


def kinds(ann):
    out = set()
    for names, k in ((SPARSE, "sparse"), (DENSE, "dense"), (FRAME, "frame"), (CONT, "container")):
        if any(n in ann for n in names):
            out.add(k)
    if "coo" in ann:
        out.add("coo")
    return out


def sparse_like(O, o):
    """Is o certainly a sparse matrix (slicing it copies)?"""
    while o.op in ("conv", "store", "phi", "mu"):
        if o.op == "conv":
            if o.a[0] in ("csr", "csc", "coo", "lil", "dok"):
                return True
            if o.a[0] in ("asarray", "toarray", "contig"):
                return False
            o = o.a[1]
        else:
            o = {"store": lambda: o.a[0], "phi": lambda: o.a[1], "mu": lambda: o.a[3]}[o.op]()
    if o.op == "T":
        return sparse_like(O, o.a[0])
    if o.op == "sym":
        return "sparse" in O.kind(o) and "dense" not in O.kind(o)
    if o.op in ("sparse", "sparse3"):
        return True
    return False


def is_slice(i):
    return i.op == "slice" or i.op == "tuple" and any(x.op == "slice" for x in i.a[0])


def basic(i):
    """True: basic indexing (view); False: fancy or boolean indexing (copy); None: unknown."""
    if i.op in ("slice",) or is_int(i) or i is NONE or i.op in ("pos", "toint"):
        return True
    if i.op == "const":
        return True
    if i.op == "tuple":
        r = [basic(x) for x in i.a[0]]
        return False if False in r else (None if None in r else True)
    if i.op in ("list", "comp", "arange", "nonzero", "not", "eq", "lt", "le", "and", "or", "in", "conv", "range"):
        return False
    if i.op == "lin":
        return None
    return None


def sites(I, st, effs, O):
    """(effect, description, target term, same-object only)."""
    for e in effs:
        if e.kind == "store":
            yield e, "item assignment", e.obj, False
        elif e.kind == "delitem":
            yield e, "item deletion", e.obj, False
        elif e.kind == "mutcall":
            yield e, f".{e.name}()", e.obj, e.name in LIST_MUT and e.name not in ("sort",)
        elif e.kind == "aug":
            t = e.target
            r = root(t)
            if t.op == "const":
                continue
            k = O.kind(r) if r.op == "sym" else set()
            if e.name is not None or t.op in ("sym",):
                if t.op == "conv" and t.a[0] in ("float",):
                    continue
                sp = sparse_like(O, t)
                if sp and e.op not in ("Mult", "Div"):
                    continue
                if r.op == "sym" and not k:
                    continue
                if r.op == "sym" and k == {"container"} and e.op != "Add":
                    continue
                yield e, f"in-place {e.op}", t, False
            else:
                yield e, f"in-place {e.op}", t, False
        elif e.kind == "setattr":
            if e.name in ("data", "indices", "indptr", "columns", "index", "values", "shape"):
                yield e, f"rebinding .{e.name}", e.obj, True
        elif e.kind == "call":
            f = e.fn
            kw = e.d.get("ikwargs") or {}
            ia = e.d.get("iargs") or ()
            if f.op == "ext":
                if f.a[0] in INPLACE_FN or f.a[0].endswith(".at") and f.a[0].startswith("numpy"):
                    if ia:
                        yield e, f.a[0], ia[0], False
                if f.a[0] == "numpy.nan_to_num" and is_const(kw.get("copy", TRUE), False) and ia:
                    yield e, f.a[0] + "(copy=False)", ia[0], False
            elif f.op == "attr":
                if is_const(kw.get("inplace", FALSE), True):
                    yield e, f".{f.a[1]}(inplace=True)", f.a[0], True
                elif f.a[1] == "shuffle" and ia:
                    yield e, ".shuffle()", ia[0], False
                elif f.a[1] in MUT or f.a[1] in ("sort", "itemset", "setfield", "byteswap", "setflags"):
                    r = root(f.a[0])
                    if r.op == "sym" and O.kind(r):
                        yield e, f".{f.a[1]}()", f.a[0], f.a[1] in LIST_MUT and f.a[1] != "sort"
            for k in ("out",):
                if k in kw:
                    o = kw[k]
                    for x in (o.a[0] if o.op == "tuple" else (o,)):
                        if x.op != "const":
                            yield e, f"{k}= of {short(f, 40)}", x, False


def judge(ctx, q, I, st, effs, O):
    n = 0
    for e, what, t, same in sites(I, st, effs, O):
        n += 1
        t2 = t
        own = O.of(I.deep(t, st) if t.op == "new" and t.a[0] not in ("list", "dict", "set") else t, same)
        construct_ = f"{q}: {what} on {short(norm(t), 60)}"
        if own:
            s, how = sorted(own.items(), key=lambda kv: kv[0].a[0])[0]
            ctx.ob("caller-data-unchanged", construct_, False, f"{what} writes to storage of argument {s.a[0]}" + (f" (through {how.strip()})" if how.strip() else ""), e.loc)
        else:
            ctx.ob("caller-data-unchanged", construct_, True, "", e.loc)
    if not n:
        ctx.ob("no-in-place-operation", q, True)


def functions(ctx):
    for m in ctx.proj.modules.values():
        if m.is_stub:
            continue
        for f in m.funcs.values():
            if not f.name.startswith("_"):
                yield f


def inits(c):
    return [k.methods["__init__"] for k in c.mro() if "__init__" in k.methods]


def one_function(ctx, f):
    O = Owners([f])
    I, st, v = analyse(ctx, f)
    judge(ctx, f.qual.replace("irspack.", ""), I, st, I.effects, O)


def public(c):
    out = {}
    for k in c.mro():
        for f in k.methods.values():
            if not f.name.startswith("_") and f.name not in out and not f.is_stub and not is_abstract(f):
                out[f.name] = f
    return out


def one_class(ctx, c, learn):
    I, st, o = construct(ctx, c)
    ini = inits(c)
    judge(ctx, f"{c.name}()", I, st, I.effects, Owners(ini))
    states = [("", st)]
    ms = public(c)
    if learn and "learn" in ms:
        v, s, effs = outcome(ctx, c, ms["learn"], o, st, I)
        judge(ctx, f"{c.name}.learn", I, s, effs, Owners(ini + [ms["learn"]]))
        states.append((" after learning", s))
    for name, f in sorted(ms.items()):
        if is_static(f):
            if any((getattr(d, "id", None) or getattr(d, "attr", None)) == "setter" for d in f.node.decorator_list):
                continue
            I2, st2, v2 = analyse(ctx, f, c, selfterm=mk("cls", c.qual))
            judge(ctx, f"{c.name}.{name}", I2, st2, I2.effects, Owners([f]))
            continue
        if name == "learn" and learn:
            continue
        for tag, s0 in states:
            try:
                v, s, effs = outcome(ctx, c, f, o, s0, I)
            except AnalysisError as ex:
                ctx.ob("analysable", f"{c.name}.{name}{tag}", None, str(ex), f.loc())
                continue
            judge(ctx, f"{c.name}.{name}{tag}", I, s, effs, Owners(ini + [f]))
    ctx.saw(*I.analysed)


def check(ctx):
    for f in functions(ctx):
        ctx.guard(one_function, ctx, f)
    conc = {c.qual for c in concrete(ctx)}
    for c in ctx.proj.all_classes():
        if c.module.is_stub or not public(c) or any(b in ("Enum", "IntEnum") for b in base_names(c)):
            continue
        if c.name.startswith("_"):
            continue
        ctx.guard(one_class, ctx, c, c.qual in conc)


def base_names(c):
    return [getattr(b, "id", None) or getattr(b, "attr", None) for b in c.node.bases]
