"""Front end for the native sources.

clang parses each translation unit (against declaration-only nanobind headers) and
dumps its syntax tree; nothing is compiled to code and nothing runs.  The tree of
every function (template instantiations where the bindings create them) is
re-expressed statement by statement as a Python syntax tree whose line numbers are
those of the C++ source, so the dataflow analysis of interp.py applies to it:
Eigen views become slices, inner iterators become CSR ranges, raw pointers and
iterators become (base, offset) pairs, lambdas become nested functions whose
by-value captures are default arguments.
"""
import ast
import json
import os
import re
import subprocess
import threading

from .pyproj import AnalysisError, Module, Project

UNITS = {
    "_core_evaluator": "cpp_source/evaluator.cpp",
    "_util_cpp": "cpp_source/util.cpp",
    "_knn": "cpp_source/knn/wrapper.cpp",
    "_ials_core": "cpp_source/als/wrapper.cpp",
}
STRIP = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
         "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
         "CXXConstCastExpr", "CXXStdInitializerListExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "FullExpr"}
TRANSPARENT = {"array", "noalias", "matrix", "eval", "derived", "const_cast_derived", "selfadjointView", "triangularView", "real"}
DROP = {"makeCompressed", "reserve", "shrink_to_fit"}
EXC = {"invalid_argument": "ValueError", "runtime_error": "RuntimeError", "out_of_range": "IndexError", "domain_error": "ValueError",
       "logic_error": "RuntimeError", "exception": "Exception", "bad_alloc": "MemoryError", "length_error": "ValueError"}
MATH = {"sqrt", "log", "log2", "log10", "exp", "pow", "floor", "ceil", "isfinite", "isnan", "isinf", "abs", "fabs", "round", "log1p", "expm1"}
ALGOS = {"sort", "partial_sort", "nth_element", "shuffle", "stable_sort", "accumulate", "set_intersection", "copy", "fill", "iota",
         "reverse", "unique", "lower_bound", "upper_bound", "find", "count", "max_element", "min_element", "transform", "for_each",
         "inserter", "back_inserter", "any_of", "all_of", "none_of", "equal", "distance", "advance", "swap", "is_sorted", "binary_search",
         "set_union", "set_difference", "includes", "rotate", "find_if", "count_if", "remove", "remove_if", "copy_if", "next", "prev", "inner_product"}


class Unsupported(Exception):
    pass


def _objects(text):
    dec = json.JSONDecoder()
    i, n = 0, len(text)
    while True:
        while i < n and text[i].isspace():
            i += 1
        if i >= n:
            return
        o, i = dec.raw_decode(text, i)
        yield o


def dump(repo, rel):
    here = os.path.dirname(os.path.abspath(__file__))
    cmd = ["clang++", "-std=c++17", "-fsyntax-only", "-I/usr/include/eigen3", "-I" + os.path.join(here, "nbstub"), "-DKNN=irspack_KNN", "-w",
           "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=irspack", os.path.join(repo, rel)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise AnalysisError(f"clang cannot parse {rel}: {p.stderr[:600]}")
    return p.stdout


_CACHE = {}
_LOCK = threading.Lock()


def load(repo, name):
    """The translated module of one extension -> NativeModule."""
    return load_all(repo, [name])[name]


def load_all(repo, names=None):
    names = list(names or UNITS)
    todo = [n for n in names if (repo, n) not in _CACHE]
    res = {}

    def work(n):
        try:
            res[n] = dump(repo, UNITS[n])
        except AnalysisError as e:
            res[n] = e
        except OSError as e:
            res[n] = AnalysisError(f"clang front end unavailable: {e}")

    ths = [threading.Thread(target=work, args=(n,)) for n in todo]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for n in todo:
        if isinstance(res[n], Exception):
            raise res[n]
        _CACHE[(repo, n)] = Unit(repo, n, res[n])
    return {n: _CACHE[(repo, n)] for n in names}


class NativeProject(Project):
    """A Project holding translated native modules only."""

    def __init__(self, root):
        self.root = root
        self.base = root
        self.modules = {}


ALIASES = {}


def norm_type(s):
    s = norm_type0(s)
    for _ in range(3):
        t = re.sub(r"(?<![\w:])(\w+)(<[^<>]*>)?(?![\w:<])", lambda m: ALIASES.get(m.group(1), m.group(0)) if m.group(1) in ALIASES else m.group(0), s)
        if t == s or len(t) > 400:
            break
        s = t
    return s


def norm_type0(s):
    s = re.sub(r"\b(struct|class|const|typename|volatile)\b", " ", s or "")
    s = s.replace("irspack_KNN::", "").replace("irspack::", "").replace("sparse_util::", "").replace("evaluation::", "").replace("ials::", "")
    s = re.sub(r"\s+", " ", s)
    s = re.sub(r"\s*([<>,&*()])\s*", r"\1", s)
    return s.strip()


def tyof(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def bare(t):
    t = norm_type(t)
    return t.rstrip("&").rstrip("*").strip() if not t.endswith("*") else t


def template_args(t):
    """Top-level template arguments of a type string."""
    i = t.find("<")
    if i < 0:
        return []
    out, depth, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch == "<" or ch == "(":
            depth += 1
        if ch == ">" or ch == ")":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def kind_of(t):
    """Coarse classification of a C++ type string."""
    t = norm_type(t)
    if t.endswith("&"):
        t = t.rstrip("&")
    if "InnerIterator" in t:
        return "inner"
    if t.endswith("*"):
        return "ptr"
    h = t.split("<")[0]
    h = h.split("::")[-1] if not h.startswith("__gnu") else h
    if "__normal_iterator" in t.split("<")[0] or t.endswith("iterator"):
        return "iter"
    tail = t.rsplit(">", 1)[-1] if "<" in t else ""
    if tail.startswith("::"):
        return "scalar" if tail in ("::Scalar", "::StorageIndex", "::Index") else "other"
    m = {"vector": "vec", "SparseMatrix": "sparse", "Matrix": "dense", "Ref": "dense", "Block": "dense", "Map": "dense", "atomic": "atomic",
         "future": "future", "thread": "thread", "pair": "pair", "tuple": "tuple", "unordered_set": "set", "set": "set", "map": "map",
         "unordered_map": "map", "basic_string": "str", "string": "str", "variant": "variant", "Triplet": "tuple", "initializer_list": "vec",
         "array": "vec", "optional": "opt", "mersenne_twister_engine": "rng", "basic_stringstream": "stream", "stringstream": "stream", "mt19937": "rng",
         "function": "fn", "list": "vec", "deque": "vec", "atomic_base": "atomic", "__atomic_base": "atomic"}
    if h in m:
        return m[h]
    if t in ("int", "long", "unsigned long", "unsigned int", "float", "double", "bool", "size_t", "std::size_t", "int64_t", "char", "short", "long long",
             "unsigned long long", "unsigned char", "uint64_t", "std::int64_t", "auto", "unsigned", "int32_t", "uint32_t"):
        return "scalar"
    if t.startswith("Eigen::"):
        return "dense"
    return "other"


def row_major(t):
    a = template_args(norm_type(t))
    if "SparseMatrix" in t and len(a) >= 2:
        return a[1] in ("1", "Eigen::RowMajor", "RowMajor") or a[1].endswith("RowMajor")
    return False


class Fn:
    """One translated function."""

    def __init__(self, decl, cls, pyname):
        self.decl, self.cls, self.pyname = decl, cls, pyname
        self.lambdas = {}
        self.casts = []
        self.error = None


class Cls:
    def __init__(self, decl, pyname):
        self.decl, self.pyname = decl, pyname
        self.fields = {}
        self.methods = []
        self.ctors = []
        self.bases = []
        self.key = None


class Unit:
    def __init__(self, repo, name, text):
        self.repo, self.name = repo, name
        self.rel = UNITS[name]
        self.decls = {}            # id -> decl node
        self.fns = {}              # id -> Fn
        self.classes = {}          # id -> Cls
        self.byname = {}           # pyname -> Fn (free functions)
        self.clskey = {}           # normalised type string -> Cls
        self.enums = {}
        self.enumdecls = {}
        self.errors = []
        self.lambdas = {}          # lambda name -> dict(byref, bycopy, this, line)
        self.casts = []            # (function, line, from, to, explicit)
        self.src = {}
        self.defaults = {}
        self.scalars = {}
        self.init_fn = None
        self.lamcount = 0
        tops = list(_objects(text))
        if not tops:
            raise AnalysisError(f"nothing was parsed from {self.rel}")
        for t in tops:
            self._locate(t)
        ALIASES.clear()
        for t in tops:
            self._collect(t, None, "")
        self._name_functions()
        self._build()
        self.aliases = dict(ALIASES)

    # ---- locations -------------------------------------------------------------------
    def _locate(self, top):
        state = {"file": None, "line": 0}

        def pos(p):
            if not p:
                return
            for k in ("spellingLoc", "expansionLoc"):
                if k in p:
                    pos(p[k])
            if "offset" in p:
                if "file" in p:
                    state["file"] = p["file"]
                if "line" in p:
                    state["line"] = p["line"]
                p["_line"], p["_file"] = state["line"], state["file"]

        def rec(n):
            if not isinstance(n, dict):
                return
            pos(n.get("loc"))
            r = n.get("range")
            if r:
                pos(r.get("begin"))
                pos(r.get("end"))
            b = (r or {}).get("begin") or {}
            b = b.get("expansionLoc", b)
            l = n.get("loc") or {}
            l = l.get("expansionLoc", l)
            n["_line"] = b.get("_line") or l.get("_line") or 0
            n["_file"] = b.get("_file") or l.get("_file")
            for c in n.get("inner", ()):
                rec(c)

        rec(top)

    def text(self, n):
        r = n.get("range") or {}
        b, e = r.get("begin") or {}, r.get("end") or {}
        b, e = b.get("expansionLoc", b), e.get("expansionLoc", e)
        f = b.get("_file")
        if not f or "offset" not in b or "offset" not in e:
            return ""
        if f not in self.src:
            try:
                with open(f, "rb") as h:
                    self.src[f] = h.read()
            except OSError:
                self.src[f] = b""
        return self.src[f][b["offset"]:e["offset"] + e.get("tokLen", 0)].decode("utf8", "replace")

    # ---- declarations ----------------------------------------------------------------
    def _collect(self, n, cls, ns):
        k = n.get("kind")
        if k in ("NamespaceDecl", "LinkageSpecDecl", "TranslationUnitDecl"):
            for c in n.get("inner", ()):
                self._collect(c, None, ns + n.get("name", "") + "::")
        elif k == "FunctionDecl":
            self._fn(n, None)
        elif k == "FunctionTemplateDecl":
            fs = [c for c in n.get("inner", ()) if c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl")]
            spec = [f for f in fs[1:] if self._body(f)]
            for f in (spec or fs[:1]):
                f["_pattern"] = not spec
                self._fn(f, cls)
            if fs:
                self.decls[n["id"]] = n
        elif k == "ClassTemplateDecl":
            rs = [c for c in n.get("inner", ()) if c.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl")]
            spec = [r for r in rs if r["kind"] == "ClassTemplateSpecializationDecl" and r.get("completeDefinition", True) and r.get("inner")]
            for r in (spec or rs[:1]):
                self._cls(r)
        elif k == "CXXRecordDecl" and n.get("completeDefinition"):
            self._cls(n, cls)
        elif k == "EnumDecl":
            i = 0
            for c in n.get("inner", ()):
                if c.get("kind") == "EnumConstantDecl":
                    self.enums[c["id"]] = (n.get("name"), c.get("name"))
                    self.enumdecls[n.get("name")] = n
                    i += 1
        elif k == "VarDecl":
            self.decls[n["id"]] = n
        elif k in ("TypeAliasDecl", "TypedefDecl"):
            self._alias(n.get("name"), n)
        elif k == "TypeAliasTemplateDecl":
            for c in n.get("inner", ()):
                if c.get("kind") == "TypeAliasDecl":
                    self._alias(n.get("name"), c)

    def _alias(self, name, n):
        q = norm_type0((n.get("type") or {}).get("qualType") or "")
        self.scalars.setdefault(name, norm_type0((n.get("type") or {}).get("desugaredQualType") or "") or q)
        t = q if q.startswith("Eigen::") else norm_type0((n.get("type") or {}).get("desugaredQualType") or "") or q
        if name in ("Real", "Base", "Triplet", "Integer", "IndexType", "StorageIndex"):
            return
        if t.startswith("Eigen::") and "decltype" not in t and "::InnerIterator" not in t or t.startswith("std::variant"):
            ALIASES[name] = t

    @staticmethod
    def _body(f):
        for c in f.get("inner", ()):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return c
        return None

    def _fn(self, n, cls):
        self.decls[n["id"]] = n
        if n.get("previousDecl") and n["previousDecl"] in self.fns and not self._body(n):
            self.fns[n["id"]] = self.fns[n["previousDecl"]]
            return
        f = Fn(n, cls, n.get("name", "fn"))
        self.fns[n["id"]] = f
        if n.get("previousDecl") in self.fns:
            self.fns[n["previousDecl"]].decl = n
            self.fns[n["id"]] = self.fns[n["previousDecl"]]
            return
        if cls is not None:
            (cls.ctors if n["kind"] == "CXXConstructorDecl" else cls.methods).append(f)

    def _cls(self, n, outer=None):
        c = Cls(n, n.get("name", "anon"))
        args = [norm_type(a.get("type", {}).get("desugaredQualType") or a.get("type", {}).get("qualType") or str(a.get("value", "")))
                for a in n.get("inner", ()) if a.get("kind") == "TemplateArgument"]
        c.outer = outer
        c.key = c.pyname + (f"<{','.join(args)}>" if args else "")
        c.args = args
        self.classes[n["id"]] = c
        self.decls[n["id"]] = n
        for d in n.get("inner", ()):
            k = d.get("kind")
            if k == "FieldDecl":
                c.fields[d.get("name")] = d
                self.decls[d["id"]] = d
            elif k in ("CXXMethodDecl", "CXXConstructorDecl"):
                if not d.get("isImplicit") or self._body(d):
                    if d.get("explicitlyDefaulted") == "deleted" or d.get("explicitlyDeleted"):
                        continue
                    self._fn(d, c)
            elif k in ("FunctionTemplateDecl", "ClassTemplateDecl", "CXXRecordDecl", "EnumDecl", "TypeAliasDecl"):
                if k == "CXXRecordDecl" and d.get("isImplicit"):
                    continue
                self._collect(d, c, "")
        c.bases = [norm_type(b["type"].get("desugaredQualType") or b["type"].get("qualType")) for b in n.get("bases", ())]

    def _name_functions(self):
        used = {}
        seen = set()
        for c in self.classes.values():
            base = c.pyname
            k = used.get(base, 0)
            used[base] = k + 1
            if k:
                c.pyname = f"{base}__s{k + 1}"
            self.clskey.setdefault(c.key, c)
            if c.outer is not None:
                self.clskey[f"{c.outer.key}::{c.key}"] = c
            self.clskey.setdefault(norm_type(c.key), c)
        for c in self.classes.values():
            cnt = {}
            for f in c.methods:
                nm = pyname(f.pyname)
                i = cnt.get(nm, 0)
                cnt[nm] = i + 1
                f.pyname = nm if i == 0 else f"{nm}__o{i + 1}"
        cnt = dict(used)
        for f in self.fns.values():
            if id(f) in seen or f.cls is not None:
                continue
            seen.add(id(f))
            nm = pyname(f.pyname)
            i = cnt.get(nm, 0)
            cnt[nm] = i + 1
            f.pyname = nm if i == 0 else f"{nm}__o{i + 1}"
            self.byname[f.pyname] = f

    # ---- module ----------------------------------------------------------------------
    def class_for(self, t):
        t = norm_type(t)
        t = t.rstrip("&").rstrip("*").rstrip("&")
        if t.endswith("<>"):
            t = t[:-2]
        c = self.clskey.get(t)
        if c is None:
            h = t.split("<")[0].split("::")[-1]
            cands = [x for x in self.classes.values() if x.key.split("<")[0] == h]
            if "<" not in t and len(cands) == 1:
                return cands[0]
            if "<" in t:
                a = [norm_type(x) for x in template_args(t)]
                for x in cands:
                    if x.args[:len(a)] == a:
                        return x
        return c

    def _build(self):
        body = [ast.Import(names=[ast.alias(name="std")]), ast.Import(names=[ast.alias(name="math")]), ast.Import(names=[ast.alias(name="numpy")]),
                ast.Import(names=[ast.alias(name="scipy.sparse")]), ast.Import(names=[ast.alias(name="cxx")])]
        seen = set()
        defs = []
        for c in self.classes.values():
            defs.append((c.decl["_line"], c.decl.get("_file"), self._class(c)))
        for f in self.fns.values():
            if id(f) in seen or f.cls is not None:
                continue
            seen.add(id(f))
            if f.pyname.startswith("irspack_nanobind_init"):
                self.init_fn = f
                continue
            if self._body(f.decl) is not None:
                for d in self._function(f):
                    defs.append((f.decl["_line"], f.decl.get("_file"), [d]))
        for _, _, ds in defs:
            body.extend(ds)
        tree = ast.Module(body=body, type_ignores=[])
        ast.fix_missing_locations(tree)
        self.tree = tree

    def _class(self, c):
        out = []
        bases = [ast.Name(id=b.pyname, ctx=ast.Load()) for b in (self.class_for(x) for x in c.bases) if b is not None]
        body = []
        for nm, d in c.fields.items():
            t = self.class_for(tyof(d)) or self.class_for((d.get("type") or {}).get("qualType", ""))
            ann = ast.Name(id=t.pyname, ctx=ast.Load()) if t is not None else ast.Constant(value=kind_of(tyof(d)))
            body.append(ast.AnnAssign(target=ast.Name(id=nm, ctx=ast.Store()), annotation=ann, value=None, simple=1))
        for f in c.methods:
            if self._body(f.decl) is not None:
                body.extend(self._function(f))
        user = [f for f in c.ctors if self._body(f.decl) is not None or any(x.get("kind") == "CXXCtorInitializer" for x in f.decl.get("inner", ()))]
        main = [f for f in user if not self._is_copy(c, f)]
        main.sort(key=lambda f: (len(self._params(f.decl)) == 0,))
        copies = [f for f in user if self._is_copy(c, f) and not f.decl.get("isImplicit")]
        subs = []
        for i, f in enumerate(main):
            if i == 0:
                f.pyname = "__init__"
                f.clsname = c.pyname
                body.extend(self._function(f, ctor=True))
            else:
                f.pyname = "__init__"
                f.clsname = f"{c.pyname}__c{i + 1}"
                subs.append((f.clsname, f))
        for f in copies:
            f.pyname = "__copy_ctor__"
            f.clsname = c.pyname
            body.extend(self._function(f, ctor=True))
        n = ast.ClassDef(name=c.pyname, bases=bases, keywords=[], body=body or [ast.Pass()], decorator_list=[], type_params=[])
        self._at(n, c.decl)
        out.append(n)
        for nm, f in subs:
            k = ast.ClassDef(name=nm, bases=[ast.Name(id=c.pyname, ctx=ast.Load())], keywords=[], body=self._function(f, ctor=True) or [ast.Pass()],
                             decorator_list=[], type_params=[])
            self._at(k, f.decl)
            out.append(k)
        return out

    def _params(self, d):
        return [x for x in d.get("inner", ()) if x.get("kind") == "ParmVarDecl"]

    def _is_copy(self, c, f):
        ps = self._params(f.decl)
        return len(ps) == 1 and self.class_for(tyof(ps[0])) is c

    def _at(self, n, src):
        n.lineno = n.end_lineno = src.get("_line") or 1
        n.col_offset = n.end_col_offset = 0
        return n

    def _function(self, f, ctor=False):
        tr = Translator(self, f)
        try:
            return [tr.function(ctor)]
        except (Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get("SA_CXX_DEBUG"):
                raise
            f.error = f"{type(e).__name__}: {e}"
            self.errors.append((f, f.error))
            return []

    def path_of(self, n):
        f = n.get("_file") or os.path.join(self.repo, self.rel)
        return f

    def module(self, proj, name=None):
        m = Module(proj, name or self.name, os.path.join(self.repo, self.rel), False, tree=self.tree)
        m.unit = self
        proj.modules[m.name] = m
        return m


PYKW = {"in", "is", "not", "and", "or", "from", "lambda", "pass", "def", "del", "global", "with", "as", "None", "True", "False", "raise", "yield", "import", "assert",
        "len", "min", "max", "range", "self", "print", "map", "set", "list", "dict", "tuple", "sum", "abs", "filter", "std", "numpy", "math", "cxx", "scipy", "iter",
        "next", "type", "id", "input", "copy", "all", "any", "round", "hash", "object", "slice", "sorted", "zip", "reversed", "int", "float", "str", "bool", "open", "vars", "eval"}


def pyname(n):
    if n is None:
        return "_anon"
    if n.startswith("operator"):
        t = n[len("operator"):].strip()
        return "operator_" + {"()": "call", "=": "assign", "[]": "index", "+=": "iadd", "+": "add", "==": "eq", "<": "lt", "!=": "ne"}.get(t, re.sub(r"\W", lambda m: f"{ord(m.group(0)):x}", t))
    return n


def vname(n):
    return n + "_" if n in PYKW else n


class Translator:
    """Body of one C++ function -> Python statements."""

    def __init__(self, unit, fn):
        self.u, self.fn = unit, fn
        self.out = []
        self.line = fn.decl.get("_line") or 1
        self.tmp = 0
        self.ptr_vars = {}          # decl id -> True (pair representation)
        self.names = {}             # decl id -> python name
        self.taken = {}
        self.inner = {}             # inner-iterator decl id -> (matrix expr, row expr, rowmajor, position name)
        self.refs = {}              # reference decl id -> lvalue node it is bound to
        self.byref = set()          # ids of reference variables/parameters
        self.loopinc = []

    # ---- helpers ---------------------------------------------------------------------
    def L(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.excepthandler)) and not hasattr(x, "lineno"):
                x.lineno = x.end_lineno = self.line
                x.col_offset = x.end_col_offset = 0
        return n

    def emit(self, s):
        self.L(s)
        self.out.append(s)

    def nm(self, i):
        return ast.Name(id=i, ctx=ast.Load())

    def call(self, f, *a):
        if isinstance(f, str):
            parts = f.split(".")
            e = self.nm(parts[0])
            for p in parts[1:]:
                e = ast.Attribute(value=e, attr=p, ctx=ast.Load())
            f = e
        return ast.Call(func=f, args=list(a), keywords=[])

    def mcall(self, o, m, *a):
        return ast.Call(func=ast.Attribute(value=o, attr=m, ctx=ast.Load()), args=list(a), keywords=[])

    def const(self, v):
        return ast.Constant(value=v)

    def attr(self, o, a):
        return ast.Attribute(value=o, attr=a, ctx=ast.Load())

    def sub(self, o, *ix):
        s = ix[0] if len(ix) == 1 else ast.Tuple(elts=list(ix), ctx=ast.Load())
        return ast.Subscript(value=o, slice=s, ctx=ast.Load())

    def slc(self, a, b):
        return ast.Slice(lower=a, upper=b, step=None)

    def bop(self, a, op, b):
        return ast.BinOp(left=a, op=op, right=b)

    def plus(self, a, b):
        if isinstance(a, ast.Constant) and a.value == 0:
            return b
        if isinstance(b, ast.Constant) and b.value == 0:
            return a
        return self.bop(a, ast.Add(), b)

    def fresh(self, base):
        self.tmp += 1
        return f"_{base}{self.tmp}_{self.line}"

    def bind(self, d):
        """Python name of a declared variable (shadowed names get a suffix)."""
        i = d["id"]
        if i in self.names:
            return self.names[i]
        b = vname(d.get("name") or f"_p{len(self.names)}")
        k = self.taken.get(b, 0)
        self.taken[b] = k + 1
        self.names[i] = b if k == 0 else f"{b}__{k + 1}"
        return self.names[i]

    def strip(self, n):
        while n.get("kind") in STRIP or (n.get("kind") == "CXXConstructExpr" and n.get("elidable") and len(n.get("inner", ())) == 1):
            inner = [c for c in n.get("inner", ()) if c]
            if n["kind"] == "SubstNonTypeTemplateParmExpr":
                inner = inner[-1:]
            if n["kind"] in ("CXXDefaultArgExpr", "CXXDefaultInitExpr") and not inner:
                return n
            if not inner:
                return n
            if n.get("castKind") in ("FloatingCast", "FloatingToIntegral", "IntegralToFloating"):
                self.u.casts.append((self.fn, n.get("_line"), tyof(inner[-1]), tyof(n), n["kind"] != "ImplicitCastExpr", n["castKind"], n))
            n = inner[-1] if n["kind"] != "ConstantExpr" else inner[0]
        return n

    def callee(self, n):
        n = self.strip(n)
        return n

    # ---- functions -------------------------------------------------------------------
    def function(self, ctor=False):
        d = self.fn.decl
        args, defaults = [], []
        in_class = self.fn.cls is not None
        static = d.get("storageClass") == "static"
        if in_class and not static:
            args.append(ast.arg(arg="self", annotation=None))
        for p in self.u._params(d):
            args.append(self.param(p, defaults))
        body = self.u._body(d)
        self.out = []
        if ctor:
            self.ctor_inits(d)
        if body is not None:
            self.block(body)
        if not self.out:
            self.out.append(ast.Pass())
        decos = [ast.Name(id="staticmethod", ctx=ast.Load())] if in_class and static else []
        f = ast.FunctionDef(name=self.fn.pyname, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=defaults),
                            body=self.out, decorator_list=decos, returns=None, type_params=[])
        self.line = d.get("_line") or 1
        f.lineno, f.col_offset = self.line, 0
        f._file = d.get("_file")
        self.L(f)
        return f

    def param(self, p, defaults):
        t = tyof(p)
        c = self.u.class_for(t)
        ann = ast.Name(id=c.pyname, ctx=ast.Load()) if c is not None else ast.Constant(value=kind_of(t))
        nm = self.bind(p)
        if norm_type(t).endswith("&"):
            self.byref.add(p["id"])
        if self.scalar_ptr(t):
            self.ptr_vars[p["id"]] = True
        init = [x for x in p.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment") and not x["kind"].endswith("Attr")]
        if init and p.get("init"):
            saved, self.out = self.out, []
            defaults.append(self.ex(init[0]))
            self.out = saved
        elif defaults:
            defaults.append(ast.Constant(value=None))
        return ast.arg(arg=nm, annotation=ann)

    def scalar_ptr(self, t):
        t = norm_type(t)
        if not t.endswith("*"):
            return False
        k = kind_of(t[:-1])
        return k == "scalar" or t[:-1].split("::")[-1] in ("Scalar", "StorageIndex", "Index")

    def ctor_inits(self, d):
        done = set()
        for i in d.get("inner", ()):
            if i.get("kind") != "CXXCtorInitializer":
                continue
            self.line = i.get("_line") or self.line
            inner = [x for x in i.get("inner", ()) if x]
            if "anyInit" in i:
                fname = i["anyInit"].get("name")
                done.add(fname)
                self.line = (inner[0].get("_line") if inner else 0) or self.line
                e = inner[0] if inner else None
                fd = self.fn.cls.fields.get(fname)
                if e is not None and self.strip(e).get("kind") == "CXXDefaultInitExpr" and fd is not None:
                    fi = [x for x in fd.get("inner", ()) if x]
                    e = fi[-1] if fi else e
                if e is None or e.get("kind") == "ImplicitValueInitExpr":
                    continue
                v = self.value(e)
                self.emit(ast.Assign(targets=[ast.Attribute(value=self.nm("self"), attr=fname, ctx=ast.Store())], value=v))
            elif "baseInit" in i:
                b = self.u.class_for(i["baseInit"].get("desugaredQualType") or i["baseInit"].get("qualType"))
                if b is None or not inner:
                    continue
                args = self.args([x for x in self.strip(inner[0]).get("inner", ()) if x])
                self.emit(ast.Expr(value=ast.Call(func=self.attr(self.nm(b.pyname), "__init__"), args=[self.nm("self")] + args, keywords=[])))
            elif "delegatingInit" in i or True:
                if not inner:
                    continue
                e = self.strip(inner[0])
                args = self.args([x for x in e.get("inner", ()) if x])
                main = self.fn.cls
                f = self.pick_ctor(main, e)
                nm = getattr(f, "clsname", main.pyname) if f is not None else main.pyname
                self.emit(ast.Expr(value=ast.Call(func=self.attr(self.nm(nm), "__init__"), args=[self.nm("self")] + args, keywords=[])))

    def pick_ctor(self, c, e):
        want = norm_type((e.get("ctorType") or {}).get("qualType", ""))
        for f in c.ctors:
            if norm_type((f.decl.get("type") or {}).get("qualType", "")) == want:
                return f
        return None

    # ---- statements ------------------------------------------------------------------
    def block(self, n):
        if n.get("kind") == "CompoundStmt":
            for s in n.get("inner", ()):
                self.stmt(s)
        else:
            self.stmt(n)

    def sub_block(self, n):
        saved, self.out = self.out, []
        if n:
            self.block(n)
        r, self.out = self.out, saved
        if not r:
            p = ast.Pass()
            p.lineno, p.col_offset = self.line, 0
            r = [p]
        return r

    def stmt(self, n):
        if not n or "kind" not in n:
            return
        self.line = n.get("_line") or self.line
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n)
        self.expr_stmt(n)

    def s_NullStmt(self, n):
        pass

    def s_CompoundStmt(self, n):
        for s in n.get("inner", ()):
            self.stmt(s)

    def s_DeclStmt(self, n):
        for d in n.get("inner", ()):
            if d.get("kind") == "VarDecl":
                self.line = d.get("_line") or self.line
                self.var(d)
            elif d.get("kind") == "DecompositionDecl":
                raise Unsupported("structured binding")

    def var(self, d):
        t = tyof(d)
        init = [x for x in d.get("inner", ()) if x.get("kind") and not x["kind"].endswith(("Comment", "Attr"))]
        init = init[-1] if init and d.get("init") else None
        nm = self.bind(d)
        k = kind_of(t)
        isref = norm_type(t).endswith("&")
        if isref:
            self.byref.add(d["id"])
        if init is not None and (self.scalar_ptr(t) or k in ("iter",) or self.scalar_ptr(tyof(init)) or kind_of(tyof(init)) == "iter" and k in ("other", "iter")):
            try:
                b, o = self.ptr(init)
            except Unsupported:
                b = None
            if b is not None:
                self.ptr_vars[d["id"]] = True
                self.assign_name(nm + "__b", b)
                self.assign_name(nm + "__o", o)
                return
        if k == "iter" and init is None or (init is not None and k == "iter" and not self.strip(init).get("inner")):
            self.ptr_vars[d["id"]] = True
            return
        if k == "inner":
            self.inner_decl(d, init)
            return
        if isref and init is not None and k == "scalar":
            self.refs[d["id"]] = self.strip(init)
            return
        c = self.u.class_for(t)
        if init is None:
            if c is not None:
                v = self.call(self.nm(c.pyname))
            elif k == "scalar" or k == "ptr":
                return
            else:
                v = self.default(t)
        else:
            v = self.ref(init) if isref else self.value(init)
        if c is not None and kind_of(t) == "other":
            self.emit(ast.AnnAssign(target=ast.Name(id=nm, ctx=ast.Store()), annotation=self.nm(c.pyname), value=v, simple=1))
        else:
            self.assign_name(nm, v)

    def default(self, t):
        k = kind_of(t)
        if k in ("vec",):
            return ast.List(elts=[], ctx=ast.Load())
        if k == "set":
            return self.call("set")
        if k == "map":
            return ast.Dict(keys=[], values=[])
        if k == "str":
            return self.const("")
        if k == "atomic":
            return self.call("cxx.atomic", self.const(0))
        return self.call("cxx.new", self.const(norm_type(t)))

    def assign_name(self, nm, v):
        self.emit(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=v))

    def inner_decl(self, d, init):
        e = self.strip(init)
        a = [x for x in e.get("inner", ()) if x]
        if len(a) < 2:
            raise Unsupported("inner iterator without matrix and row")
        m = self.ref(a[0])
        r = self.ex(a[1])
        mt = self.sparse_type(a[0]) or norm_type(tyof(d))
        self.inner[d["id"]] = (m, r, row_major(mt), self.bind(d) + "__p")

    def sparse_type(self, n):
        for x in (n, self.strip(n)):
            t = norm_type(tyof(x))
            if "SparseMatrix<" in t:
                return t[t.index("SparseMatrix<"):]
        s = self.strip(n)
        if s.get("kind") == "ImplicitCastExpr" or s.get("inner"):
            for c in s.get("inner", ()):
                if isinstance(c, dict) and "SparseMatrix<" in tyof(c):
                    t = norm_type(tyof(c))
                    return t[t.index("SparseMatrix<"):]
        return None

    def s_ReturnStmt(self, n):
        inner = [x for x in n.get("inner", ()) if x]
        if not inner:
            self.emit(ast.Return(value=None))
            return
        e = self.strip(inner[0])
        while e.get("kind") == "CXXConstructExpr" and len([x for x in e.get("inner", ()) if x]) == 1 and kind_of(tyof(e)) == kind_of(tyof(self.strip(e["inner"][0]))):
            e = self.strip(e["inner"][0])
        if e.get("kind") == "DeclRefExpr" and e.get("referencedDecl", {}).get("kind") == "VarDecl" and e["referencedDecl"]["id"] not in self.byref and e["referencedDecl"]["id"] not in self.ptr_vars:
            self.emit(ast.Return(value=self.ex(e)))       # a local is moved out, not copied
            return
        self.emit(ast.Return(value=self.value(inner[0])))

    def s_IfStmt(self, n):
        inner = [x for x in n.get("inner", ())]
        i = 0
        if n.get("hasInit"):
            self.stmt(inner[i])
            i += 1
        if n.get("hasVar"):
            self.stmt(inner[i])
            i += 1
        cond = self.cond(inner[i])
        line = self.line
        then = self.sub_block(inner[i + 1])
        els = self.sub_block(inner[i + 2]) if n.get("hasElse") and len(inner) > i + 2 else []
        self.line = line
        self.emit(ast.If(test=cond, body=then, orelse=els))

    def s_WhileStmt(self, n):
        inner = n.get("inner", [])
        saved, self.out = self.out, []
        cond = self.cond(inner[-2])
        pre, self.out = self.out, saved
        line = self.line
        self.loopinc.append(None)
        body = self.sub_block(inner[-1])
        self.loopinc.pop()
        self.line = line
        if pre:
            brk = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=cond), body=[ast.Break()], orelse=[])
            body = pre + [self.L(brk)] + body
            cond = self.const(True)
        self.emit(ast.While(test=cond, body=body, orelse=[]))

    def s_DoStmt(self, n):
        inner = n.get("inner", [])
        line = self.line
        self.loopinc.append(None)
        body = self.sub_block(inner[0])
        self.loopinc.pop()
        saved, self.out = self.out, []
        cond = self.cond(inner[1])
        pre, self.out = self.out, saved
        self.line = line
        if any(isinstance(x, ast.Continue) for s in body for x in ast.walk(s)):
            raise Unsupported("continue in do-while")
        body = body + pre + [self.L(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=cond), body=[ast.Break()], orelse=[]))]
        self.emit(ast.While(test=self.const(True), body=body, orelse=[]))

    def s_BreakStmt(self, n):
        self.emit(ast.Break())

    def s_ContinueStmt(self, n):
        inc = self.loopinc[-1] if self.loopinc else None
        if inc:
            for s in inc():
                self.out.append(s)
        self.emit(ast.Continue())

    def s_CXXForRangeStmt(self, n):
        inner = n.get("inner", [])
        decls = [x for x in inner if x and x.get("kind") == "DeclStmt"]
        body = inner[-1]
        rng = decls[0]["inner"][0]
        loopvar = decls[-1]["inner"][0]
        ri = [x for x in rng.get("inner", ()) if x]
        it = self.ref(ri[-1])
        line = self.line
        nm = self.bind(loopvar)
        isref = norm_type(tyof(loopvar)).endswith("&")
        if isref:
            self.byref.add(loopvar["id"])
        self.loopinc.append(None)
        scalar = kind_of(tyof(loopvar)) == "scalar"
        if isref and scalar and self.assigns_to(body, loopvar["id"]):
            ix = self.fresh("i")
            seq = self.fresh("seq")
            self.assign_name(seq, it)
            self.refs[loopvar["id"]] = ("py", self.nm(seq), self.nm(ix))
            b = self.sub_block(body)
            self.loopinc.pop()
            self.line = line
            self.emit(ast.For(target=ast.Name(id=ix, ctx=ast.Store()), iter=self.call("range", self.call("len", self.nm(seq))), body=b, orelse=[]))
            return
        b = self.sub_block(body)
        self.loopinc.pop()
        self.line = line
        self.emit(ast.For(target=ast.Name(id=nm, ctx=ast.Store()), iter=it, body=b, orelse=[]))

    def assigns_to(self, n, vid):
        """Does the subtree assign/increment the variable (directly)?"""
        k = n.get("kind")
        if k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CXXOperatorCallExpr"):
            inner = [x for x in n.get("inner", ()) if x]
            op = n.get("opcode", "")
            tgt = None
            if k == "CXXOperatorCallExpr":
                opn = self.op_name(n)
                if opn in ("=", "+=", "-=", "*=", "/=", "++", "--") and len(inner) > 1:
                    tgt = inner[1]
            elif op in ("=",) or op.endswith("=") and op not in ("==", "!=", "<=", ">=") or op in ("++", "--"):
                tgt = inner[0]
            if tgt is not None:
                t = self.strip(tgt)
                if t.get("kind") == "DeclRefExpr" and t.get("referencedDecl", {}).get("id") == vid:
                    return True
        return any(self.assigns_to(c, vid) for c in n.get("inner", ()) if isinstance(c, dict) and c)

    def uses_vars(self, n):
        out = set()

        def rec(x):
            if x.get("kind") == "DeclRefExpr":
                out.add(x.get("referencedDecl", {}).get("id"))
            for c in x.get("inner", ()):
                if isinstance(c, dict):
                    rec(c)

        rec(n)
        return out

    def s_ForStmt(self, n):
        inner = n.get("inner", [])
        init, cv, cond, inc, body = (inner + [{}] * 5)[:5]
        line = self.line
        r = self.canonical(init, cond, inc, body)
        if r is not None:
            d, target, it = r
            self.loopinc.append(None)
            b = self.sub_block(body)
            self.loopinc.pop()
            self.line = line
            self.emit(ast.For(target=ast.Name(id=target, ctx=ast.Store()), iter=it, body=b, orelse=[]))
            return
        if init:
            self.stmt(init)
        # inner iterator loops: for (It it(X, row); it; ++it)
        vid = None
        if init and init.get("kind") == "DeclStmt":
            for d in init.get("inner", ()):
                if d.get("kind") == "VarDecl" and d["id"] in self.inner:
                    vid = d["id"]
        if vid is not None:
            m, r, rm, p = self.inner[vid]
            if self.iter_advanced(body, vid):
                raise Unsupported("inner iterator advanced in the loop body")
            rn = self.fresh("r")
            self.assign_name(rn, r)
            self.inner[vid] = (m, self.nm(rn), rm, p)
            lo = self.sub(self.attr(m, "indptr"), self.nm(rn))
            hi = self.sub(self.attr(m, "indptr"), self.plus(self.nm(rn), self.const(1)))
            self.loopinc.append(None)
            b = self.sub_block(body)
            self.loopinc.pop()
            self.line = line
            self.emit(ast.For(target=ast.Name(id=p, ctx=ast.Store()), iter=self.call("range", lo, hi), body=b, orelse=[]))
            return
        saved, self.out = self.out, []
        test = self.cond(cond) if cond else self.const(True)
        pre, self.out = self.out, saved

        def make_inc():
            s, self.out = self.out, []
            if inc:
                self.expr_stmt(inc)
            r2, self.out = self.out, s
            return r2

        self.loopinc.append(make_inc)
        b = self.sub_block(body)
        self.loopinc.pop()
        b = b + make_inc()
        self.line = line
        if pre:
            b = pre + [self.L(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[]))] + b
            test = self.const(True)
        self.emit(ast.While(test=test, body=b, orelse=[]))

    def iter_advanced(self, body, vid):
        return self.assigns_to(body, vid)

    def canonical(self, init, cond, inc, body):
        if not (init and cond and inc) or init.get("kind") != "DeclStmt":
            return None
        ds = [d for d in init.get("inner", ()) if d.get("kind") == "VarDecl"]
        if len(ds) != 1:
            return None
        d = ds[0]
        if kind_of(tyof(d)) != "scalar":
            return None
        ini = [x for x in d.get("inner", ()) if x]
        if not ini:
            return None
        vid = d["id"]
        c = self.strip(cond)
        if c.get("kind") != "BinaryOperator" or c.get("opcode") not in ("<", "<=", "!="):
            return None
        a, b = [x for x in c["inner"] if x]
        sa = self.strip(a)
        if not (sa.get("kind") == "DeclRefExpr" and sa["referencedDecl"]["id"] == vid):
            return None
        i = self.strip(inc)
        step = None
        if i.get("kind") == "UnaryOperator" and i.get("opcode") == "++":
            t = self.strip(i["inner"][0])
            if t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] == vid:
                step = ast.Constant(value=1)
        elif i.get("kind") == "CompoundAssignOperator" and i.get("opcode") == "+=":
            t = self.strip(i["inner"][0])
            if t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] == vid:
                if c["opcode"] == "!=":
                    return None
                step = i["inner"][1]
        if step is None:
            return None
        if self.assigns_to(body, vid):
            return None
        for v in self.uses_vars(b) | (self.uses_vars(step) if isinstance(step, dict) else set()):
            if v and v != vid and self.assigns_to(body, v):
                return None
        lo = self.ex(ini[-1])
        hi = self.ex(b)
        if c["opcode"] == "<=":
            hi = self.plus(hi, self.const(1))
        nm = self.bind(d)
        args = [lo, hi] + ([self.ex(step)] if isinstance(step, dict) else [])
        if len(args) == 2 and isinstance(lo, ast.Constant) and lo.value == 0:
            args = [hi]
        return d, nm, self.call("range", *args)

    def s_CXXTryStmt(self, n):
        inner = n.get("inner", [])
        line = self.line
        body = self.sub_block(inner[0])
        hs = []
        for c in inner[1:]:
            ci = [x for x in c.get("inner", ()) if x]
            t = None
            if ci and ci[0].get("kind") == "VarDecl":
                self.bind(ci[0])
                e = EXC.get(norm_type(tyof(ci[0])).rstrip("&").split("::")[-1], "Exception")
                t = self.nm(e)
            hb = self.sub_block(ci[-1])
            hs.append(self.L(ast.ExceptHandler(type=t, name=None, body=hb)))
        self.line = line
        self.emit(ast.Try(body=body, handlers=hs, orelse=[], finalbody=[]))

    def s_SwitchStmt(self, n):
        inner = [x for x in n.get("inner", ()) if x]
        e = self.fresh("sw")
        self.assign_name(e, self.ex(inner[0]))
        arms = []
        cur = None
        for s in inner[-1].get("inner", ()):
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                si = [x for x in s.get("inner", ()) if x]
                label = si[0] if s["kind"] == "CaseStmt" else None
                if cur is None or cur[1]:
                    cur = ([label], [])
                    arms.append(cur)
                else:
                    cur[0].append(label)
                s = si[-1]
            if cur is not None:
                cur[1].append(s)
        tree = None
        blocks = []
        for labels, stmts in arms:
            ends = stmts and stmts[-1].get("kind") in ("BreakStmt", "ReturnStmt", "CXXThrowExpr", "ContinueStmt")
            if not ends and (labels, stmts) != arms[-1]:
                raise Unsupported("switch fall-through")
            body = [x for x in stmts if x.get("kind") != "BreakStmt"]
            saved, self.out = self.out, []
            for s in body:
                self.stmt(s)
            b, self.out = self.out, saved
            blocks.append((labels, b or [self.L(ast.Pass())]))
        default = next((b for l, b in blocks if None in l), [])
        tail = default
        for labels, b in reversed([x for x in blocks if None not in x[0]]):
            tests = [ast.Compare(left=self.nm(e), ops=[ast.Eq()], comparators=[self.ex(l)]) for l in labels]
            t = tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.Or(), values=tests)
            tail = [self.L(ast.If(test=t, body=b, orelse=tail))]
        self.out.extend(tail)

    def expr_stmt(self, n):
        e = self.strip(n)
        k = e.get("kind")
        if k == "CXXThrowExpr":
            inner = [x for x in e.get("inner", ()) if x]
            if not inner:
                self.emit(ast.Raise(exc=None, cause=None))
                return
            t = norm_type(tyof(self.strip(inner[0]))).split("::")[-1]
            self.emit(ast.Raise(exc=self.call(EXC.get(t, "Exception")), cause=None))
            return
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = e.get("opcode")
            a, b = [x for x in e["inner"] if x]
            if op == "=":
                self.assign(a, b)
                return
            if op == ",":
                self.expr_stmt(a)
                self.expr_stmt(b)
                return
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                self.aug(a, op[:-1], b)
                return
        if k == "UnaryOperator" and e.get("opcode") in ("++", "--"):
            self.incdec(e["inner"][0], e["opcode"])
            return
        if k == "CXXOperatorCallExpr":
            op = self.op_name(e)
            a = [x for x in e["inner"] if x][1:]
            if op == "=":
                self.assign(a[0], a[1])
                return
            if op in ("+=", "-=", "*=", "/=", "|=", "&="):
                self.aug(a[0], op[:-1], a[1])
                return
            if op in ("++", "--"):
                self.incdec(a[0], op)
                return
            if op == "<<":
                return
        if k == "CXXMemberCallExpr":
            if self.member_stmt(e):
                return
        if k == "CallExpr":
            f = self.std_name(e)
            if f == "assert" or "__assert" in (f or ""):
                return
        if k == "ConditionalOperator":
            c, a, b = [x for x in e["inner"] if x]
            if "assert" in self.u.text(e)[:8] or "assert" in json.dumps(b)[:4000]:
                return
            cc = self.cond(c)
            line = self.line
            saved, self.out = self.out, []
            self.expr_stmt(a)
            x, self.out = self.out, []
            self.expr_stmt(b)
            y, self.out = self.out, saved
            self.line = line
            self.emit(ast.If(test=cc, body=x or [self.L(ast.Pass())], orelse=y))
            return
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "DeclRefExpr"):
            return
        v = self.ex(e)
        if isinstance(v, (ast.Call, ast.IfExp, ast.BoolOp)):
            self.emit(ast.Expr(value=v))

    # ---- assignment ------------------------------------------------------------------
    def unwrap(self, n):
        """Lvalue behind .array()/.noalias()/selfadjointView etc."""
        whole = False
        e = self.strip(n)
        while e.get("kind") == "CXXMemberCallExpr":
            me = self.strip(e["inner"][0])
            if me.get("kind") == "MemberExpr" and me.get("name") in TRANSPARENT:
                e = self.strip(me["inner"][0])
                whole = True
            else:
                break
        return e, whole

    def target(self, n):
        """Python assignment target for an lvalue -> (ast expr in load form, rebindable)."""
        e, whole = self.unwrap(n)
        k = e.get("kind")
        if k == "DeclRefExpr":
            i = e["referencedDecl"]["id"]
            if i in self.refs:
                r = self.refs[i]
                if isinstance(r, tuple):
                    return self.sub(r[1], r[2]), False
                return self.target(r)
            x = self.ex(e)
            if i in self.byref and kind_of(tyof(e)) in ("dense", "sparse", "vec", "set", "map"):
                return x, False
            return x, True
        if k == "MemberExpr" and e.get("name") in ("first", "second"):
            return self.ex(e), True
        if k == "MemberExpr":
            return self.ex(e), True
        return self.ex(e), True

    def store(self, tgt, rebind, v):
        if isinstance(tgt, ast.Subscript):
            self.emit(ast.Assign(targets=[ast.Subscript(value=tgt.value, slice=tgt.slice, ctx=ast.Store())], value=v))
        elif isinstance(tgt, (ast.Name, ast.Attribute)) and rebind:
            if isinstance(tgt, ast.Name):
                self.emit(ast.Assign(targets=[ast.Name(id=tgt.id, ctx=ast.Store())], value=v))
            else:
                self.emit(ast.Assign(targets=[ast.Attribute(value=tgt.value, attr=tgt.attr, ctx=ast.Store())], value=v))
        elif isinstance(tgt, (ast.Name, ast.Attribute)):
            self.emit(ast.Assign(targets=[ast.Subscript(value=tgt, slice=ast.Slice(lower=None, upper=None, step=None), ctx=ast.Store())], value=v))
        elif isinstance(tgt, ast.Call) and isinstance(tgt.func, ast.Attribute):
            self.emit(ast.Expr(value=self.mcall(tgt, "assign_", v)))
        elif isinstance(tgt, ast.Attribute) and tgt.attr == "T":
            raise Unsupported("assignment through a transpose")
        else:
            raise Unsupported(f"assignment target {ast.dump(tgt)[:80]}")

    def is_ptr_var(self, n):
        e = self.strip(n)
        return e.get("kind") == "DeclRefExpr" and e["referencedDecl"]["id"] in self.ptr_vars

    def assign(self, a, b):
        if self.is_ptr_var(a):
            nm = self.names[self.strip(a)["referencedDecl"]["id"]]
            base, off = self.ptr(b)
            self.assign_name(nm + "__b", base)
            self.assign_name(nm + "__o", off)
            return
        v = self.value(b)
        e, whole = self.unwrap(a)
        t, rebind = self.target(a)
        # x.array() = 0 / x.noalias() = expr replace the whole content
        if whole and isinstance(t, (ast.Name, ast.Attribute)) and isinstance(self.strip(b), dict) and kind_of(tyof(self.strip(b))) == "scalar":
            self.emit(ast.Assign(targets=[ast.Subscript(value=t, slice=ast.Slice(lower=None, upper=None, step=None), ctx=ast.Store())], value=v))
            return
        c = self.u.class_for(tyof(e)) if kind_of(tyof(e)) == "other" else None
        if c is not None:
            f = next((m for m in c.methods if m.decl.get("name") == "operator=" and not m.decl.get("isImplicit")), None)
            if f is not None:
                self.emit(ast.Expr(value=self.mcall(t, f.pyname, v)))
                return
        if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)) and kind_of(tyof(e)) in ("dense", "sparse", "vec", "set", "map", "variant"):
            v = self.call("cxx.copy", v)
        self.store(t, rebind, v)

    OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "<<": ast.LShift, ">>": ast.RShift, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor}

    def aug(self, a, op, b):
        if self.is_ptr_var(a):
            nm = self.names[self.strip(a)["referencedDecl"]["id"]]
            o = self.ex(b)
            self.assign_name(nm + "__o", self.bop(self.nm(nm + "__o"), self.OPS[op](), o))
            return
        e, _ = self.unwrap(a)
        if kind_of(tyof(e)) == "atomic":
            self.emit(ast.Expr(value=self.mcall(self.ex(e), "fetch_add" if op == "+" else "fetch_" + op, self.ex(b))))
            return
        v = self.ex(b)
        t, rebind = self.target(a)
        opn = self.OPS[op]()
        if op == "*" and kind_of(tyof(e)) == "dense" and kind_of(tyof(self.strip(b))) == "dense":
            opn = ast.MatMult()
        if op == "/" and self.integral(a) and self.integral(b):
            opn = ast.FloorDiv()
        if isinstance(t, ast.Subscript):
            tt = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Store())
        elif isinstance(t, ast.Name):
            tt = ast.Name(id=t.id, ctx=ast.Store())
        elif isinstance(t, ast.Attribute) and t.attr != "T":
            tt = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Store())
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute):
            self.emit(ast.Expr(value=self.mcall(t, "iop_", self.const(op), v)))
            return
        else:
            raise Unsupported("augmented assignment target")
        self.emit(ast.AugAssign(target=tt, op=opn, value=v))

    def incdec(self, a, op):
        e = self.strip(a)
        if self.is_ptr_var(a):
            nm = self.names[e["referencedDecl"]["id"]]
            self.assign_name(nm + "__o", self.bop(self.nm(nm + "__o"), ast.Add() if op == "++" else ast.Sub(), self.const(1)))
            return
        if kind_of(tyof(e)) == "atomic":
            self.emit(ast.Expr(value=self.mcall(self.ex(e), "fetch_add", self.const(1 if op == "++" else -1))))
            return
        if kind_of(tyof(e)) == "inner":
            raise Unsupported("inner iterator advanced outside a for header")
        t, rebind = self.target(a)
        if isinstance(t, ast.Subscript):
            tt = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Store())
        elif isinstance(t, ast.Name):
            tt = ast.Name(id=t.id, ctx=ast.Store())
        elif isinstance(t, ast.Attribute):
            tt = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Store())
        else:
            raise Unsupported("increment target")
        self.emit(ast.AugAssign(target=tt, op=ast.Add() if op == "++" else ast.Sub(), value=self.const(1)))

    # ---- pointers and iterators ------------------------------------------------------
    def is_ptrish(self, n):
        e = self.strip(n)
        if e.get("kind") == "DeclRefExpr" and e["referencedDecl"]["id"] in self.ptr_vars:
            return True
        t = tyof(e)
        return self.scalar_ptr(t) or kind_of(t) == "iter"

    def ptr(self, n):
        """(base, offset) of a pointer or random-access iterator expression."""
        e = self.strip(n)
        k = e.get("kind")
        if k == "DeclRefExpr":
            i = e["referencedDecl"]["id"]
            if i in self.ptr_vars and i in self.names:
                nm = self.names[i]
                return self.nm(nm + "__b"), self.nm(nm + "__o")
            raise Unsupported("pointer variable of unknown origin")
        if k == "CXXMemberCallExpr":
            me = self.strip(e["inner"][0])
            name = me.get("name")
            o = self.strip(me["inner"][0]) if me.get("inner") else None
            if name in ("begin", "cbegin"):
                return self.ref(me["inner"][0]), self.const(0)
            if name in ("end", "cend"):
                b = self.ref(me["inner"][0])
                return b, self.call("len", b)
            if name == "data":
                b = self.ref(me["inner"][0])
                if kind_of(tyof(o)) == "dense":
                    return self.call("cxx.flat", b, self.const("col" if self.col_major(tyof(o)) else "row")), self.const(0)
                return b, self.const(0)
            if name in ("valuePtr", "innerIndexPtr", "outerIndexPtr"):
                b = self.ref(me["inner"][0])
                return self.attr(b, {"valuePtr": "data", "innerIndexPtr": "indices", "outerIndexPtr": "indptr"}[name]), self.const(0)
        if k in ("BinaryOperator",) and e.get("opcode") in ("+", "-"):
            a, b = [x for x in e["inner"] if x]
            if self.is_ptrish(a):
                base, off = self.ptr(a)
                return base, self.bop(off, ast.Add() if e["opcode"] == "+" else ast.Sub(), self.ex(b)) if not (isinstance(off, ast.Constant) and off.value == 0 and e["opcode"] == "+") else self.ex(b)
            base, off = self.ptr(b)
            return base, self.plus(off, self.ex(a))
        if k == "CXXOperatorCallExpr":
            op = self.op_name(e)
            a = [x for x in e["inner"] if x][1:]
            if op in ("+", "-") and len(a) == 2:
                base, off = self.ptr(a[0])
                d = self.ex(a[1])
                return base, (self.plus(off, d) if op == "+" else self.bop(off, ast.Sub(), d))
            if op == "++" and self.is_ptr_var(a[0]):
                return self.ptr_inc(a[0], len(a) > 1)
            if op == "=":
                return self.ptr(a[1])
        if k == "UnaryOperator" and e.get("opcode") in ("++",):
            return self.ptr_inc(e["inner"][0], bool(e.get("isPostfix")))
        if k == "UnaryOperator" and e.get("opcode") == "&":
            t = self.ex(e["inner"][0])
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Tuple):
                return t.value, t.slice
        if k == "CXXConstructExpr" and len([x for x in e.get("inner", ()) if x]) == 1:
            return self.ptr([x for x in e["inner"] if x][0])
        if k == "CallExpr" and self.std_name(e) in ("next", "std::next"):
            a = [x for x in e["inner"] if x][1:]
            base, off = self.ptr(a[0])
            return base, self.plus(off, self.ex(a[1]) if len(a) > 1 and a[1].get("inner") else self.const(1))
        if k == "CallExpr" and self.std_name(e) in ("begin", "cbegin"):
            return self.ref([x for x in e["inner"] if x][1]), self.const(0)
        if k == "CallExpr" and self.std_name(e) in ("end", "cend"):
            b = self.ref([x for x in e["inner"] if x][1])
            return b, self.call("len", b)
        if k == "ConditionalOperator":
            c, a, b = [x for x in e["inner"] if x]
            ba, oa = self.ptr(a)
            bb, ob = self.ptr(b)
            cc = self.cond(c)
            return ast.IfExp(test=cc, body=ba, orelse=bb), ast.IfExp(test=cc, body=oa, orelse=ob)
        raise Unsupported(f"pointer expression {k}")

    def ptr_inc(self, v, postfix):
        nm = self.names[self.strip(v)["referencedDecl"]["id"]]
        if postfix:
            t = self.fresh("o")
            self.assign_name(t, self.nm(nm + "__o"))
            self.assign_name(nm + "__o", self.plus(self.nm(nm + "__o"), self.const(1)))
            return self.nm(nm + "__b"), self.nm(t)
        self.assign_name(nm + "__o", self.plus(self.nm(nm + "__o"), self.const(1)))
        return self.nm(nm + "__b"), self.nm(nm + "__o")

    def col_major(self, t):
        t = norm_type(t)
        if "Ref<" in t:
            t = t[t.index("Ref<") + 4:]
        a = template_args(t)
        if "Matrix<" in t and len(a) >= 4:
            return not (a[3] in ("1", "Eigen::RowMajor") or a[3].endswith("RowMajor"))
        return True

    # ---- expressions -----------------------------------------------------------------
    def args(self, ns):
        return [self.value(x) if self.needs_copy(x) else self.ref(x) for x in ns if x]

    def needs_copy(self, n):
        return False

    def value(self, n):
        """Value of an expression where C++ would copy it."""
        e = n
        copy = False
        while True:
            k = e.get("kind")
            inner = [c for c in e.get("inner", ()) if c]
            if k in STRIP and inner:
                s = self.strip(e)
                if s is e:
                    break
                # only peel one level so that copies are seen
                if e.get("castKind") in ("FloatingCast", "FloatingToIntegral", "IntegralToFloating"):
                    self.u.casts.append((self.fn, e.get("_line"), tyof(inner[-1]), tyof(e), k != "ImplicitCastExpr", e["castKind"], e))
                e = inner[-1] if k != "ConstantExpr" else inner[0]
                continue
            if k == "CXXConstructExpr" and len(inner) == 1:
                src = self.strip(inner[0])
                if e.get("elidable"):
                    e = inner[0]
                    continue
                kt, ks = kind_of(tyof(e)), kind_of(tyof(src))
                ct = norm_type((e.get("ctorType") or {}).get("qualType", ""))
                if "&&" in ct and norm_type(tyof(e)).rstrip("&") == norm_type(tyof(src)).rstrip("&"):
                    e = inner[0]
                    continue
                if kt == "sparse" and ks == "sparse" and self.reorders(e, src):
                    return self.mcall(self.ex(inner[0]), "tocsr" if row_major(tyof(e)) else "tocsc")
                if kt in ("dense", "sparse", "vec", "set", "map", "variant", "tuple", "pair", "str") and ks == kt or kt in ("dense", "sparse") and ks in ("dense", "sparse"):
                    return self.call("cxx.copy", self.ex(inner[0])) if self.is_lvalue(inner[0]) or ks != kt or True and kt == "sparse" else self.ex(inner[0])
                c = self.u.class_for(tyof(e))
                if c is not None and self.u.class_for(tyof(src)) is c:
                    return self.call("cxx.copy", self.ex(inner[0])) if src.get("valueCategory") == "lvalue" else self.ex(inner[0])
            break
        return self.ex(e)

    def reorders(self, dst, src):
        """A sparse copy that changes the storage order (compressed by rows <-> by columns)."""
        a, b = norm_type(tyof(dst)).rstrip("&"), norm_type(tyof(src)).rstrip("&")
        return a.startswith("Eigen::SparseMatrix<") and b.startswith("Eigen::SparseMatrix<") and row_major(a) != row_major(b)

    def is_lvalue(self, n):
        e = self.strip(n)
        return e.get("valueCategory") == "lvalue"

    def ref(self, n):
        return self.ex(n)

    def cond(self, n):
        e = self.strip(n)
        t = norm_type(tyof(e))
        if t.endswith("*") and not self.scalar_ptr(t) and e.get("kind") == "DeclRefExpr":
            return ast.Compare(left=self.ex(e), ops=[ast.IsNot()], comparators=[self.const(None)])
        if e.get("kind") == "BinaryOperator" and e.get("opcode") in ("&&", "||"):
            a, b = [x for x in e["inner"] if x]
            ca = self.cond(a)
            saved, self.out = self.out, []
            cb = self.cond(b)
            pre, self.out = self.out, saved
            if pre:
                raise Unsupported("side effect in a short-circuit operand")
            return ast.BoolOp(op=ast.And() if e["opcode"] == "&&" else ast.Or(), values=[ca, cb])
        if e.get("kind") == "UnaryOperator" and e.get("opcode") == "!":
            return ast.UnaryOp(op=ast.Not(), operand=self.cond(e["inner"][0]))
        v = self.ex(e)
        if kind_of(tyof(e)) == "scalar" and t not in ("bool",) and not isinstance(v, (ast.Compare, ast.BoolOp)) and e.get("kind") not in ("CXXBoolLiteralExpr",):
            return ast.Compare(left=v, ops=[ast.NotEq()], comparators=[self.const(0)])
        return v

    def ex(self, n):
        e = self.strip(n)
        m = getattr(self, "e_" + e.get("kind", "none"), None)
        if m is None:
            raise Unsupported(f"expression {e.get('kind')}")
        line = e.get("_line")
        return m(e)

    def e_IntegerLiteral(self, e):
        return self.const(int(e["value"]))

    def e_FloatingLiteral(self, e):
        return self.const(float(e["value"]))

    def e_CXXBoolLiteralExpr(self, e):
        return self.const(bool(e["value"]))

    def e_CharacterLiteral(self, e):
        return self.const(chr(e["value"]))

    def e_StringLiteral(self, e):
        try:
            return self.const(ast.literal_eval(e["value"]))
        except (ValueError, SyntaxError):
            return self.const(e["value"])

    def e_CXXNullPtrLiteralExpr(self, e):
        return self.const(None)

    def e_ImplicitValueInitExpr(self, e):
        return self.const(0)

    def e_CXXScalarValueInitExpr(self, e):
        return self.const(0)

    def e_CXXThisExpr(self, e):
        return self.nm("self")

    def e_PredefinedExpr(self, e):
        return self.const("")

    def e_SourceLocExpr(self, e):
        return self.const(0)

    def e_CXXDefaultArgExpr(self, e):
        return self.const(None)

    def e_DeclRefExpr(self, e):
        d = e.get("referencedDecl", {})
        i = d.get("id")
        if i in self.refs:
            r = self.refs[i]
            if isinstance(r, tuple):
                return self.sub(r[1], r[2])
            return self.ex(r)
        if i in self.names:
            if i in self.ptr_vars:
                raise Unsupported("raw pointer used as a value")
            return self.nm(self.names[i])
        if i in self.u.enums:
            en, c = self.u.enums[i]
            return self.const(f"{en}.{c}")
        if d.get("kind") == "EnumConstantDecl":
            return self.const(f"{norm_type((d.get('type') or {}).get('qualType', ''))}::{d.get('name')}".replace("::", "."))
        if i in self.u.fns:
            f = self.u.fns[i]
            if f.cls is not None:
                return self.attr(self.nm(f.cls.pyname), f.pyname)
            return self.nm(f.pyname)
        if d.get("kind") == "NonTypeTemplateParmDecl":
            return self.nm(d.get("name"))
        nm = d.get("name") or "unknown"
        return self.nm(vname(nm)) if re.match(r"^\w+$", nm) else self.call("cxx.name", self.const(nm))

    def e_MemberExpr(self, e):
        inner = [x for x in e.get("inner", ()) if x]
        base = inner[0] if inner else None
        name = e.get("name") or ""
        bs = self.strip(base) if base else None
        if bs is not None and self.is_ptrish(base) and name in ("first", "second"):
            b, o = self.ptr(base)
            return self.sub(self.sub(b, o), self.const(0 if name == "first" else 1))
        if bs is not None and bs.get("kind") == "CXXOperatorCallExpr" and self.op_name(bs) == "->":
            a = [x for x in bs["inner"] if x][1]
            if self.is_ptrish(a):
                b, o = self.ptr(a)
                o2 = self.sub(b, o)
            else:
                o2 = self.ex(a)
            if name in ("first", "second"):
                return self.sub(o2, self.const(0 if name == "first" else 1))
            return self.attr(o2, name)
        o = self.ex(base)
        if name in ("first", "second") and kind_of(tyof(bs)) == "pair":
            return self.sub(o, self.const(0 if name == "first" else 1))
        return self.attr(o, name)

    def integral(self, n):
        t = norm_type(tyof(n))
        return t in ("int", "long", "unsigned long", "unsigned int", "size_t", "std::size_t", "int64_t", "long long", "unsigned long long", "short", "Eigen::Index", "std::ptrdiff_t", "uint64_t", "std::int64_t", "unsigned", "Index", "StorageIndex")

    def e_BinaryOperator(self, e):
        op = e["opcode"]
        a, b = [x for x in e["inner"] if x]
        if op in ("&&", "||"):
            return self.cond(e)
        if op == "=":
            self.assign(a, b)
            return self.ex(a)
        if op == ",":
            self.expr_stmt(a)
            return self.ex(b)
        if op in ("<", ">", "<=", ">=", "==", "!=", "-") and self.is_ptrish(a) and self.is_ptrish(b):
            (ba, oa), (bb, ob) = self.ptr(a), self.ptr(b)
            if op == "-":
                return self.bop(oa, ast.Sub(), ob)
            return self.cmp(op, oa, ob)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.cmp(op, self.ex(a), self.ex(b))
        x, y = self.ex(a), self.ex(b)
        if op == "/" and self.integral(a) and self.integral(b):
            return self.bop(x, ast.FloorDiv(), y)
        return self.bop(x, self.OPS[op](), y)

    e_CompoundAssignOperator = None

    def cmp(self, op, a, b):
        o = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}[op]()
        return ast.Compare(left=a, ops=[o], comparators=[b])

    def e_UnaryOperator(self, e):
        op = e["opcode"]
        a = e["inner"][0]
        if op in ("++", "--"):
            if e.get("isPostfix"):
                t = self.fresh("t")
                self.assign_name(t, self.ex(a))
                self.incdec(a, op)
                return self.nm(t)
            self.incdec(a, op)
            return self.ex(a)
        if op == "-":
            return ast.UnaryOp(op=ast.USub(), operand=self.ex(a))
        if op == "+":
            return self.ex(a)
        if op == "!":
            return ast.UnaryOp(op=ast.Not(), operand=self.cond(a))
        if op == "~":
            return ast.UnaryOp(op=ast.Invert(), operand=self.ex(a))
        if op == "*":
            if self.strip(a).get("kind") == "CXXThisExpr":
                return self.nm("self")
            if self.is_ptrish(a):
                b, o = self.ptr(a)
                return self.sub(b, o)
            return self.ex(a)
        if op == "&":
            s = self.strip(a)
            return self.ex(a)
        raise Unsupported(f"unary {op}")

    def e_ArraySubscriptExpr(self, e):
        a, i = [x for x in e["inner"] if x]
        b, o = self.ptr(a)
        return self.sub(b, self.plus(o, self.ex(i)))

    def e_ConditionalOperator(self, e):
        c, a, b = [x for x in e["inner"] if x]
        cc = self.cond(c)
        saved, self.out = self.out, []
        x, y = self.value(a), self.value(b)
        pre, self.out = self.out, saved
        if pre:
            raise Unsupported("side effect in a conditional operand")
        return ast.IfExp(test=cc, body=x, orelse=y)

    def e_CXXThrowExpr(self, e):
        return self.call("cxx.throw")

    def e_InitListExpr(self, e):
        xs = [x for x in e.get("inner", ()) if x]
        if kind_of(tyof(e)) == "scalar" and len(xs) == 1:
            return self.ex(xs[0])
        return ast.Tuple(elts=[self.value(x) for x in xs], ctx=ast.Load())

    def e_CXXTemporaryObjectExpr(self, e):
        return self.e_CXXConstructExpr(e)

    def e_CXXUnresolvedConstructExpr(self, e):
        return self.call("cxx.construct", *[self.ex(x) for x in e.get("inner", ()) if x])

    def e_ParenListExpr(self, e):
        xs = [x for x in e.get("inner", ()) if x]
        return self.ex(xs[0]) if len(xs) == 1 else ast.Tuple(elts=[self.ex(x) for x in xs], ctx=ast.Load())

    def e_CXXConstructExpr(self, e):
        t = tyof(e)
        k = kind_of(t)
        xs = [x for x in e.get("inner", ()) if x]
        xs = [x for x in xs if x.get("kind") != "CXXDefaultArgExpr"]
        c = self.u.class_for(t)
        if c is not None and k == "other":
            if len(xs) == 1 and self.u.class_for(tyof(self.strip(xs[0]))) is c:
                return self.ex(xs[0])
            f = self.pick_ctor(c, e)
            nm = getattr(f, "clsname", None) if f is not None else None
            if nm is None and f is not None:
                mains = [g for g in c.ctors if not self.u._is_copy(c, g) and (self.u._body(g.decl) is not None)]
                mains.sort(key=lambda g: (len(self.u._params(g.decl)) == 0,))
                if f in mains:
                    i = mains.index(f)
                    nm = c.pyname if i == 0 else f"{c.pyname}__c{i + 1}"
            return self.call(self.nm(nm or c.pyname), *self.args([x for x in e.get("inner", ()) if x]) if not any(x.get("kind") == "CXXDefaultArgExpr" for x in e.get("inner", ())) else self.args(xs))
        if k == "dense":
            if not xs:
                return self.call("numpy.empty", self.const(0))
            if len(xs) == 1:
                if kind_of(tyof(self.strip(xs[0]))) == "scalar":
                    return self.call("numpy.empty", self.ex(xs[0]))
                return self.call("cxx.copy", self.ex(xs[0]))
            if len(xs) == 2:
                return self.call("numpy.empty", ast.Tuple(elts=[self.ex(x) for x in xs], ctx=ast.Load()))
        if k == "sparse":
            if not xs:
                return self.call("cxx.new", self.const("sparse"))
            if len(xs) == 1 and kind_of(tyof(self.strip(xs[0]))) == "sparse" and self.reorders(e, self.strip(xs[0])):
                return self.mcall(self.ex(xs[0]), "tocsr" if row_major(t) else "tocsc")
            if len(xs) == 1:
                return self.call("cxx.copy", self.ex(xs[0]))
            return self.call("cxx.sparse", ast.Tuple(elts=[self.ex(x) for x in xs[:2]], ctx=ast.Load()), self.const("csr" if row_major(t) else "csc"))
        if k == "vec":
            if not xs:
                return ast.List(elts=[], ctx=ast.Load())
            s0 = self.strip(xs[0])
            if kind_of(tyof(s0)) == "scalar" and not e.get("list"):
                et = template_args(norm_type(t))
                fill = self.ex(xs[1]) if len(xs) > 1 else (self.default(et[0]) if et and kind_of(et[0]) != "scalar" else self.const(0))
                return self.call("cxx.vector", self.ex(xs[0]), fill)
            if len(xs) == 1:
                if s0.get("kind") == "InitListExpr":
                    return ast.List(elts=[self.value(x) for x in s0.get("inner", ()) if x], ctx=ast.Load())
                return self.call("cxx.copy", self.ex(xs[0]))
            if len(xs) >= 2 and self.is_ptrish(xs[0]):
                (b, lo), (_, hi) = self.ptr(xs[0]), self.ptr(xs[1])
                return self.call("list", self.sub(b, self.slc(lo, hi)))
        if k == "set":
            if not xs:
                return self.call("set")
            if len(xs) >= 2 and self.is_ptrish(xs[0]):
                (b, lo), (_, hi) = self.ptr(xs[0]), self.ptr(xs[1])
                return self.call("set", self.sub(b, self.slc(lo, hi)))
            return self.call("cxx.copy", self.ex(xs[0]))
        if k == "map" and not xs:
            return ast.Dict(keys=[], values=[])
        if k == "str":
            return self.ex(xs[0]) if xs else self.const("")
        if k == "atomic":
            return self.call("cxx.atomic", self.ex(xs[0]) if xs else self.const(0))
        if k in ("pair", "tuple"):
            if len(xs) == 1:
                return self.ex(xs[0])
            return ast.Tuple(elts=[self.value(x) for x in xs], ctx=ast.Load())
        if k == "thread":
            if not xs:
                return self.call("cxx.new", self.const("thread"))
            return self.call("std.thread", *[self.ex(x) for x in xs])
        if k == "future" and len(xs) == 1:
            return self.ex(xs[0])
        if k in ("variant", "iter", "inner", "ptr", "fn") and len(xs) == 1:
            return self.ex(xs[0])
        if len(xs) == 1 and norm_type(tyof(self.strip(xs[0]))).rstrip("&") == norm_type(t).rstrip("&"):
            return self.ex(xs[0])
        args = []
        for x in xs:
            if self.is_ptrish(x):
                b, o = self.ptr(x)
                args += [b, o]
            else:
                args.append(self.ex(x))
        return self.call("cxx.new", self.const(norm_type(t)), *args)

    def e_CXXNewExpr(self, e):
        xs = [x for x in e.get("inner", ()) if x]
        ctor = [x for x in xs if self.strip(x).get("kind") in ("CXXConstructExpr",)]
        rest = [x for x in xs if x not in ctor]
        v = self.ex(ctor[0]) if ctor else self.const(None)
        return self.call("cxx.placement_new", *([self.ex(rest[0])] if rest else [self.const(None)]), v)

    def e_LambdaExpr(self, e):
        inner = [x for x in e.get("inner", ()) if x]
        rec = inner[0]
        body = inner[-1]
        caps = inner[1:-1]
        fields = [x for x in rec.get("inner", ()) if x.get("kind") == "FieldDecl"]
        meth = None
        for x in rec.get("inner", ()):
            if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()":
                meth = x
            elif x.get("kind") == "FunctionTemplateDecl" and x.get("name") == "operator()":
                ms = [y for y in x.get("inner", ()) if y.get("kind") == "CXXMethodDecl"]
                spec = [y for y in ms[1:] if Unit._body(y)]
                meth = ("generic", spec or ms[:1])
        variants = meth[1] if isinstance(meth, tuple) else [meth]
        names = []
        for v in variants:
            self.u.lamcount += 1
            nm = f"_lambda{self.u.lamcount}_{e.get('_line')}"
            info = dict(byref=[], bycopy=[], this=False, line=e.get("_line"), fn=self.fn, types=[norm_type(tyof(p)) for p in self.u._params(v)])
            args, defaults = [], []
            for p in self.u._params(v):
                args.append(self.param(p, defaults))
            extra = []
            for cap, fd in zip(caps, fields):
                s = self.strip(cap)
                while s.get("kind") == "CXXConstructExpr" and s.get("inner"):
                    s = self.strip([x for x in s["inner"] if x][0])
                if s.get("kind") == "CXXThisExpr":
                    info["this"] = True
                    continue
                if s.get("kind") != "DeclRefExpr":
                    continue
                i = s["referencedDecl"]["id"]
                ref = norm_type((fd.get("type") or {}).get("qualType", "")).endswith("&")
                info["byref" if ref else "bycopy"].append(s["referencedDecl"].get("name"))
                if not ref and i in self.names and i not in self.refs:
                    if i in self.ptr_vars:
                        for suf in ("__b", "__o"):
                            extra.append(self.names[i] + suf)
                    else:
                        extra.append(self.names[i])
            for x in extra:
                args.append(ast.arg(arg=x, annotation=None))
                defaults.append(self.nm(x))
            if len(defaults) < len(args) and extra:
                defaults = defaults[-len(args):]
            b = Unit._body(v) if Unit._body(v) is not None else body
            line = self.line
            saved, self.out = self.out, []
            li, self.loopinc = self.loopinc, []
            self.line = b.get("_line") or line
            self.block(b)
            stmts, self.out = self.out, saved
            self.loopinc = li
            self.line = line
            f = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=defaults),
                                body=stmts or [self.L(ast.Pass())], decorator_list=[], returns=None, type_params=[])
            f.lineno, f.col_offset = e.get("_line") or line, 0
            f._file = self.fn.decl.get("_file")
            # assignments to captured-by-reference locals reach the enclosing frame
            loc = assigned(stmts) - {a.arg for a in args}
            outer = {self.names[i2] for i2 in self.names} | {self.names[i2] + s for i2 in self.ptr_vars if i2 in self.names for s in ("__b", "__o")}
            own = self.declared(b)
            nl = sorted(x for x in loc if x in outer and x not in own)
            if nl:
                f.body.insert(0, self.L(ast.Nonlocal(names=nl)))
            self.emit(f)
            self.u.lambdas[nm] = info
            names.append(nm)
        if len(names) == 1:
            return self.nm(names[0])
        return ast.Tuple(elts=[self.nm(x) for x in names], ctx=ast.Load())

    def declared(self, n):
        """Python names of variables declared inside a subtree."""
        out = set()

        def rec(x):
            if x.get("kind") in ("VarDecl", "ParmVarDecl") and x.get("id") in self.names:
                b = self.names[x["id"]]
                out.update((b, b + "__b", b + "__o", b + "__p"))
            for c in x.get("inner", ()):
                if isinstance(c, dict):
                    rec(c)

        rec(n)
        return out

    # ---- calls -----------------------------------------------------------------------
    def op_name(self, e):
        c = self.strip([x for x in e["inner"] if x][0])
        nm = (c.get("referencedDecl") or {}).get("name") or c.get("name") or ""
        return nm[len("operator"):].strip() if nm.startswith("operator") else nm

    def std_name(self, e):
        c = self.strip([x for x in e["inner"] if x][0])
        return (c.get("referencedDecl") or {}).get("name") or c.get("name")

    def e_CXXOperatorCallExpr(self, e):
        op = self.op_name(e)
        a = [x for x in e["inner"] if x][1:]
        k0 = kind_of(tyof(self.strip(a[0]))) if a else "other"
        if op == "()":
            s0 = self.strip(a[0])
            if "(lambda" in tyof(s0) or k0 in ("fn",) or s0.get("kind") == "LambdaExpr" or (k0 == "other" and "lambda" in tyof(s0)):
                return self.call(self.ex(a[0]), *self.args(a[1:]))
            if k0 in ("dense", "sparse"):
                return self.sub(self.ref(a[0]), *[self.ex(x) for x in a[1:]])
            return self.call(self.ex(a[0]), *self.args(a[1:]))
        if op == "[]":
            if self.is_ptrish(a[0]):
                b, o = self.ptr(a[0])
                return self.sub(b, self.plus(o, self.ex(a[1])))
            return self.sub(self.ref(a[0]), self.ex(a[1]))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            r = self.membership(op, a)
            if r is not None:
                return r
            if self.is_ptrish(a[0]) and self.is_ptrish(a[1]):
                (_, o1), (_, o2) = self.ptr(a[0]), self.ptr(a[1])
                return self.cmp(op, o1, o2)
            return self.cmp(op, self.ex(a[0]), self.ex(a[1]))
        if op in ("+", "-", "*", "/", "%"):
            if len(a) == 1:
                return ast.UnaryOp(op=ast.USub(), operand=self.ex(a[0])) if op == "-" else (self.deref(a[0]) if op == "*" else self.ex(a[0]))
            if op == "-" and self.is_ptrish(a[0]) and self.is_ptrish(a[1]):
                (_, o1), (_, o2) = self.ptr(a[0]), self.ptr(a[1])
                return self.bop(o1, ast.Sub(), o2)
            x, y = self.ex(a[0]), self.ex(a[1])
            if op == "*":
                k1 = kind_of(tyof(self.strip(a[1])))
                arr = "ArrayWrapper" in tyof(self.strip(a[0])) or "ArrayWrapper" in tyof(self.strip(a[1])) or "Array<" in tyof(self.strip(a[0]))
                if k0 in ("dense", "sparse") and k1 in ("dense", "sparse") and not arr and not self.arrayish(e):
                    return self.bop(x, ast.MatMult(), y)
            return self.bop(x, self.OPS[op](), y)
        if op == "->":
            if self.is_ptrish(a[0]):
                b, o = self.ptr(a[0])
                return self.sub(b, o)
            return self.ex(a[0])
        if op in ("=", "+=", "-=", "*=", "/="):
            (self.assign if op == "=" else (lambda p, q: self.aug(p, op[:-1], q)))(a[0], a[1])
            return self.ex(self.unwrap(a[0])[0])
        if op in ("++", "--"):
            if k0 == "atomic":
                return self.mcall(self.ex(a[0]), "fetch_add", self.const(1))
            self.incdec(a[0], op)
            return self.ex(a[0])
        if op == "<<":
            return self.const("")
        if op == "!":
            return ast.UnaryOp(op=ast.Not(), operand=self.ex(a[0]))
        raise Unsupported(f"operator {op}")

    def deref(self, n):
        if self.is_ptrish(n):
            b, o = self.ptr(n)
            return self.sub(b, o)
        return self.ex(n)

    def arrayish(self, e):
        t = tyof(e)
        return "Array" in t.split("<")[1][:12] if "<" in t else False

    def membership(self, op, a):
        """s.find(x) != s.end()  ->  x in s"""
        if op not in ("==", "!="):
            return None
        for p, q in ((a[0], a[1]), (a[1], a[0])):
            sp, sq = self.strip(p), self.strip(q)
            while sp.get("kind") == "CXXConstructExpr" and sp.get("inner"):
                sp = self.strip([x for x in sp["inner"] if x][0])
            while sq.get("kind") == "CXXConstructExpr" and sq.get("inner"):
                sq = self.strip([x for x in sq["inner"] if x][0])
            if sp.get("kind") == "CXXMemberCallExpr" and sq.get("kind") == "CXXMemberCallExpr":
                mp, mq = self.strip(sp["inner"][0]), self.strip(sq["inner"][0])
                if mp.get("name") == "find" and mq.get("name") in ("end", "cend"):
                    x = self.ex([y for y in sp["inner"] if y][1])
                    s = self.ref(mp["inner"][0])
                    return ast.Compare(left=x, ops=[ast.In() if op == "!=" else ast.NotIn()], comparators=[s])
        return None

    def e_CallExpr(self, e):
        inner = [x for x in e["inner"] if x]
        c = self.strip(inner[0])
        rd = c.get("referencedDecl") or {}
        i = rd.get("id")
        a = inner[1:]
        if i in self.u.fns and c.get("kind") == "DeclRefExpr":
            f = self.u.fns[i]
            fn = self.attr(self.nm(f.cls.pyname), f.pyname) if f.cls is not None else self.nm(f.pyname)
            return self.call(fn, *self.args([x for x in a if x.get("kind") != "CXXDefaultArgExpr"]))
        if i in self.names:
            return self.call(self.nm(self.names[i]), *self.args(a))
        name = rd.get("name") or c.get("name") or ""
        if c.get("kind") == "MemberExpr":
            return self.e_CXXMemberCallExpr(e)
        txt = self.u.text(inner[0])
        if name in ("min", "max") and rd.get("kind") != "CXXMethodDecl" and len(a) >= 2:
            return self.call(name, *[self.ex(x) for x in a[:2]])
        if name in ("min", "max") and len(a) == 1:
            return self.call(name, self.ex(a[0]))
        if name == "clamp":
            x, lo, hi = [self.ex(y) for y in a[:3]]
            return self.call("min", self.call("max", x, lo), hi)
        if name in ("move", "forward", "ref", "cref", "as_const", "addressof") and len(a) == 1:
            return self.ex(a[0])
        if name in ("make_pair", "make_tuple", "tie", "forward_as_tuple"):
            return ast.Tuple(elts=[self.value(x) for x in a], ctx=ast.Load())
        if name == "get" and len(a) == 1:
            m = re.search(r"get\s*<\s*(\d+)\s*>", txt)
            if m:
                return self.sub(self.ex(a[0]), self.const(int(m.group(1))))
            return self.call("cxx.variant_get", self.ex(a[0]), self.const(norm_type(tyof(e))))
        if name == "cast" and len(a) >= 1 and "nanobind" in (rd.get("type") or {}).get("qualType", "") + txt or name == "cast" and "object" in (rd.get("type") or {}).get("qualType", ""):
            return self.ex(a[0])
        if name == "get_if":
            return self.call("cxx.get_if", self.ex(a[0]), self.const(norm_type(tyof(e)).rstrip("*")))
        if name == "infinity":
            return self.call("float", self.const("inf"))
        if name in ("lowest", "epsilon", "quiet_NaN") or name in ("min", "max"):
            return self.call("cxx.limit", self.const(name), self.const(norm_type(tyof(e))))
        if name in ("Zero", "Ones", "Constant", "Identity", "Random"):
            t = "numpy.zeros" if name == "Zero" else "numpy.ones" if name == "Ones" else "cxx." + name
            xs = [self.ex(x) for x in a]
            if name in ("Zero", "Ones"):
                return self.call(t, ast.Tuple(elts=xs, ctx=ast.Load()) if len(xs) != 1 else xs[0])
            return self.call(t, *xs)
        if name == "async":
            return self.call("std.async_", *[self.ex(x) for x in a])
        if name == "visit":
            return self.call("std.visit", *[self.ex(x) for x in a])
        if name in MATH:
            return self.call("math." + ("fabs" if name in ("abs", "fabs") else name), *[self.ex(x) for x in a])
        if name in ALGOS:
            args = []
            for x in a:
                if x.get("kind") == "CXXDefaultArgExpr":
                    continue
                if self.is_ptrish(x):
                    b, o = self.ptr(x)
                    args += [b, o]
                else:
                    args.append(self.ex(x))
            return self.call("std." + name, *args)
        if rd.get("kind") == "CXXMethodDecl" or name:
            args = []
            for x in a:
                if x.get("kind") == "CXXDefaultArgExpr":
                    continue
                if self.is_ptrish(x):
                    b, o = self.ptr(x)
                    args += [b, o]
                else:
                    args.append(self.ex(x))
            nm = re.sub(r"\W", "_", name or "fn")
            if c.get("kind") == "UnresolvedLookupExpr" and nm in self.u.byname:
                return self.call(self.nm(nm), *args)
            return self.call("std." + nm, *args)
        raise Unsupported("call of an unknown function")

    def member_stmt(self, e):
        """Statement-level member calls with dedicated meaning; True when handled."""
        me = self.strip(e["inner"][0])
        if me.get("kind") != "MemberExpr" or not me.get("inner"):
            return False
        name = me.get("name")
        o = self.strip(me["inner"][0])
        k = kind_of(tyof(o))
        a = [x for x in e["inner"] if x][1:]
        a = [x for x in a if x.get("kind") != "CXXDefaultArgExpr"]
        if name in DROP and k in ("vec", "sparse", "set", "str", "map", "dense"):
            # an expression statement without effect on the content
            self.ref(me["inner"][0])
            return True
        if k in ("dense",) and name in ("setZero", "setOnes", "fill", "setConstant") and not (name.startswith("set") and len(a) > (1 if name == "setConstant" else 0)):
            t, rebind = self.target(me["inner"][0])
            v = self.const(0) if name == "setZero" else self.const(1) if name == "setOnes" else self.ex(a[0])
            if isinstance(t, ast.Subscript):
                self.store(t, False, v)
            else:
                self.emit(ast.Assign(targets=[ast.Subscript(value=t, slice=ast.Slice(lower=None, upper=None, step=None), ctx=ast.Store())], value=v))
            return True
        if k == "sparse" and name == "setFromTriplets":
            t, rebind = self.target(me["inner"][0])
            (b, lo), (_, hi) = self.ptr(a[0]), self.ptr(a[1])
            seq = self.sub(b, self.slc(None if isinstance(lo, ast.Constant) and lo.value == 0 else lo, None if isinstance(hi, ast.Call) else hi))
            if isinstance(seq.slice, ast.Slice) and seq.slice.lower is None and seq.slice.upper is None:
                seq = b
            v = self.call("cxx.from_triplets", self.attr(t, "shape"), seq, *[self.ex(x) for x in a[2:]])
            self.store(t, rebind, v)
            return True
        if k == "vec" and name in ("resize", "assign"):
            t, rebind = self.target(me["inner"][0])
            et = template_args(norm_type(tyof(o)))
            if name == "resize":
                fill = self.ex(a[1]) if len(a) > 1 else (self.default(et[0]) if et and kind_of(et[0]) != "scalar" else self.const(0))
                v = self.call("cxx.resized", self.ref(me["inner"][0]), self.ex(a[0]), fill)
            elif self.is_ptrish(a[0]):
                (b, lo), (_, hi) = self.ptr(a[0]), self.ptr(a[1])
                v = self.call("list", self.sub(b, self.slc(lo, hi)))
            else:
                v = self.call("cxx.vector", self.ex(a[0]), self.ex(a[1]))
            self.store(t, True, v)
            return True
        if k == "dense" and name in ("resize", "conservativeResize"):
            t, rebind = self.target(me["inner"][0])
            xs = [self.ex(x) for x in a]
            self.store(t, True, self.call("numpy.empty", ast.Tuple(elts=xs, ctx=ast.Load()) if len(xs) > 1 else xs[0]))
            return True
        return False

    def e_CXXMemberCallExpr(self, e):
        inner = [x for x in e["inner"] if x]
        me = self.strip(inner[0])
        if me.get("kind") != "MemberExpr":
            raise Unsupported("member call through a pointer to member")
        name = me.get("name") or ""
        a = [x for x in inner[1:] if x.get("kind") != "CXXDefaultArgExpr"]
        base = me["inner"][0]
        bs = self.strip(base)
        mid = me.get("referencedMemberDecl")
        if mid in self.u.fns:
            f = self.u.fns[mid]
            if f.cls is not None:
                o = self.nm("self") if bs.get("kind") == "CXXThisExpr" else self.ref(base)
                return self.mcall(o, f.pyname, *self.args(a))
        k = kind_of(tyof(bs))
        if bs.get("kind") == "DeclRefExpr" and bs["referencedDecl"]["id"] in self.inner:
            return self.inner_call(bs["referencedDecl"]["id"], name)
        if bs.get("kind") == "CXXOperatorCallExpr" and self.op_name(bs) == "->":
            o = self.ex(bs)
        elif k == "ptr" or self.is_ptrish(base) and me.get("isArrow"):
            if self.is_ptrish(base):
                b, off = self.ptr(base)
                o = self.sub(b, off)
            else:
                o = self.ex(base)
            t = norm_type(tyof(bs))
            k = kind_of(t.rstrip("*"))
        else:
            o = self.ref(base)
        if name.startswith("operator "):
            if k == "inner":
                raise Unsupported("inner iterator test outside a for header")
            return o
        if name in TRANSPARENT:
            return o
        if k in ("vec", "set", "map", "str"):
            return self.container(o, k, name, a, bs, e)
        if k == "sparse":
            rm = row_major(tyof(bs))
            r = {"rows": (0,), "cols": (1,), "outerSize": (0 if rm else 1,), "innerSize": (1 if rm else 0,)}.get(name)
            if r:
                return self.sub(self.attr(o, "shape"), self.const(r[0]))
            if name == "nonZeros":
                return self.attr(o, "nnz")
        if k in ("dense", "sparse"):
            r = self.eigen(o, name, a)
            if r is not None:
                return r
        if k == "atomic":
            if name in ("load", "fetch_add", "fetch_sub", "store", "exchange"):
                return self.mcall(o, name, *[self.ex(x) for x in a if "memory_order" not in tyof(x)])
        if k == "rng" or k == "future" or k == "thread":
            return self.mcall(o, name, *[self.ex(x) for x in a])
        if k == "variant" and name == "index":
            return self.mcall(o, name)
        args = []
        for x in a:
            if self.is_ptrish(x):
                b, off = self.ptr(x)
                args += [b, off]
            else:
                args.append(self.ex(x))
        return self.mcall(o, name, *args)

    def inner_call(self, vid, name):
        m, r, rm, p = self.inner[vid]
        if name in ("value", "valueRef"):
            return self.sub(self.attr(m, "data"), self.nm(p))
        if name == "index":
            return self.sub(self.attr(m, "indices"), self.nm(p))
        if name == "col":
            return self.sub(self.attr(m, "indices"), self.nm(p)) if rm else r
        if name == "row":
            return r if rm else self.sub(self.attr(m, "indices"), self.nm(p))
        if name == "outer":
            return r
        raise Unsupported(f"inner iterator {name}")

    def container(self, o, k, name, a, bs, e):
        if name in ("size", "length"):
            return self.call("len", o)
        if name == "empty":
            return ast.Compare(left=self.call("len", o), ops=[ast.Eq()], comparators=[self.const(0)])
        if name == "at":
            return self.sub(o, self.ex(a[0]))
        if name == "back":
            return self.sub(o, self.bop(self.call("len", o), ast.Sub(), self.const(1)))
        if name == "front":
            return self.sub(o, self.const(0))
        if k == "vec" and name in ("push_back", "emplace_back"):
            et = template_args(norm_type(tyof(bs)))
            et = et[0] if et else ""
            ek = kind_of(et)
            if ek == "thread" and len(a) >= 1 and kind_of(tyof(self.strip(a[0]))) != "thread":
                v = self.call("std.thread", *[self.ex(x) for x in a])
            elif name == "emplace_back" and ek in ("pair", "tuple") and len(a) > 1:
                v = ast.Tuple(elts=[self.value(x) for x in a], ctx=ast.Load())
            elif len(a) == 1:
                v = self.value(a[0])
                c = self.u.class_for(et)
                if name == "emplace_back" and c is not None and ek == "other" and self.u.class_for(tyof(self.strip(a[0]))) is not c:
                    v = self.call(self.nm(c.pyname), v)
            elif not a:
                v = self.default(et) if ek != "scalar" else self.const(0)
            else:
                c = self.u.class_for(et)
                v = self.call(self.nm(c.pyname), *self.args(a)) if c is not None and ek == "other" else self.call("cxx.new", self.const(et), *[self.ex(x) for x in a])
            return self.mcall(o, "append", v)
        if k == "set" and name in ("insert", "emplace"):
            if len(a) == 2 and self.is_ptrish(a[0]):
                (b, lo), (_, hi) = self.ptr(a[0]), self.ptr(a[1])
                return self.mcall(o, "update", self.sub(b, self.slc(lo, hi)))
            return self.mcall(o, "add", self.ex(a[-1]))
        if k == "vec" and name == "insert" and len(a) == 3:
            (b0, o0), (b, lo), (_, hi) = self.ptr(a[0]), self.ptr(a[1]), self.ptr(a[2])
            if isinstance(o0, ast.Call) and getattr(o0.func, "id", "") == "len":
                whole = isinstance(lo, ast.Constant) and lo.value == 0 and isinstance(hi, ast.Call) and getattr(hi.func, "id", "") == "len"
                return self.mcall(o, "extend", b if whole else self.sub(b, self.slc(lo, hi)))
        if k in ("set", "map") and name in ("count", "contains"):
            return ast.Compare(left=self.ex(a[0]), ops=[ast.In()], comparators=[o])
        if k == "vec" and name == "pop_back":
            return self.mcall(o, "pop")
        if name in ("begin", "end", "cbegin", "cend"):
            return self.mcall(o, name)
        if name == "data" and k == "vec":
            return o
        args = []
        for x in a:
            if self.is_ptrish(x):
                b, off = self.ptr(x)
                args += [b, off]
            else:
                args.append(self.ex(x))
        return self.mcall(o, name, *args)

    def eigen(self, o, name, a):
        full = ast.Slice(lower=None, upper=None, step=None)
        x = [self.ex(y) for y in a]
        if name == "rows":
            return self.sub(self.attr(o, "shape"), self.const(0))
        if name == "cols":
            return self.sub(self.attr(o, "shape"), self.const(1))
        if name == "size":
            return self.attr(o, "size")
        if name in ("row",):
            return self.sub(o, x[0])
        if name == "col":
            return self.sub(o, full, x[0])
        if name == "middleRows":
            return self.sub(o, self.slc(x[0], self.plus(x[0], x[1])))
        if name == "topRows" or name == "head":
            return self.sub(o, self.slc(None, x[0]))
        if name == "segment":
            return self.sub(o, self.slc(x[0], self.plus(x[0], x[1])))
        if name == "leftCols":
            return self.sub(o, full, self.slc(None, x[0]))
        if name == "middleCols":
            return self.sub(o, full, self.slc(x[0], self.plus(x[0], x[1])))
        if name == "block" and len(x) == 4:
            return self.sub(o, self.slc(x[0], self.plus(x[0], x[2])), self.slc(x[1], self.plus(x[1], x[3])))
        if name in ("transpose", "adjoint"):
            return self.attr(o, "T")
        if name in ("coeff", "coeffRef"):
            return self.sub(o, *x)
        if name == "dot":
            return self.bop(o, ast.MatMult(), x[0])
        if name == "squaredNorm":
            return self.mcall(self.bop(o, ast.Mult(), o), "sum")
        if name == "cwiseProduct":
            return self.bop(o, ast.Mult(), x[0])
        if name == "cwiseQuotient":
            return self.bop(o, ast.Div(), x[0])
        if name == "pow":
            return self.bop(o, ast.Pow(), x[0])
        if name in ("log", "sqrt", "exp", "abs", "cwiseAbs", "cwiseSqrt"):
            return self.call("numpy." + {"cwiseAbs": "abs", "cwiseSqrt": "sqrt"}.get(name, name), o)
        if name == "sum":
            return self.mcall(o, "sum")
        return None


def assigned(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out
