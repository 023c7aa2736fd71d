"""Loads the Python sources and type stubs of the analysed repository.

Names are resolved to fully qualified dotted names through the import tables of
each module (including relative imports, aliases and re-exports of packages).
"""
import ast
import os


class AnalysisError(Exception):
    """The analysis lost something it needs (vanished anchor, parse failure)."""


class Func:
    def __init__(self, qual, node, module, cls=None, closure=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure
        decos = []
        for d in getattr(node, "decorator_list", []):
            f = d.func if isinstance(d, ast.Call) else d
            decos.append(ast.unparse(f))
        self.decorators = decos

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    @property
    def is_property(self):
        return any(d == "property" or d.endswith("cached_property") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_abstract(self):
        return any(d.endswith("abstractmethod") for d in self.decorators)

    @property
    def is_stub(self):
        return self.module.is_stub

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def defaults(self):
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[x.arg] = v
        return d

    def loc(self):
        return f"{self.module.rel}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}
        self.annots = {}
        self.inner = {}
        self.base_names = []
        for b in node.bases:
            self.base_names.append(module.dotted(b))
        self._mro = None
        self.setters = {}
        for s in _flat(node.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{qual}.{s.name}", s, module, self)
                if any(d.endswith(".setter") for d in f.decorators):
                    self.setters[s.name] = f
                elif any(d.endswith("overload") for d in f.decorators):
                    self.methods.setdefault(s.name, f)
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.ClassDef):
                self.inner[s.name] = Class(f"{qual}.{s.name}", s, module)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.annots[s.target.id] = s.annotation
                if s.value is not None:
                    self.attrs[s.target.id] = s.value

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    def bases(self):
        out = []
        for n in self.base_names:
            c = self.module.proj.find_class(n) if n else None
            if c is not None:
                out.append(c)
        return out

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def find_annot(self, name):
        for c in self.mro():
            if name in c.annots:
                return c, c.annots[name]
        return None

    def is_sub(self, other):
        return any(c is other or c.qual == other for c in self.mro())

    def ext_bases(self):
        """Names of external base classes in the whole hierarchy."""
        out = set()
        for c in self.mro():
            for n in c.base_names:
                if n and self.module.proj.find_class(n) is None:
                    out.add(n)
        return out

    def __repr__(self):
        return f"<Class {self.qual}>"


def _c3(c):
    bases = c.bases()
    seqs = [list(b.mro()) for b in bases] + [list(bases)]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            h = seqs[0][0]
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                del s[0]


def _flat(body):
    """Statements including those under module/class level if/try/with."""
    for s in body:
        yield s
        if isinstance(s, ast.If):
            yield from _flat(s.body)
            yield from _flat(s.orelse)
        elif isinstance(s, ast.Try):
            yield from _flat(s.body)
            for h in s.handlers:
                yield from _flat(h.body)
            yield from _flat(s.orelse)
            yield from _flat(s.finalbody)
        elif isinstance(s, ast.With):
            yield from _flat(s.body)


class Module:
    def __init__(self, proj, name, path, is_pkg, is_stub=False, tree=None):
        self.proj = proj
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, proj.root)
        self.is_pkg = is_pkg
        self.is_stub = is_stub
        if tree is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            try:
                tree = ast.parse(src, filename=path)
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {self.rel}: {e}")
        self.tree = tree
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.assigns = {}
        self.annots = {}
        for s in ast.walk(self.tree):
            if isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        self.imports[al.asname] = al.name
                    else:
                        self.imports[al.name.split(".")[0]] = al.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = self._from(s)
                for al in s.names:
                    if al.name != "*":
                        self.imports[al.asname or al.name] = f"{base}.{al.name}" if base else al.name
        for s in _flat(self.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(f"{name}.{s.name}", s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for x, v in zip(t.elts, s.value.elts):
                            if isinstance(x, ast.Name):
                                self.assigns[x.id] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.annots[s.target.id] = s.annotation
                if s.value is not None:
                    self.assigns[s.target.id] = s.value
        for s in _flat(self.tree.body):
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(f"{name}.{s.name}", s, self)

    def _from(self, s):
        if not s.level:
            return s.module or ""
        parts = self.name.split(".")
        drop = s.level - (1 if self.is_pkg else 0)
        if drop:
            parts = parts[:-drop]
        return ".".join(parts + ([s.module] if s.module else []))

    def dotted(self, e):
        """Fully qualified name of a Name/Attribute expression at module level, or None."""
        if isinstance(e, ast.Subscript):
            return self.dotted(e.value)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.dotted(ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            if e.id in self.classes or e.id in self.funcs or e.id in self.assigns:
                return f"{self.name}.{e.id}"
            if e.id in self.imports:
                return self.proj.canonical(self.imports[e.id])
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return self.proj.canonical(f"{b}.{e.attr}") if b else None
        return None


class Project:
    def __init__(self, root, pkg_root="src"):
        self.root = root
        self.modules = {}
        base = os.path.join(root, pkg_root)
        self.base = base
        if not os.path.isdir(base):
            raise AnalysisError(f"source directory {base} is missing")
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in ("__pycache__",) and not x.startswith(".")]
            for f in sorted(files):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, base)
                if f.endswith(".py"):
                    name = rel[:-3].replace(os.sep, ".")
                    is_pkg = name.endswith(".__init__")
                    if is_pkg:
                        name = name[: -len(".__init__")]
                    elif name == "__init__":
                        continue
                    self.modules[name] = Module(self, name, p, is_pkg)
                elif f.endswith(".pyi"):
                    name = rel[:-4].replace(os.sep, ".")
                    if name not in self.modules:
                        self.modules[name] = Module(self, name, p, False, is_stub=True)

    def canonical(self, dotted, depth=0):
        """Follow re-exports: a.b.c -> defining module's qualified name."""
        if depth > 12:
            return dotted
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            m = self.modules.get(mn)
            if m is None:
                continue
            if i == len(parts):
                return dotted
            head, rest = parts[i], parts[i + 1:]
            if head in m.classes or head in m.funcs or head in m.assigns:
                return dotted
            if head in m.imports:
                tgt = m.imports[head]
                if tgt == ".".join(parts[: i + 1]):
                    return dotted
                return self.canonical(".".join([tgt] + rest), depth + 1)
            return dotted
        return dotted

    def find_class(self, qual):
        if not qual:
            return None
        qual = self.canonical(qual)
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is not None:
                c = m.classes.get(parts[i])
                for p in parts[i + 1:]:
                    if c is None:
                        return None
                    c = c.inner.get(p)
                return c
        return None

    def find_func(self, qual):
        qual = self.canonical(qual)
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is not None:
                if len(parts) == i + 1:
                    return m.funcs.get(parts[i])
                c = self.find_class(".".join(parts[:-1]))
                if c is not None:
                    return c.find(parts[-1])
                return None
        return None

    def cls(self, qual):
        c = self.find_class(qual)
        if c is None:
            raise AnalysisError(f"anchor class {qual} not found")
        return c

    def func(self, qual):
        f = self.find_func(qual)
        if f is None:
            raise AnalysisError(f"anchor function {qual} not found")
        return f

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def subclasses(self, qual):
        c = self.cls(qual)
        return [k for k in self.all_classes() if c in k.mro()]
