"""Registered native entry points with the functions they run."""
import ast
from .bindings import Bindings
from .cxx import Fn
from .pyproj import Func


class Entry:
    def __init__(self, reg, func, cls):
        self.reg, self.func, self.cls = reg, func, cls

    @property
    def qual(self):
        return self.reg.qual


def bindings(N):
    if not hasattr(N, "_bindings"):
        N._bindings = {m: Bindings(u) for m, u in N.units.items()}
    return N._bindings


def lambda_func(N, m, r):
    """The function of a lambda registered in place of a named function."""
    if not hasattr(r, "_lamfn"):
        u, mod = N.units[m], N.mods[m]
        nm = f"_bound_{r.cls or ''}_{r.name}_{len(mod.funcs)}"
        body = [x for x in (r.lam.get("inner") or ()) if x][-1]
        d = r.target if u._body(r.target) is not None else dict(r.target, inner=list(r.target.get("inner", ())) + [body])
        d.setdefault("_line", r.lam.get("_line"))
        d.setdefault("_file", r.lam.get("_file"))
        fn = Fn(d, None, nm)
        out = u._function(fn)
        r._lamfn = None
        if out:
            ast.fix_missing_locations(out[0])
            r._lamfn = mod.funcs[nm] = Func(f"{mod.name}.{nm}", out[0], mod)
    return r._lamfn


def entries(N):
    """[Entry] for every registered function, method and constructor whose body is known."""
    out = []
    for m, b in bindings(N).items():
        mod = N.mods[m]
        for r in b.regs:
            if r.kind not in ("func", "method", "init", "static") or not r.target:
                continue
            fn = b.unit.fns.get(r.target.get("id"))
            if fn is None and r.kind == "init":
                c = b.unit.class_for(b.classes.get(r.cls, ""))
                fn = next((f for f in (c.ctors if c else ()) if getattr(f, "decl", f) is r.target), None)
            if fn is None or not hasattr(fn, "pyname"):
                continue
            owner = fn.cls
            if owner is None:
                f = mod.funcs.get(fn.pyname)
                if f is not None:
                    out.append(Entry(r, f, None))
                continue
            k = mod.classes.get(getattr(fn, "clsname", None) or owner.pyname)
            if k is None:
                continue
            f = k.methods.get(fn.pyname)
            own = b.unit.class_for(b.classes.get(r.cls, "")) if r.cls and r.kind != "init" else None
            kk = mod.classes.get(own.pyname) if own is not None else k
            if f is not None:
                out.append(Entry(r, f, kk or k))
    return out


def reaching(N, pred):
    """Names of functions that satisfy pred or call, directly or not, one that does."""
    from .rules.c11 import called_names
    fns = [f for _, f, _ in N.funcs()]
    calls = {f.qual: called_names(f.node) for f in fns}
    names = {f.name for f in fns if pred(f)}
    while True:
        more = {f.name for f in fns if f.name != "__init__" and calls[f.qual] & names} - names
        if not more:
            return names
        names |= more
