#!/usr/bin/env python3
"""Self-test of the checks: apply textual edits to a scratch copy, run the checks, compare the verdict.

usage: mut.py [FILTER]...     (FILTER: property id, or substring of a mutant name)
Edits live in tools/mutants/*.py as lists MUTANTS = [(name, properties, kind, [(file, old, new), ...]), ...] with
kind "bug" (some listed property must alarm) or "ref" (every check must stay quiet).
"""
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ALL = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(VERIF + "/sa/rules/c[0-9][0-9].py"))


def load():
    out = []
    for p in sorted(glob.glob(HERE + "/mutants/*.py")):
        sp = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        pre = os.path.basename(p)[:-3] + ":"
        out += [(pre + n, *r) for n, *r in m.MUTANTS]
    return out


def run(m):
    name, props, kind, edits = m
    props = [props] if isinstance(props, str) else list(props)
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        for x in ("src", "setup.py", "pyproject.toml", "cpp_source", "include"):
            s = os.path.join("/repo", x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, x), symlinks=True, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
            elif os.path.exists(s):
                shutil.copy(s, d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if old not in t:
                return name, "STALE", f"{f}: text not found"
            if t.count(old) > 1 and not old.startswith("\n"):
                pass
            open(p, "w").write(t.replace(old, new, 1))
        for f, _, _ in edits:
            if f.endswith(".py"):
                r = subprocess.run([sys.executable, "-m", "py_compile", os.path.join(d, f)], capture_output=True, text=True)
                if r.returncode:
                    return name, "SYNTAX", r.stderr[-300:]
        res = {}
        outs = {}
        todo = props if kind == "bug" else (props if props != ["*"] else ALL)
        for p in todo:
            if not os.path.exists(f"{VERIF}/sa/rules/{p.lower()}.py"):
                continue
            ev = tempfile.mkdtemp(prefix="ev.")
            r = subprocess.run([sys.executable, VERIF + "/check.py", "--property", p], capture_output=True, text=True,
                               env=dict(os.environ, IRSPACK_REPO=d, SA_EVIDENCE=ev))
            shutil.rmtree(ev, ignore_errors=True)
            res[p] = r.returncode
            outs[p] = r.stdout + r.stderr
        if kind == "bug":
            ok = any(c == 1 for c in res.values())
            show = "" if ok else "\n".join(l[:300] for o in outs.values() for l in o.splitlines()[-6:])
            why = next((l[:200] for o in outs.values() for l in o.splitlines() if ": [" in l), "")
            return name, "caught" if ok else "MISSED", f"{res} {why if ok else show}"
        for p in res:
            if "INCOMPLETE" in outs[p]:
                res[p] = res[p] or 2
        ok = all(c == 0 for c in res.values())
        show = "" if ok else "\n".join(l[:700] for p, o in outs.items() if res[p] for l in o.splitlines()[:6])
        return name, "quiet" if ok else "FALSE-ALARM", show
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    flt = sys.argv[1:]
    verbose = "-v" in flt
    flt = [f for f in flt if f != "-v"]
    ms = [m for m in load() if not flt or any(f in m[0] or f == m[1] or f in m[1] for f in flt)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for name, verdict, detail in ex.map(run, ms):
            good = verdict in ("caught", "quiet")
            bad += not good
            if not good or verbose:
                print(f"{verdict:12} {name}: {detail}")
    print(f"{len(ms)} edits, {bad} not as expected")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
