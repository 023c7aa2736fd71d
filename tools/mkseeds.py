#!/usr/bin/env python3
"""Regenerate /verif/seeded from tools/seeds/*.py.  usage: mkseeds.py [ID...]"""
import glob, importlib.util, os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
for p in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/seeds/*.py")):
    sp = importlib.util.spec_from_file_location("x", p)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for s in m.SEEDS:
        if sys.argv[1:] and s["id"] not in sys.argv[1:]:
            continue
        with tempfile.NamedTemporaryFile("w", suffix=s.get("suffix", ".py")) as f:
            f.write(s["demo"].lstrip("\n")); f.flush()
            seed.make(s["id"], s["prop"], s["edits"], s["needs"], s["what"], f.name)
            for n, t in s.get("files", {}).items():
                open(os.path.join(seed.V, "seeded", s["id"], n), "w").write(t)
