"""Import irspack from ./src of the current directory without its compiled modules."""
import os
import sys
import types

sys.dont_write_bytecode = True
SRC = os.path.join(os.getcwd(), "src")


class Dummy:
    def __init__(self, *a, **k):
        self.args, self.kwargs = a, k

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Dummy()


class NativeStub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = type(n, (Dummy,), {})
        setattr(self, n, c)
        return c


def install(**native):
    """native: short module name -> dict of attributes overriding the stub."""
    p = types.ModuleType("irspack")
    p.__path__ = [os.path.join(SRC, "irspack")]
    sys.modules["irspack"] = p
    full = {"_core_evaluator": "irspack.evaluation._core_evaluator", "_util_cpp": "irspack.utils._util_cpp",
            "_ials_core": "irspack.recommenders._ials_core", "_knn": "irspack.recommenders._knn"}
    for short, name in full.items():
        m = NativeStub(name)
        for k, v in native.get(short, {}).items():
            setattr(m, k, v)
        sys.modules[name] = m
    return p
