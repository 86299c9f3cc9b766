"""pysolar from /repo's working tree, loaded three times: with the numpy backend (as installed),
with the math backend selected, and with numpy not importable.  The copies are separate module
objects, so none sees the module state of another."""
import contextlib
import importlib
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from pbt import Violation

MODULES = ("constants", "numeric", "tzinfo_check", "solartime", "radiation", "elevation", "solar", "util",
           "simulate", "rest")


def _ours(k):
    return k == "pysolar" or k.startswith("pysolar.")


class Lib:
    def __init__(self, backend=None, block_numpy=False):
        hidden = {k: sys.modules.pop(k) for k in list(sys.modules) if _ours(k)}
        if block_numpy:
            for k in list(sys.modules):
                if k == "numpy" or k.startswith("numpy."):
                    hidden[k] = sys.modules.pop(k)
            sys.modules["numpy"] = None
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        self.blocked = block_numpy
        try:
            self.pkg = importlib.import_module("pysolar")
            if os.path.dirname(os.path.realpath(self.pkg.__file__)) != os.path.realpath(os.path.join(REPO, "pysolar")):
                raise ImportError("pysolar comes from %s" % self.pkg.__file__)
            for m in MODULES:
                setattr(self, m, importlib.import_module("pysolar." + m))
        except Exception as e:
            raise Violation("importing pysolar raised %s: %s" % (type(e).__name__, e)) from None
        finally:
            self.mods = {k: m for k, m in sys.modules.items() if _ours(k)}
            if any(_ours(k) for k in hidden) or block_numpy:
                for k in list(sys.modules):
                    if _ours(k):
                        del sys.modules[k]
                if block_numpy:
                    del sys.modules["numpy"]
                sys.modules.update(hidden)
        if backend == "math":
            self.pkg.use_math()
        elif backend == "numpy":
            self.pkg.use_numpy()

    def activate(self):
        """make this the copy that an import finds, for functions that import when called"""
        sys.modules.update(self.mods)

    @contextlib.contextmanager
    def active(self):
        """the same for a while; numpy cannot be imported then if this copy was loaded without it"""
        old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)
        np = sys.modules.get("numpy")
        if self.blocked:
            sys.modules["numpy"] = None
        try:
            yield self
        finally:
            if self.blocked:
                sys.modules["numpy"] = np
            for k, m in old.items():
                if m is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = m


import numpy  # noqa: E402  (before any copy is loaded)

_cache = {}  # filled by preload() before the workers fork


def get(kind):
    """kind: 'numpy' (as imported), 'math', 'blocked'; any other name is a further copy as imported"""
    if kind not in _cache:
        if kind != "numpy":
            get("numpy")        # the copy found in sys.modules
        _cache[kind] = Lib("math" if kind == "math" else None, kind == "blocked")
    _cache[kind].activate()
    return _cache[kind]


def libs():
    return {"numpy": get("numpy"), "math": get("math")}
