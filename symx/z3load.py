"""Import z3 into this interpreter without exposing the rest of its venv."""
from __future__ import annotations
import importlib.util, os, sys, glob

def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    cands = glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py")
    for init in cands:
        spec = importlib.util.spec_from_file_location(
            "z3", init, submodule_search_locations=[os.path.dirname(init)])
        mod = importlib.util.module_from_spec(spec)
        sys.modules["z3"] = mod
        try:
            spec.loader.exec_module(mod)
            return mod
        except Exception:
            sys.modules.pop("z3", None)
            raise
    raise RuntimeError("z3 python bindings not found")

z3 = load()
