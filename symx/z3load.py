"""Import z3 from the tooling venv into whatever interpreter runs the checks."""
import importlib.util
import os
import sys

_CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3",
]


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    for cand in _CANDIDATES:
        init = os.path.join(cand, "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                "z3", init, submodule_search_locations=[cand]
            )
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    import z3

    return z3
