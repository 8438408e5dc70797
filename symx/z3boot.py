"""Make the preinstalled z3 Python bindings importable from the interpreter that has stcal's deps."""
import importlib.util
import os
import sys

_ROOTS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


def load(name="z3"):
    if name in sys.modules:
        return sys.modules[name]
    try:
        return importlib.import_module(name)
    except ImportError:
        pass
    for root in _ROOTS:
        d = os.path.join(root, name)
        if os.path.isfile(os.path.join(d, "__init__.py")):
            spec = importlib.util.spec_from_file_location(
                name, os.path.join(d, "__init__.py"), submodule_search_locations=[d]
            )
            mod = importlib.util.module_from_spec(spec)
            sys.modules[name] = mod
            spec.loader.exec_module(mod)
            return mod
    raise ImportError(f"{name} python bindings not found")


z3 = load("z3")
