"""Make the z3 Python bindings of the tooling venv importable from the project's interpreter, and nothing else of it."""
import importlib.machinery
import importlib.util
import os
import sys

SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _Finder:
    def find_spec(self, name, path=None, target=None):
        if name == "z3":
            p = os.path.join(SITE, "z3")
            return importlib.util.spec_from_file_location(name, os.path.join(p, "__init__.py"),
                                                          submodule_search_locations=[p])
        return None


try:
    import z3  # noqa
except ImportError:
    sys.meta_path.append(_Finder())
    import z3  # noqa
