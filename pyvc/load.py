"""Common start-up of the verifier's processes."""
import json
import os
import sys
import warnings

os.environ.setdefault("SDL_VIDEODRIVER", "dummy")
os.environ.setdefault("PYGAME_HIDE_SUPPORT_PROMPT", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def contracts(prop=None):
    """Import the contract files; returns the registry."""
    import importlib
    from .core import Registry
    d = os.path.join(HERE, "contracts")
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            if prop is None or f[:-3].upper().startswith(prop):
                importlib.import_module("contracts." + f[:-3])
    return {k: c for k, c in Registry.contracts.items() if prop is None or c.prop == prop}


def known_labels(cid):
    """Obligations of a contract that known_findings.json lists as open for every input."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        found = json.load(open(path))["findings"]
    except FileNotFoundError:
        return []
    return [k["obligation"] for k in found if k["status"] == "open" and k["contract"] == cid and not k.get("inputs")]
