"""python -m pyvc.concrete CONTRACT [--envs FILE] [--samples N] [--seconds S] [--seed K]: the contract's harness on the
unmodified code with floats: replays the given inputs, then samples the contract's input space.  JSON on the last line."""
import argparse
import io
import json
import random
import sys
import time
import traceback
import contextlib

import logging

from . import load
from . import instrument


def of_standin(e):
    """Is this exception about a stand-in of the contract (something it does not describe was used), or about an attribute that
    a constructor would have set on an object the contract made without one? Then it says nothing about the code."""
    import inspect, re, types
    if isinstance(e, AttributeError) and e.name is not None:
        k = e.obj if isinstance(e.obj, type) else type(e.obj)
        if k.__module__.startswith("contracts") or k is types.SimpleNamespace:
            return True
        if isinstance(e.obj, types.FunctionType) and e.obj.__module__.startswith("contracts"):
            return True
        if k.__module__.startswith("highway_env") and k is not e.obj:
            for b in k.__mro__:
                if "__init__" in vars(b) and b.__module__.startswith("highway_env"):
                    try:
                        src = inspect.getsource(b.__init__)
                    except (OSError, TypeError):
                        continue
                    if re.search(r"\bself\.%s\b[^=\n]*=[^=]" % re.escape(e.name), src):
                        return True
    if isinstance(e, TypeError):
        m = str(e)
        if "<locals>" in m:
            return True
        names = set(re.findall(r"'(\w+)'", m)) - {"int", "float", "str", "list", "tuple", "dict", "set", "bool", "NoneType", "type", "object"}
        return bool(names & standins())
    return False


def standins():
    """Names of the classes that contracts define and the code does not."""
    if not STANDINS:
        import glob, os, re, sys
        own = lambda pattern: {n for f in glob.glob(pattern, recursive=True) for n in re.findall(r"^\s*class (\w+)", open(f).read(), re.M)}
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = os.path.dirname(sys.modules["highway_env"].__file__) if "highway_env" in sys.modules else ""
        STANDINS.update(own(here + "/contracts/*.py") - (own(code + "/**/*.py") if code else set()) | {"SimpleNamespace"})
    return STANDINS


STANDINS = set()


def run_one(c, rng, env):
    from . import core
    from .spec import Discard
    ctx = core.ConcCtx(rng, env)
    try:
        with ctx, contextlib.redirect_stdout(io.StringIO()):
            c.fn(ctx)
    except Discard:
        return "discard", ctx, None
    except core.Fail as f:
        return "fail", ctx, (f.label, f.info)
    except (KeyboardInterrupt, SystemExit):
        raise
    except core.Unsupported as e:      # a stand-in met a use that its contract does not describe: no answer
        return "harness", ctx, ("unsupported", str(e))
    except MemoryError:
        return "discard", ctx, None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if "highway_env" in f.filename]
        where = inrepo[-1] if inrepo else tb[-1]
        label = "no exception (%s)" % type(e).__name__
        info = "%s at %s:%d" % (e, where.filename, where.lineno)
        if not inrepo or of_standin(e):
            return "harness", ctx, (label, info + " " + traceback.format_exc()[-500:])
        return "fail", ctx, (label, info)
    return "ok", ctx, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--envs")
    ap.add_argument("--samples", type=int, default=300)
    ap.add_argument("--seconds", type=float, default=5)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    logging.disable(logging.CRITICAL)
    instrument.install_plain()
    import numpy
    numpy.seterr(all="ignore")
    c = load.contracts(a.cid.split(".")[0])[a.cid]
    from .spec import TOL
    TOL[0] = c.opt.get("tol", 1e-6)
    rng = random.Random("%s/%s" % (a.seed, a.cid))
    numpy.random.seed(rng.randrange(2 ** 31))
    random.seed(rng.randrange(2 ** 31))
    fails, counts, harness = [], {"ok": 0, "discard": 0, "fail": 0, "harness": 0}, None
    from . import core
    core.KNOWN.update({label: None for label in load.known_labels(a.cid)})
    envs = json.load(open(a.envs)) if a.envs else []
    replayed = 0
    labels = set()

    def handle(kind, ctx, f, how):
        nonlocal harness
        counts[kind] += 1
        for label, info in core.KNOWN.items():
            if info is not None and label not in labels:
                labels.add(label)
                fails.append({"obligation": label, "info": info, "inputs": ctx.env, "found_by": how})
        if kind == "fail":
            if f[0] not in labels:
                labels.add(f[0])
                fails.append({"obligation": f[0], "info": f[1], "inputs": ctx.env, "found_by": how})
        elif kind == "harness":
            harness = harness or (f[0] + " " + f[1])
    for env in envs:
        kind, ctx, f = run_one(c, rng, env)
        replayed += 1
        handle(kind, ctx, f, "replay of the verifier's counterexample")
        if kind != "fail":
            # vary the inputs around the model
            for _ in range(60):
                e2 = {}
                for k, v in env.items():
                    if k.startswith("?") or k.startswith("!") or isinstance(v, (bool, str)) or isinstance(v, list):
                        e2[k] = v
                    elif rng.random() < 0.6:
                        e2[k] = v
                    elif rng.random() < 0.5:
                        e2[k] = v + rng.gauss(0, 0.3)
                kind, ctx, f = run_one(c, rng, e2)
                handle(kind, ctx, f, "variation of the verifier's counterexample")
                if kind == "fail":
                    break
    t0 = time.time()
    n = 0
    done = {}
    while n < a.samples and time.time() - t0 < a.seconds and len(fails) - len(labels & set(core.KNOWN)) < 4:
        kind, ctx, f = run_one(c, rng, None)
        handle(kind, ctx, f, "sampling")
        if kind != "discard":
            n += 1
    out = {"id": a.cid, "samples": n, "replayed": replayed, "counts": counts, "fails": fails, "harness": harness,
           "seconds": round(time.time() - t0, 2)}
    print("\n@@" + json.dumps(out, default=str))
    if a.verbose:
        print(json.dumps(out, indent=1, default=str))


if __name__ == "__main__":
    main()
