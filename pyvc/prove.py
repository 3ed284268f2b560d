"""python -m pyvc.prove CONTRACT [--seconds S] [--timeout MS]: proof of one contract, JSON on the last line."""
import argparse
import json
import sys
import time

import logging

from . import load
from . import instrument


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--seconds", type=float, default=60)
    ap.add_argument("--timeout", type=int, default=6000)
    ap.add_argument("--max-paths", type=int, default=1500)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(20000)
    instrument.install()
    t0 = time.time()
    cs = load.contracts(a.cid.split(".")[0])
    c = cs[a.cid]
    out = {"id": c.id, "prop": c.prop, "targets": c.targets, "doc": c.doc, "attempts": []}
    from . import solve, core
    missing = []
    for t in c.targets:
        if not exists(t):
            missing.append(t)
    out["missing_targets"] = missing
    ran = executed()
    solve.FEASIBLE_MS[0] = c.opt.get("feasible")
    for v in c.variants():
        eng = core.Engine(c, v, time.time() + float(c.opt.get("seconds", a.seconds)), int(c.opt.get("timeout", a.timeout)),
                          int(c.opt.get("max_paths", a.max_paths)))
        s0 = dict(solve.STATS)
        t1 = time.time()
        try:
            eng.run()
        except Exception as e:      # a failure of the verifier itself
            import traceback
            eng.unsupported = "internal: %r %s" % (e, traceback.format_exc()[-600:])
        st = "proved"
        if any(o.status == "refuted" for o in eng.obl.values()):
            st = "refuted"
        elif eng.unsupported:
            st = "unsupported"
        elif any(o.status == "unknown" for o in eng.obl.values()):
            st = "unknown"
        elif not eng.reached or not any(not o.internal for o in eng.obl.values()):
            st = "vacuous"
        att = {"variant": v[0], "status": st, "paths": eng.paths, "completed_paths": eng.reached,
               "unsupported": eng.unsupported, "seconds": round(time.time() - t1, 2),
               "solver_seconds": round(solve.STATS["time"] - s0["time"], 2),
               "queries": solve.STATS["queries"] - s0["queries"], "assumed": sorted(eng.assumed),
               "bounded": v[0].startswith("bounded") or bool(c.opt.get("bounded")),
               "obligations": {l: {"vcs": o.paths, "proved": o.proved, "status": o.status, "backends": o.backends, "internal": o.internal,
                                   "secs": round(o.secs, 2), "note": o.note[:600], "env": o.env} for l, o in eng.obl.items()}}
        out["attempts"].append(att)
        if a.verbose:
            print(v, st, eng.paths, eng.unsupported, "%.1fs" % (time.time() - t1))
            for l, o in eng.obl.items():
                print("   ", o.status, l, "%d/%d" % (o.proved, o.paths), o.backends, "%.2f" % o.secs, o.note[:300], o.env or "")
        if st == "proved":
            break
    out["executed"] = sorted(ran())
    out["seconds"] = round(time.time() - t0, 2)
    print("\n@@" + json.dumps(out, default=str))


def exists(t):
    """module:Class.function or module:function"""
    import importlib
    m, _, q = t.partition(":")
    try:
        o = importlib.import_module(m)
        for p in q.split("."):
            o = getattr(o, p)
        return True
    except Exception:
        return False


def executed():
    """Which functions of the repository a run enters."""
    seen = set()
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "pyvc")

    def start(code, off):
        if "highway_env" in code.co_filename and "<" not in code.co_qualname.split(".")[-1]:
            seen.add("%s:%s" % (code.co_filename.split("highway_env/", 1)[1], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return lambda: seen


if __name__ == "__main__":
    main()
