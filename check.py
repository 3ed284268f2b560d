#!/opt/venv/bin/python
"""check.py PROPERTY: decides one property of /repo's current working tree.

For every contract of the property: generate and discharge the verification conditions of the real functions (pyvc.prove),
replay counterexamples and sample the same contract on the unmodified code (pyvc.concrete).
Exit 0: held on everything explored; exit 1: a line VIOLATION property=<id> replay=<path> per violation.
check.py --replay FILE re-runs a recorded violation.
"""
import argparse
import concurrent.futures as cf
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable
SEED = os.environ.get("VERIF_SEED", "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
REPLAYS = os.path.join(HERE, "evidence", "replays")


def run(mod, *args, limit=120):
    env = dict(os.environ)
    env.update(PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", SDL_VIDEODRIVER="dummy", MPLBACKEND="Agg",
               PYGAME_HIDE_SUPPORT_PROMPT="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.Popen([PY, "-m", mod] + [str(a) for a in args], cwd=HERE, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return {"crash": "time limit of %d s" % limit}
    for line in reversed(out.splitlines()):
        if line.startswith("@@"):
            return json.loads(line[2:])
    return {"crash": (err or out)[-1500:]}


def decide(c, budget):
    """One contract -> dict(verdict=..., violations=[...])."""
    t0 = time.time()
    secs = (120 if THOROUGH else 45)
    nsamp, ssec = (20000, 60) if THOROUGH else (c.opt.get("samples", 250), 4)
    res = {"id": c.id, "doc": c.doc, "targets": c.targets, "violations": [], "bounded": False}
    with cf.ThreadPoolExecutor(2) as ex:
        skip = c.opt.get("concrete_only")
        fp = None if skip else ex.submit(run, "pyvc.prove", c.id, "--seconds", secs, "--timeout", 20000 if THOROUGH else 6000,
                                         limit=max(4 * secs, 2 * c.opt.get("seconds", 0)) + 60)
        fc = None if c.opt.get("symbolic_only") else \
            ex.submit(run, "pyvc.concrete", c.id, "--samples", nsamp, "--seconds", ssec, "--seed", SEED, limit=ssec + 120)
        proof = fp.result() if fp else {"attempts": []}
        conc = fc.result() if fc else {"fails": [], "samples": 0, "counts": {}}
    atts = proof.get("attempts", [])
    res["proof"], res["concrete"] = proof, conc
    if "crash" in proof:
        res["note"] = "verifier did not finish: " + proof["crash"]
    proved = [a for a in atts if a["status"] == "proved"]
    fails = list(conc.get("fails", []))
    listed = {k["obligation"] for k in known() if k.get("status") == "open" and k["contract"] == c.id and not k.get("inputs")}
    if not proved and not skip and not c.opt.get("symbolic_only") and not fails:
        envs = []
        for a in atts:
            for l, o in a["obligations"].items():
                if o["status"] == "refuted" and o["env"] and not a["variant"].startswith("unbounded"):
                    envs.append(o["env"])
        # undecided or refuted: look for a failing input on the real code, harder
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump(envs[:20], f, default=str)
        try:
            s2 = 60 if THOROUGH else 20
            conc2 = run("pyvc.concrete", c.id, "--envs", f.name, "--samples", 20000, "--seconds", s2, "--seed", SEED + "b",
                        limit=s2 + 120)
        finally:
            os.unlink(f.name)
        res["concrete2"] = conc2
        fails += conc2.get("fails", [])
    for f in fails:
        v = {"property": c.prop, "contract": c.id, "obligation": f["obligation"], "info": f["info"], "inputs": f["inputs"],
             "found_by": f["found_by"], "replayable": True}
        res["violations"].append(v)
    new = [f for f in fails if f["obligation"] not in listed]
    if new:
        res["verdict"] = "violated"
    elif skip:
        res["verdict"] = "bounded" if conc.get("samples") else "undecided"
        res["bounded"] = True
    elif proved:
        a = proved[0]
        res["verdict"] = "bounded" if a["bounded"] else "proved"
        res["bounded"] = a["bounded"]
    else:
        last = None
        for a in atts:
            bad = [l for l, o in a["obligations"].items() if o["status"] == "refuted" and not o["internal"] and l not in listed
                   and not l.startswith(("no exception", "well-defined"))] if a["status"] == "refuted" else []
            if bad:
                last = (a, bad)
        # a definite counterexample of the obligation itself in the most precise attempt
        if last and last[0] is atts[-1] and not last[0].get("unsupported") and not c.opt.get("expect") == "unproved":
            res["verdict"] = "violated"
            for l in last[1]:
                o = last[0]["obligations"][l]
                res["violations"].append({"property": c.prop, "contract": c.id, "obligation": l, "info": o["note"],
                                          "inputs": o["env"], "found_by": "failed obligation (%s)" % last[0]["variant"],
                                          "replayable": False})
        elif fails and atts and all(o["status"] == "proved" or l in listed for l, o in atts[-1]["obligations"].items()):
            res["verdict"] = "known"        # everything but the listed findings is proved
            res["bounded"] = atts[-1]["bounded"]
        else:
            res["verdict"] = "undecided"
            res["bounded"] = True
    res["seconds"] = round(time.time() - t0, 2)
    return res


def known():
    try:
        return json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    except FileNotFoundError:
        return []


def matches(k, v):
    return k.get("status") == "open" and k["property"] == v["property"] and k["contract"] == v["contract"] and \
        k.get("obligation", v["obligation"]) == v["obligation"] and \
        all(str(v["inputs"].get(n)) == str(x) for n, x in (k.get("inputs") or {}).items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("PYVC_JOBS", "8")))
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    from pyvc import load
    cs = load.contracts(a.prop)
    if a.only:
        cs = {k: c for k, c in cs.items() if a.only in k}
    if not cs:
        print("no contracts for", a.prop)
        return 2
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        results = list(ex.map(lambda c: decide(c, 0), cs.values()))
    nviol = 0
    seen_known = []
    for r in results:
        for i, v in enumerate(r["violations"]):
            k = [x for x in known() if matches(x, v)]
            if k:
                if k[0]["what"] not in seen_known:
                    seen_known.append(k[0]["what"])
                    print("KNOWN-FINDING: property=%s %s" % (a.prop, k[0]["what"]))
                v["known"] = True
                continue
            nviol += 1
            path = os.path.join(REPLAYS, "%s-%d.json" % (r["id"].replace("/", "_"), i))
            json.dump({**v, "verifier": [{"variant": x["variant"], "status": x["status"],
                                          "obligations": {l: o for l, o in x["obligations"].items() if o["status"] != "proved"}}
                                         for x in r["proof"].get("attempts", [])]}, open(path, "w"), indent=1, default=str)
            print("  %s: obligation '%s' fails (%s): %s" % (r["id"], v["obligation"], v["found_by"], str(v["info"])[:300]))
            print("VIOLATION property=%s replay=%s%s" % (a.prop, path, "" if v["replayable"] else " no-failing-input-found"))
    evidence(a.prop, results, time.time() - t0, nviol)
    for r in results:
        kinds = {}
        for at in r["proof"].get("attempts", [])[-1:]:
            kinds = {"vcs": sum(o["vcs"] for o in at["obligations"].values()), "variant": at["variant"]}
        print("%-9s %-45s %s %s%s" % (r["verdict"], r["id"], kinds, "%.1fs" % r["seconds"],
                                      " (bounded)" if r["bounded"] and r["verdict"] != "bounded" else ""))
        if r["verdict"] == "undecided":
            print("    undecided, bounded stand-in only:", (r.get("note") or [(x["variant"], x["status"], x.get("unsupported"))
                                                                            for x in r["proof"].get("attempts", [])]))
        if r["concrete"].get("harness") or "crash" in r["concrete"]:
            print("    harness:", r["concrete"].get("harness") or r["concrete"].get("crash"))
    print("%s: %d contracts, %d proved, %d bounded or undecided, %d violations, %.1f s" % (
        a.prop, len(results), sum(r["verdict"] == "proved" for r in results),
        sum(r["verdict"] in ("bounded", "undecided") for r in results), nviol, time.time() - t0))
    return 1 if nviol else 0


TRUSTED = [
    "pyvc (this repository's verification-condition generator, its normal form for real terms and its models of Python, "
    "numpy and the standard library used by the code)",
    "z3 4.x and cvc5 as solvers (sound axioms for sin, cos, atan, sqrt, floor, ... are stated in pyvc/solve.py)",
    "floating-point arithmetic treated as real arithmetic (the sampled cross-check runs the unmodified code with floats)",
    "CPython and numpy execute the same source text that the conditions were generated from",
]


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


def evidence(prop, results, wall, nviol):
    obligations = discharged = 0
    funcs, back, assumed, bounded, proved_c, executed = set(), {}, set(), [], [], set()
    solver = 0.0
    evals = distinct = 0
    samples = []
    named = []
    for r in results:
        conc = r["concrete"]
        evals += conc.get("samples", 0) + conc.get("counts", {}).get("discard", 0)
        distinct += conc.get("samples", 0)
        for at in r["proof"].get("attempts", []):
            solver += at["solver_seconds"]
        executed |= set(r["proof"].get("executed", []))
        if r["verdict"] == "proved":
            at = [x for x in r["proof"]["attempts"] if x["status"] == "proved"][0]
            proved_c.append({"contract": r["id"], "statement": r["doc"], "variant": at["variant"], "paths": at["paths"],
                             "obligations": {l: o["vcs"] for l, o in at["obligations"].items()}})
            for l, o in at["obligations"].items():
                obligations += o["vcs"]
                discharged += o["proved"]
                for b, n in o["backends"].items():
                    back[b] = back.get(b, 0) + n
            assumed |= set(at["assumed"])
            funcs |= set(r["targets"])
        else:
            item = {"contract": r["id"], "statement": r["doc"], "verdict": r["verdict"],
                    "sampled_inputs": conc.get("samples", 0) + r.get("concrete2", {}).get("samples", 0)}
            for at in r["proof"].get("attempts", [])[-1:]:
                item["symbolic"] = {"variant": at["variant"], "status": at["status"], "reason": at.get("unsupported"),
                                    "vcs": sum(o["vcs"] for o in at["obligations"].values()),
                                    "proved": sum(o["proved"] for o in at["obligations"].values())}
            if r.get("note"):
                item["note"] = r["note"]
            bounded.append(item)
            funcs_b = r["targets"]
        if len(samples) < 12:
            samples.append({"contract": r["id"], "verdict": r["verdict"], "cross_check_inputs": conc.get("samples", 0)})
    lvl = level_of(prop)
    cov = {"obligations": obligations, "discharged": discharged,
           "checker_cmd": "python check.py %s  (per contract: python -m pyvc.prove <contract>)" % prop,
           "trusted_base": TRUSTED,
           "functions_under_contract": sorted(funcs), "functions_executed_symbolically": sorted(executed),
           "discharged_by_backend": back, "solver_seconds": round(solver, 2),
           "proved_contracts": proved_c, "bounded_not_counted_as_proved": bounded,
           "evaluations": evals, "distinct_nontrivial": distinct,
           "rule": "cross-check: each contract's input space sampled (bounds, special values, uniform) on the unmodified code "
                   "with floats; non-trivial = the precondition held and every postcondition was evaluated",
           "samples": samples}
    assumptions = sorted(assumed) + ["machine arithmetic treated as mathematical reals"] + \
        ["dependencies outside /repo (numpy, pandas, gym, pygame) behave as modelled or as they run"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(SEED) if
                   SEED.lstrip("-").isdigit() else 1, "level": lvl, "coverage": cov, "assumptions": assumptions,
                   "wall_s": round(wall, 2), "violations": nviol}, f, indent=1, default=str)


def replay(path):
    d = json.load(open(path))
    if not d.get("replayable"):
        print("no failing input recorded; obligation:", d["obligation"])
        r = run("pyvc.prove", d["contract"], limit=400)
        bad = [(a["variant"], l, o["note"]) for a in r.get("attempts", []) for l, o in a["obligations"].items()
               if o["status"] != "proved"]
        print(json.dumps(bad, indent=1))
        return 1 if bad else 0
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump([d["inputs"]], f)
    r = run("pyvc.concrete", d["contract"], "--envs", f.name, "--samples", 0, "--seconds", 0)
    os.unlink(f.name)
    print(json.dumps(r, indent=1))
    if r.get("fails"):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
