#!/opt/venv/bin/python
"""check.py Cxx [--thorough] [--replay FILE]   decide one property on /repo's working tree (see DESIGN.md)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
if os.environ.get("VERIF_CHECK_ENV") != REPO:
    env = dict(os.environ, VERIF_CHECK_ENV=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH=f"{HERE}:{HERE}/shim:{REPO}/src")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import hashlib
import importlib
import json
import multiprocessing as mp
import random
import subprocess
import time
import traceback
import warnings

warnings.simplefilter("ignore")


class Ctx:
    """runs cases of the contract monitor: fn(case) returns None (fine) or a message; cases are JSON values"""

    def __init__(self, prop, seed, tier, budget):
        self.prop, self.tier, self.budget = prop, tier, budget
        self.rnd = random.Random(f"{seed}:{prop}")
        self.t0 = time.time()
        self.evaluations, self.seen, self.samples = 0, set(), []
        self.violations, self.errors, self.counts, self.known = [], [], {}, []
        self.crashes = []
        self.findings = load_known(prop)
        self.thorough = tier == "thorough"

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run(self, fn, case, key=None):
        """-> True when the case was fine"""
        self.evaluations += 1
        self.counts[fn.__name__] = self.counts.get(fn.__name__, 0) + 1
        h = hashlib.sha1((fn.__name__ + json.dumps(case, sort_keys=True, default=str)).encode()).digest()[:10]
        if h not in self.seen:
            self.seen.add(h)
            if len(self.samples) < 4 and len(self.seen) % 37 == 1:
                self.samples.append({"case": fn.__name__, "input": json.loads(json.dumps(case, default=str))})
        try:
            msg = fn(case)
        except Exception as e:
            if len(self.errors) < 5:
                self.errors.append(f"{fn.__name__}: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}")
            self.counts["errors"] = self.counts.get("errors", 0) + 1
            if len(self.crashes) < 2 and self.in_code(e):
                self.crashes.append({"case": fn.__name__, "input": case, "message": f"the operation fails: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-3)}"})
            return False
        if msg is None:
            return True
        k = key(case, msg) if callable(key) else (key or fn.__name__)
        for ident, text in self.findings:
            if ident == k or msg.startswith(f"[{ident}]"):
                if ident not in self.known:
                    self.known.append(ident)
                return True
        if sum(v["case"] == fn.__name__ for v in self.violations) < 2:
            self.violations.append({"case": fn.__name__, "input": case, "message": msg})
        return False

    @staticmethod
    def in_code(e):
        """raised by the code under test (or what it calls), not by the harness or at its seam with the code"""
        if isinstance(e, (TypeError, AttributeError, ImportError, NotImplementedError)):
            return False
        repo, last = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "fedservice") + os.sep, None
        for f in traceback.extract_tb(e.__traceback__):
            if f.filename.startswith(repo):
                last = True
            elif f.filename.startswith(HERE + os.sep):
                last = False
        return bool(last)

    def stop(self):
        return len(self.violations) >= 3 or self.left() < 0


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={prop} "):
                ident, _, text = line[len(f"known: property={prop} "):].strip().partition(" ")
                out.append((ident[len("id="):] if ident.startswith("id=") else ident, text))
    return out


def worker(a):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    prop, idx, scale, t_end = a
    from pyvc.verify import check_contract
    m = importlib.import_module("contracts." + prop)
    c = m.CONTRACTS[idx]
    c.budget *= scale
    try:
        r = check_contract(c)
        if r.get("frame_violation"):
            r["obligations"].append({"label": "frame: " + r["frame_violation"] + " is not changed", "verdict": "refuted", "path": 0})
        if not r["unsupported"] and any(o["verdict"] in ("refuted", "unknown") for o in r["obligations"]):
            # once more with much larger limits before anything is reported
            c.budget = min(c.budget * 4, t_end - time.time())
            c.prove_ms *= 4
            c.feas_ms *= 3
            r2 = check_contract(c)
            bad = [sum(o["verdict"] in ("refuted", "unknown") for o in x["obligations"]) for x in (r, r2)]
            if not r2["unsupported"] and bad[1] <= bad[0]:
                r = r2
        return r
    except BaseException as e:
        return {"name": c.name, "target": str(c.target), "obligations": [], "paths": 0, "unsupported": f"{type(e).__name__}: {e}",
                "functions": [], "assumptions": [], "loops": [], "solver_time": 0, "checks": 0, "time": 0, "vacuous": False}


def contract_count(prop):
    if not os.path.exists(os.path.join(HERE, "contracts", prop + ".py")):
        return 0
    return len(importlib.import_module("contracts." + prop).CONTRACTS)


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.environ.setdefault("TMPDIR", "/tmp")
    oracle = None
    if os.path.exists(os.path.join(HERE, "oracle", prop + ".py")):
        oracle = importlib.import_module("oracle." + prop)

    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if "case" in r:
            msg = getattr(oracle, r["case"])(r["input"])
            print("REPLAY", r["case"], "->", msg or "no violation")
            return 1 if msg else 0
        print(json.dumps(r, indent=1))
        return 1

    n = contract_count(prop)
    pool = mp.get_context("spawn").Pool(min(7, max(1, n))) if n else None
    limit = 700 if tier == "quick" else 3000
    jobs = [pool.apply_async(worker, ((prop, i, 4 if tier == "thorough" else 1, t0 + limit - 30),)) for i in range(n)]

    ctx = Ctx(prop, seed, tier, (getattr(oracle, "BUDGET", 60) * (8 if tier == "thorough" else 1)) if oracle else 0)
    crash = None
    if oracle:
        try:
            oracle.run(ctx)
        except Exception:
            crash = traceback.format_exc()
    results = []
    for j in jobs:
        try:
            results.append(j.get(max(1, limit - (time.time() - t0))))
        except mp.TimeoutError:
            results.append({"name": "?", "target": "?", "obligations": [], "paths": 0, "unsupported": "timeout", "functions": [],
                            "assumptions": [], "loops": [], "solver_time": 0, "checks": 0, "time": 0, "vacuous": False})
    if pool:
        pool.terminate()

    # ---- verdict
    obl = [dict(o, contract=r["name"], target=r["target"]) for r in results for o in r["obligations"]]
    counted = [o for o in obl if o["verdict"] != "vacuous"]
    disch = [o for o in counted if o["verdict"] == "discharged"]
    cut = {r["name"] for r in results if r["unsupported"]}    # ran out of time: what z3 left open there proves nothing
    refuted = [o for o in counted if o["verdict"] == "refuted" or (o["verdict"] == "unknown" and o["contract"] not in cut)]
    undec = [r["name"] + ": " + (r["unsupported"] or "no obligations") for r in results if r["unsupported"] or not r["obligations"]]
    undec += [f'{o["contract"]}: {o["label"]} ({o["verdict"]})' for o in obl if o["verdict"] == "vacuous"]
    vio = list(ctx.violations)
    if not vio and (refuted or undec):
        vio = list(ctx.crashes)    # on this tree no case of the monitor makes the code under test fail
    noinput = False
    if not vio and refuted:
        noinput = True
        for o in refuted[:3]:
            vio.append({"obligation": f'{o["contract"]} / {o["label"]}', "target": o["target"], "outcome": o.get("outcome"),
                        "verifier": "z3: the negated obligation is satisfiable on this path" if o["verdict"] == "refuted" else
                        "z3 and cvc5 did not discharge the obligation within the limits (discharged on the tree this was written for)",
                        "model": o.get("model", "")})
    ok = bool(ctx.evaluations or disch)
    for r in results:
        print(f'contract {r["name"]}: {sum(o["verdict"] == "discharged" for o in r["obligations"])}/'
              f'{sum(o["verdict"] != "vacuous" for o in r["obligations"])} obligations, {r["paths"]} paths, {r["time"]}s'
              + (f' UNDECIDED {r["unsupported"]}' if r["unsupported"] else ""))
    for u in undec:
        print("undecided:", u)
    print(f"monitor: {ctx.evaluations} evaluations of the contracts on the running code, {len(ctx.seen)} distinct, {ctx.counts}")
    for e in ctx.errors:
        print("monitor error:", e)
    if crash:
        print("monitor crashed:", crash)

    evidence(prop, tier, seed, time.time() - t0, results, counted, disch, undec, ctx, oracle, vio)
    for ident, text in ctx.findings:
        if ident in ctx.known:
            print(f"KNOWN-FINDING: property={prop} {text}")
    if vio:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        path = os.path.join(HERE, "out", f"{prop}-{os.getpid()}.json")
        v = dict(vio[0], property=prop, all=vio[1:])
        json.dump(v, open(path, "w"), indent=1, default=str)
        print(json.dumps(vio[0], default=str)[:1500])
        print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if noinput else ""))
        return 1
    shaken = crash or (ctx.errors and ctx.counts["errors"] * 2 > ctx.evaluations)
    if not ok or shaken and (undec or not disch):
        print("UNDECIDED")
        return 2
    print(f"OK property={prop}" + ("" if not undec else " (some obligations undecided: bounded monitor only for those)"))
    return 0


def evidence(prop, tier, seed, wall, results, counted, disch, undec, ctx, oracle, vio):
    level = "proof"
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                level = c["level"]
    except Exception:
        pass
    funcs = sorted({f for r in results for f in r["functions"]})
    cov = {
        "obligations": len(counted), "discharged": len(disch),
        "checker_cmd": f"/verif/check.py {prop} (pyvc: verification conditions from /repo's current source; z3 {z3v()}, cvc5 as second opinion)",
        "trusted_base": TRUSTED,
        "loop_invariant_obligations": sum(2 * len(l["invariants"]) for r in results for l in r["loops"]),
        "by_backend": {b: sum(o.get("by") == b for o in disch) for b in sorted({o.get("by") for o in disch if o.get("by")})},
        "solver_time_s": round(sum(r["solver_time"] for r in results), 2),
        "solver_queries": sum(r["checks"] for r in results),
        "functions_under_contract": sorted({r["target"] if isinstance(r["target"], str) else r["name"] for r in results}),
        "functions_interpreted": funcs,
        "contracts": [{"name": r["name"], "obligations": sum(o["verdict"] != "vacuous" for o in r["obligations"]),
                       "discharged": sum(o["verdict"] == "discharged" for o in r["obligations"]), "paths": r["paths"],
                       "loops": r["loops"], "time_s": r["time"], "undecided": r["unsupported"]} for r in results],
        "assumptions": sorted({a for r in results for a in r["assumptions"]}) + list(getattr(oracle, "ASSUMPTIONS", [])),
        "undecided": undec,
        "evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.seen),
        "rule": "bounded monitor: the contract's specification function evaluated beside the running code; distinct by input. "
                + (getattr(oracle, "RULE", "") if oracle else ""),
        "bounded": getattr(oracle, "BOUND", "") if oracle else "",
        "case_counts": ctx.counts, "samples": ctx.samples,
        "explanation": getattr(oracle, "__doc__", "") or "",
    }
    if vio:
        cov["violations"] = [json.loads(json.dumps(v, default=str)) for v in vio]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 2)},
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


TRUSTED = ["pyvc (the verification condition generator in /verif/pyvc: its account of Python's semantics)", "z3", "cvc5",
           "CPython's ast module", "the contracts assumed for callees outside fedservice (listed under assumptions)"]


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    sys.exit(main())
