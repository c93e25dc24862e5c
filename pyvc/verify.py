"""Contract checking: explore a call of the real function from symbolic inputs, discharge every goal on every path."""
import importlib
import time

import z3

from .values import *
from .engine import *
from .interp import Machine


def resolve(path):
    """'pkg.mod:Class.method' -> function object"""
    mod, q = path.split(":")
    o = importlib.import_module(mod)
    for p in q.split("."):
        o = getattr(o, p)
    return o


class Enough(Exception):
    """enough failed obligations"""


class Contract:
    """one function under contract

    setup(ip) -> (args, kwargs, ghost)      symbolic inputs satisfying the precondition
    post(ip, ghost, comp) -> [(label, goal)] goals for an outcome comp = ('return', value) | ('raise', ExcVal)
    """

    def __init__(self, name, target, setup, post, overrides=None, contracts=None, hooks=None, prop=None, note="",
                 feas_ms=150, prove_ms=8000, budget=120, axioms=None):
        self.name, self.target, self.setup, self.post = name, target, setup, post
        self.overrides, self.contracts, self.hooks = overrides or {}, contracts or {}, hooks or []
        self.note, self.feas_ms, self.prove_ms, self.budget = note, feas_ms, prove_ms, budget
        self.axioms = axioms or (lambda: [])


def check_contract(c, verbose=False):
    """-> dict with obligations and their verdicts"""
    t0 = time.time()
    res = {"name": c.name, "target": c.target if isinstance(c.target, str) else c.name, "obligations": [], "paths": 0, "infeasible": 0,
           "unsupported": None, "vacuous": False}
    ip = Machine(overrides=c.overrides, contracts=c.contracts, hooks=c.hooks, feas_ms=c.feas_ms, prove_ms=c.prove_ms,
                 deadline=t0 + c.budget)
    ip.frame_violations, ip.strict_frame, ip.input_names = [], True, set()
    try:
        fn = resolve(c.target) if isinstance(c.target, str) else None
        ip.axioms = list(c.axioms())
        ip.reset()
        ghost = {}

        def thunk():
            ghost.clear()
            ip.in_setup = True
            args, kw, g = c.setup(ip)
            ip.in_setup = False
            ghost.update(g)
            ghost["__pre__"] = len(ip.pc)
            if callable(c.target):
                return c.target(ip, args, kw, ghost)
            f = ip.fn_of(fn)
            return ip.inline(f, args, kw)

        def at_end(comp):
            kind_, v = comp
            if kind_ == "normal":
                kind_ = "return"
            # the assumptions of this path must not be contradictory
            if ip.check(z3.BoolVal(True), ms=500) == z3.unsat:
                res["infeasible"] += 1
                return
            res["paths"] += 1
            ip.region_no += 1000
            out = kind_ if kind_ != "raise" else f"raise {v.cls.__name__}"
            todo = []
            try:
                for label, g in c.post(ip, ghost, (kind_, v)):
                    if g is not None:
                        todo.append((label, conj([ip.zb(x) for x in g]) if isinstance(g, list) else ip.zb(g)))
            except PyRaise as e:
                # what the specification speaks of is not there
                todo = [(f"the outcome has the form the contract describes ({e.exc.cls.__name__} where it is looked at)", z3.BoolVal(False))]
            together = None
            if len(todo) > 3 and ip.check(z3.Not(conj([g for _, g in todo])), ms=1500) == z3.unsat:
                together = "discharged"
            for label, g in todo:
                verdict, by = (together, "z3") if together else ip.prove(g, c.prove_ms)
                o = {"label": label, "verdict": verdict, "by": by, "path": res["paths"], "outcome": out}
                if verdict == "refuted":
                    o["exact"] = True
                    try:
                        m = ip.solver.model()
                        o["model"] = str(m)[:3000]
                    except z3.Z3Exception:
                        pass
                if verbose and verdict != "discharged":
                    print("   ", o["label"], verdict, o["outcome"])
                    if verbose > 1:
                        for t, e in ip.pc:
                            print("      ", t, str(e)[:600].replace("\n", " "))
                        print("      GOAL", z3.simplify(g))
                res["obligations"].append(o)
            if sum(o["verdict"] != "discharged" for o in res["obligations"]) >= 10:
                raise Enough()
        ip.explore(thunk, at_end)
        if res["paths"] == 0:
            res["vacuous"] = True
    except Enough:
        res["stopped"] = True
    except Unsupported as e:
        res["unsupported"] = str(e)
    except RecursionError:
        res["unsupported"] = "recursion"
    except (z3.Z3Exception, AssertionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
        import traceback
        res["unsupported"] = f"engine error {type(e).__name__}: {e}"
        if verbose:
            traceback.print_exc(limit=-8)
    if ip.frame_violations:
        res["frame_violation"] = ip.frame_violations[0][0]
    res["functions"] = sorted(ip.functions_seen)
    res["assumptions"] = sorted(ip.assumptions)
    res["loops"] = ip.loops_seen
    res["solver_time"] = round(ip.solver_time, 3)
    res["checks"] = ip.nchecks
    res["time"] = round(time.time() - t0, 2)
    return res


def summary(r):
    v = {}
    for o in r["obligations"]:
        v[o["verdict"]] = v.get(o["verdict"], 0) + 1
    return f"{r['name']}: paths={r['paths']} {v} unsupported={r['unsupported']} t={r['time']}" + (f" infeasible={r['infeasible']}" if r["infeasible"] else "")
