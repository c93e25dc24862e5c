"""Applying metadata policies.  Monitor: every policy of up to two operators over a three-value universe on every metadata value, and
random policies with up to seven operators over several claims, against the specified outcome for each claim."""
import copy

from .C05 import FALSY, OPS, U, aslist, meets, rnd_policy, singles, sub

BUDGET = 40
BOUND = "values over {W,X,Y,Z}, list values of up to 4 entries, up to 7 operators per claim, up to 5 claims"
RULE = "policy and metadata"
ASSUMPTIONS = ["policies are well formed: list operands for one_of, subset_of, superset_of; a value that meets the other operators of its "
               "own policy; one_of not together with subset_of/superset_of"]

NO = "(absent)"


def expected(p, m):
    """-> ('value', v) | ('error',): what the operators prescribe, one after the other"""
    if "value" in p:
        return ("value", p["value"])
    cur = m
    if "add" in p:
        cur = sorted(set(aslist(cur)) | set(aslist(p["add"])), key=str) if cur != NO else p["add"]
    if cur == NO and "default" in p:
        cur = p["default"]
    if cur != NO:
        if "one_of" in p and not set(aslist(cur)) <= set(p["one_of"]):
            return ("error",)
        if "subset_of" in p:
            if isinstance(cur, list):
                cur = [x for x in cur if x in p["subset_of"]]
                if not cur:
                    return ("error",)
            elif cur not in p["subset_of"]:
                return ("error",)
        if "superset_of" in p and not set(p["superset_of"]) <= set(aslist(cur)):
            return ("error",)
    elif p.get("essential"):
        return ("error",)
    return ("value", cur)


def like(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    return set(a) == set(b) if isinstance(a, list) else a == b


def apply(case):
    from fedservice.entity.function import PolicyError
    from fedservice.entity.function.policy import TrustChainPolicy
    policy, metadata, fixed = case
    full = copy.deepcopy({**metadata, **fixed})
    pol = {"metadata_policy": copy.deepcopy(policy)}
    if fixed:
        pol["metadata"] = copy.deepcopy(fixed)
    want = {c: expected(p, full.get(c, NO)) for c, p in policy.items()}
    try:
        out = TrustChainPolicy(None).apply_policy(copy.deepcopy(metadata), pol)
    except PolicyError as e:
        if all(w[0] == "value" and w[1] == full.get(c, NO) for c, w in want.items()) and \
                not any(full.get(c) == [] for c in policy):
            return f"policy {policy} on {full}: refused ({e}) although the metadata satisfies it"
        if all(w[0] == "value" for w in want.values()) and not any(full.get(c) == [] for c in policy):
            return f"policy {policy} on {full}: refused ({e}) although what the operators prescribe, {want}, satisfies it"
        return None
    except Exception as e:
        return f"policy {policy} on {full}: {type(e).__name__}: {e} instead of a policy error"
    for c, w in want.items():
        got = out.get(c, NO)
        if w[0] == "error":
            return f"policy {policy} on {full}: accepted with {c}={got}, which does not satisfy {policy[c]}"
        if got == NO and w[1] == NO:
            continue
        if got == NO or w[1] == NO or not like(got, w[1]):
            return f"policy {policy} on {full}: {c} comes out as {got}, the operators prescribe {w[1]}"
    for c in set(out) | set(full):
        if c not in policy and (c not in out or c not in full or out[c] != full[c]):
            return f"policy {policy} on {full}: {c}, which the policy does not name, comes out as {out.get(c, NO)}"


def run(ctx):
    r = ctx.rnd
    s = singles()
    vals = [NO] + U + sub(U) + ["W", ["W"], ["X", "W"], ["W", "X", "Y"]] + FALSY
    for p in s:
        for v in vals:
            ctx.run(apply, [{"c": p}, {} if v == NO else {"c": v}, {}])
    for n in range(len(s) ** 2):
        if not ctx.thorough and n % 3:
            continue
        a, b = s[n % len(s)], s[n // len(s)]
        p = {**a, **b}
        if "one_of" in p and ("subset_of" in p or "superset_of" in p):
            continue
        if "value" in p and not meets({k: v for k, v in p.items() if k != "value"}, p["value"]):
            continue
        for v in (vals if ctx.thorough else r.sample(vals, 4)):
            ctx.run(apply, [{"c": p}, {} if v == NO else {"c": v}, {}])
        if ctx.stop():
            return
    cl = ["a", "b", "c", "d", "e"]
    for n in range(100000 if ctx.thorough else 12000):
        u = r.choice([U[:2], U, ["W"] + U])
        pol = {c: rnd_policy(r, u) for c in r.sample(cl, r.randint(1, 4))}
        md = {c: (r.choice(u) if r.random() < .4 else r.sample(u, r.randint(0 if r.random() < .1 else 1, len(u)))) for c in r.sample(cl, r.randint(0, 4))}
        if r.random() < .1:
            md[r.choice(cl)] = r.choice(FALSY)
        if r.random() < .3:
            md["other"] = r.choice([{"x": 1}, 5, None, "s", [1, 2]])
        fixed = {c: r.choice([r.choice(u), r.sample(u, 1)]) for c in r.sample(cl, r.choice([0, 0, 1]))}
        ctx.run(apply, [pol, md, fixed])
        if n % 500 == 0 and ctx.stop():
            return
