"""Combining metadata policies.  Monitor: all pairs of one-operator policies over a three-value universe, random pairs of policies with
up to seven operators, and whole combinations (metadata and policies of several claims) against what each side demands."""
import copy
import itertools

BUDGET = 40
BOUND = "values over {W,X,Y,Z}, list values of up to 4 entries, up to 7 operators per claim, up to 5 claims"
RULE = "pairs of policies"
ASSUMPTIONS = ["policies are well formed: list operands, a value that meets the other operators of its own policy, one_of not together "
               "with subset_of/superset_of"]

OPS = ["value", "default", "add", "one_of", "subset_of", "superset_of", "essential"]
U = ["X", "Y", "Z"]


def aslist(v):
    return v if isinstance(v, list) else [v]


def meets(p, v):
    """does the value v meet what p demands (operators that do not restrict are ignored)"""
    vs = set(aslist(v))
    if "value" in p and not same(p["value"], v):
        return False
    if "one_of" in p and not vs <= set(p["one_of"]):
        return False
    if "subset_of" in p and not vs <= set(p["subset_of"]):
        return False
    if "superset_of" in p and not vs >= set(p["superset_of"]):
        return False
    if "add" in p and not vs >= set(aslist(p["add"])):
        return False
    return True


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return sorted(map(str, a)) == sorted(map(str, b))
    return a == b


def sub(u):
    return [list(c) for n in range(1, len(u) + 1) for c in itertools.combinations(u, n)]


VALUES = U + sub(U) + ["W", ["W"], ["X", "W"], ["W", "X", "Y", "Z"]]


def claim_problem(sup, ch, r):
    """what is wrong with the combination r of sup and ch; '[superset-intersection]' marks the known deviation"""
    known = None
    sup2, ch2 = dict(sup), dict(ch)
    if "superset_of" in sup and "superset_of" in ch and "superset_of" in r:
        a, b = set(sup["superset_of"]), set(ch["superset_of"])
        if set(r["superset_of"]) == (a & b) != (a | b):
            known = f"[superset-intersection] {sup} + {ch} requires only the values that both require: {r}"
            # what is left to check is everything else
            sup2["superset_of"] = ch2["superset_of"] = list(a & b)
    for op in ("value", "default"):
        for who, p in (("superior", sup), ("subordinate", ch)):
            if op in p and not ("value" in r and op == "default") and (op not in r or not same(r[op], p[op])):
                return f"{sup} + {ch} = {r}: the {who}'s {op} is not kept"
        if op in r and op not in sup and op not in ch:
            return f"{sup} + {ch} = {r}: {op} comes from nowhere"
    fixed = "value" in r and meets(sup2, r["value"]) and meets(ch2, r["value"])
    if not fixed:
        for op, f in (("subset_of", lambda a, b: a & b), ("one_of", lambda a, b: a & b), ("superset_of", lambda a, b: a | b), ("add", lambda a, b: a | b)):
            vals = [set(aslist(p[op])) for p in (sup2, ch2) if op in p]
            if not vals:
                if op in r:
                    return f"{sup} + {ch} = {r}: {op} comes from nowhere"
                continue
            want = vals[0] if len(vals) == 1 else f(*vals)
            if op not in r or set(aslist(r[op])) != want:
                return f"{sup} + {ch} = {r}: {op} should be {sorted(want)}"
    if (sup.get("essential") or ch.get("essential")) and not r.get("essential") and "value" not in r:
        return f"{sup} + {ch} = {r}: no longer essential"
    for v in VALUES:
        if meets(r, v) and not (meets(sup2, v) and meets(ch2, v)):
            return f"{sup} + {ch} = {r}: accepts {v}, which {'the superior' if not meets(sup2, v) else 'the subordinate'} does not"
    return known


def claim(case):
    from fedservice.entity.function.policy import combine_claim_policy
    sup, ch = case
    try:
        r = combine_claim_policy(copy.deepcopy(sup), copy.deepcopy(ch))
    except Exception:
        return None
    return claim_problem(sup, ch, r)


def whole(case):
    from fedservice.entity.function.policy import combine
    sup, ch = case
    try:
        r = combine(copy.deepcopy(sup), copy.deepcopy(ch))
    except Exception:
        r = None
    sm, cm = sup.get("metadata", {}), ch.get("metadata", {})
    sp, cp = sup.get("metadata_policy", {}), ch.get("metadata_policy", {})
    clash = [c for c in sm if c in cm and sm[c] != cm[c]]
    if r is None:
        if clash or set(sp) & set(cp) or set(sm) & set(cp):
            return None
        return f"{sup} + {ch}: nothing they state concerns the same claim, but the combination fails"
    rm, rp = r.get("metadata", {}), r.get("metadata_policy", {})
    if clash:
        return f"{sup} + {ch} = {r}: the subordinate states another {clash[0]} than the superior has fixed, and that is not refused"
    known = None
    if rm != {**cm, **sm}:
        return f"{sup} + {ch}: combined metadata {rm}"
    if set(rp) != set(sp) | set(cp):
        return f"{sup} + {ch}: combined policy is about {sorted(rp)}"
    for c in rp:
        if c in sp and c in cp:
            m = claim_problem(sp[c], cp[c], rp[c])
            if m and m.startswith("[superset"):
                known = m
            elif m:
                return f"{c}: {m}"
        elif rp[c] != (sp[c] if c in sp else cp[c]):
            return f"{sup} + {ch}: policy for {c}, which only one states, came out as {rp[c]}"
    # a value fixed by the superior survives the subordinate's policy
    from fedservice.entity.function.policy import TrustChainPolicy
    only = {c for c in sm if c in cp and c not in sp}
    if only:
        try:
            out = TrustChainPolicy(None).apply_policy({}, copy.deepcopy({"metadata": {c: sm[c] for c in only}, "metadata_policy": {c: rp[c] for c in only}}))
        except Exception:
            out = None
        if out is not None:
            for c in only:
                if not same(out.get(c), sm[c]) and set(aslist(out.get(c))) != set(aslist(sm[c])):
                    return f"{sup} + {ch}: the superior's {c}={sm[c]} ends up as {out.get(c)}"
    return known


FALSY = [False, 0, "", []]


def rnd_policy(r, u):
    p = {}
    if r.random() < .08:
        p = {r.choice(["value", "default"]): r.choice(FALSY)}
        if r.random() < .5:
            p["essential"] = r.random() < .6
        return p
    for op in r.sample(OPS, r.choice([1, 1, 2, 2, 3, 4])):
        if op == "essential":
            p[op] = r.random() < .6
        elif op in ("value", "default"):
            p[op] = r.choice(u) if r.random() < .5 else r.sample(u, r.randint(1, len(u)))
        elif op == "add":
            p[op] = r.choice(u) if r.random() < .3 else r.sample(u, r.randint(1, len(u)))
        else:
            p[op] = r.sample(u, r.randint(1, len(u)))
    if "one_of" in p:
        p.pop("subset_of", None)
        p.pop("superset_of", None)
    if "value" in p and not meets({k: v for k, v in p.items() if k != "value"}, p["value"]):
        p.pop("value")
    if not p:
        p = {"essential": True}
    return p


def singles():
    out = []
    for op in OPS:
        if op == "essential":
            out += [{op: True}, {op: False}]
        elif op in ("value", "default"):
            out += [{op: v} for v in U + sub(U) + FALSY]
        elif op == "add":
            out += [{op: v} for v in sub(U) + ["X"]]
        else:
            out += [{op: v} for v in sub(U)]
    return out


def run(ctx):
    r = ctx.rnd
    s = singles()
    for a in s:
        for b in s:
            ctx.run(claim, [a, b])
        if ctx.stop():
            return
    u4 = ["W"] + U
    for n in range(200000 if ctx.thorough else 20000):
        u = r.choice([U[:2], U, u4])
        ctx.run(claim, [rnd_policy(r, u), rnd_policy(r, u)])
        if n % 500 == 0 and ctx.stop():
            return
    cl = ["a", "b", "c", "d", "e"]
    for n in range(60000 if ctx.thorough else 6000):
        def side():
            d = {}
            if r.random() < .7:
                d["metadata"] = {c: r.choice([1, 0, "X", ["X"], ["X", "Y"], True, {"k": 1}, None]) for c in r.sample(cl, r.randint(0, 3))}
            if r.random() < .8:
                d["metadata_policy"] = {c: rnd_policy(r, r.choice([U[:2], U])) for c in r.sample(cl, r.randint(0, 3)) if c not in d.get("metadata", {})}
            return d
        ctx.run(whole, [side(), side()])
        if n % 500 == 0 and ctx.stop():
            return
