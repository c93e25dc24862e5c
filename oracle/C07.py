"""Policies of all superiors, per entity type.  Monitor: chains of statements with policies and metadata spread over levels and entity
types go through the real policy function (and apply_policies, several times, chains sharing statements), the outcome is compared with
the specified combination."""
import copy
import json

BUDGET = 40
BOUND = "2..6 statements per chain, 3 entity types, 7 claims, up to 3 chains sharing statements, up to 3 applications"
RULE = "the chains"
ASSUMPTIONS = ["each claim is governed by one operator family per chain, so that the expected combination does not depend on C05's and C06's details"]

TYPES = ["openid_relying_party", "openid_provider", "federation_entity"]
FAM = {"sub": "subset_of", "add": "add", "one": "one_of", "val": "value", "def": "default", "ess": "essential", "sup": "superset_of"}


class Refused(Exception):
    pass


def expect(superiors, leaf, t):
    """metadata for type t -> None | dict, or Refused"""
    fixed, pol = {}, {}
    for st in superiors:
        md = st.get("metadata", {}).get(t, {})
        mp = st.get("metadata_policy", {}).get(t, {})
        for c, v in md.items():
            if c in fixed and fixed[c] != v:
                raise Refused
            fixed[c] = v
        for c, p in mp.items():
            (op, v), = p.items()
            if c not in pol:
                pol[c] = v
            elif op in ("subset_of", "one_of", "superset_of"):
                pol[c] = [x for x in pol[c] if x in v]        # superset_of: see C05's known finding; equal sets here
                if not pol[c]:
                    raise Refused
            elif op == "add":
                pol[c] = pol[c] + [x for x in v if x not in pol[c]]
            elif op == "essential":
                if pol[c] and not v:
                    raise Refused
                pol[c] = pol[c] or v
            elif pol[c] != v:
                raise Refused
    if t not in leaf.get("metadata", {}):
        return None
    out = copy.deepcopy(leaf["metadata"][t])
    out.update(fixed)
    for c, v in pol.items():
        op = FAM[c[:3]]
        if op == "value":
            out[c] = v
        elif op == "add":
            out[c] = out.get(c, []) + [x for x in v if x not in out.get(c, [])]
        elif op == "default":
            out.setdefault(c, v)
        elif op == "essential":
            if v and c not in out:
                raise Refused
        elif c in out:
            if op == "subset_of":
                out[c] = [x for x in out[c] if x in v]
                if not out[c]:
                    raise Refused
            elif op == "one_of" and out[c] not in v:
                raise Refused
            elif op == "superset_of" and not set(v) <= set(out[c]):
                raise Refused
    return out


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted(json.dumps(norm(v), sort_keys=True) for v in x)
    return x


def chains(case):
    """case: {'statements': [...], 'chains': [[index...]], 'apply': [[chain, type or '']]}"""
    from . import fed
    from fedservice.entity.function import PolicyError
    from fedservice.entity_statement.statement import TrustChain
    pol = _entity().function.policy
    sts = copy.deepcopy(case["statements"])
    keep = copy.deepcopy(sts)
    for which, t in case["apply"]:
        path = case["chains"][which]
        tc = TrustChain(anchor="https://ta", verified_chain=[sts[i] for i in path])
        sup, leaf = [keep[i] for i in path[:-1]], keep[path[-1]]
        types = [t] if t else list(leaf.get("metadata", {}))
        want = {}
        try:
            for ty in types:
                want[ty] = expect(sup, leaf, ty)
        except Refused:
            want = None
        try:
            if case.get("via"):
                from fedservice.entity.function import apply_policies
                if t:
                    pol(tc, t)
                else:
                    r = apply_policies(_entity(), [tc])
                    if len(r) != 1 or r[0] is not tc:
                        return "apply_policies does not return the chain it was given"
            else:
                pol(tc, t) if t else pol(tc)
        except PolicyError as e:
            if want is not None:
                return f"statements {[keep[i] for i in path]}, type {t or 'all'}: refused ({e}), expected {want}"
            want = False
        if sts != keep:
            bad = [i for i in range(len(sts)) if sts[i] != keep[i]]
            return f"applying policies changed statement {keep[bad[0]]} into {sts[bad[0]]}"
        if want is False:
            continue
        if want is None:
            return f"statements {[keep[i] for i in path]}, type {t or 'all'}: accepted with {tc.metadata} although the levels contradict each other or the leaf"
        got = tc.metadata
        for ty in types:
            g = got.get(ty)
            if want[ty] is None and not g:
                continue
            if norm(g) != norm(want[ty]):
                return f"statements {[keep[i] for i in path]}, type {ty}: metadata is {g}, expected {want[ty]}"
        extra = [ty for ty in got if ty not in types and got[ty]]
        if extra:
            return f"metadata for {extra}, which the leaf does not declare"


_E = []


def _entity():
    if not _E:
        from . import fed
        _E.append(fed.entity("https://me.example.org"))
    return _E[0]


A = ["u", "v", "w", "x"]


def operand(r, c, level_pool):
    f = c[:3]
    if f == "ess":
        return r.random() < .6
    if f in ("val", "def"):
        return r.choice(["p", "p", "q", ["p"], False, 0]) if r.random() < .5 else level_pool.setdefault(c, r.choice(["p", ["q", "p"], 7, True]))
    if f == "sup":
        return level_pool.setdefault(c, r.sample(A, r.randint(1, 2)))
    return r.sample(A, r.randint(1, 4))


def rnd_statement(r, k, n, pool):
    st = {"iss": f"https://e{k}", "sub": f"https://e{k + 1}", "exp": 2 ** 32}
    if k == n - 1:
        st = {"iss": f"https://e{k}", "sub": f"https://e{k}", "exp": 2 ** 32, "metadata": {}}
        for t in TYPES:
            if r.random() < .7:
                md = {}
                for f in FAM:
                    if r.random() < .6:
                        md[f] = r.choice(A) if f == "one" else r.sample(A, r.randint(1, 4)) if f in ("sub", "add", "sup") else r.choice(["p", "q", ["p"]])
                if r.random() < .3:
                    md["free"] = {"deep": [1, {"x": 2}]}
                st["metadata"][t] = md
        if r.random() < .05:
            st["metadata_policy"] = {r.choice(TYPES): {"val": {"value": "LEAF"}}}
        return st
    for t in TYPES:
        if r.random() < .55:
            cl = r.sample(sorted(FAM), r.randint(1, 3))
            st.setdefault("metadata_policy", {})[t] = {c: {FAM[c]: operand(r, c, pool.setdefault(t, {}))} for c in cl}
        if r.random() < .25:
            used = st.get("metadata_policy", {}).get(t, {})
            m = {c: r.choice(["a", "b", 1]) if r.random() < .4 else "same" for c in r.sample(["m1", "m2", "free"], r.randint(1, 2)) if c not in used}
            if m:
                st.setdefault("metadata", {})[t] = m
    return st


def run(ctx):
    r = ctx.rnd
    for n in range(60000 if ctx.thorough else 6000):
        ln = r.randint(2, 6)
        pool = {}
        sts = [rnd_statement(r, k, ln, pool) for k in range(ln)]
        cases = [list(range(ln))]
        if r.random() < .4 and ln > 2:           # more chains over the same statements
            cases.append([0] + list(range(2, ln)))
            if r.random() < .5:
                sts.append(rnd_statement(r, ln - 1, ln, pool))
                cases.append(list(range(ln - 1)) + [ln])
        ap = [[r.randrange(len(cases)), r.choice(["", "", r.choice(TYPES)])] for _ in range(r.randint(1, 3))]
        ctx.run(chains, {"statements": sts, "chains": cases, "apply": ap, "via": r.random() < .5})
        if n % 100 == 0 and ctx.stop():
            return
