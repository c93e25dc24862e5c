"""Critical extensions.  Monitor: entity statements and metadata policies with random extra claims and operators, critical lists and known
extensions; trust marks verified for entities; status requests."""
import json

BUDGET = 40
BOUND = "up to 4 extra claims, 3 extra operators in 2 entity types, all subsets of critical and known lists of size up to 4"
RULE = "the message and what the verifier declares known"
ASSUMPTIONS = ["idpyoidc's Message drops empty lists, so an empty 'crit' in a signed statement is seen as absent"]

EXTRAS = ["foo", "bar", "tenant", "x5c"]
OPS = ["regexp", "intersects", "max"]
STD = {"subset_of": ["a", "b"], "one_of": ["a"], "superset_of": ["a"], "add": ["a"], "value": "a", "default": "a", "essential": True}
TYPES = ["openid_relying_party", "openid_provider", "oauth_client", "federation_entity", "oauth_authorization_server"]


def statement(case):
    from fedservice.exception import UnknownCriticalExtension
    from fedservice.message import EntityStatement
    from . import fed
    t = fed.now()
    p = {"iss": "https://a.example.org", "sub": "https://b.example.org", "iat": t, "exp": t + 1000}
    for e in case.get("extra", []):
        p[e] = "x" if e != "tenant" else {"deep": [1]}
    if case.get("crit") is not None:
        p["crit"] = case["crit"]
    if case.get("policy") is not None:
        p["metadata_policy"] = policy(case["policy"])
    if case.get("pcrit") is not None:
        p["policy_language_crit"] = case["pcrit"]
    kw = {}
    if case.get("known") is not None:
        kw["known_extensions"] = case["known"]
    if case.get("pknown") is not None:
        kw["known_policy_extensions"] = case["pknown"]
    bad = set(case.get("crit") or []) & set(case.get("extra", [])) - set(case.get("known") or [])
    ops = {o for pol in (case.get("policy") or {}).values() for os in pol.values() for o in os if o in OPS}
    bad |= set(case.get("pcrit") or []) & ops - set(case.get("pknown") or [])
    for how in ("init", "json", "dict"):
        m = EntityStatement(**json.loads(json.dumps(p))) if how == "init" else EntityStatement().from_json(json.dumps(p)) if how == "json" else EntityStatement().from_dict(json.loads(json.dumps(p)))
        for again in (1, 2):
            try:
                m.verify(**kw)
                err = None
            except Exception as e:
                err = e
            if bad and err is None:
                return f"{case}: accepted ({how}) although {sorted(bad)} is critical and not known"
            if not bad and err is not None:
                return f"{case}: refused ({how}): {type(err).__name__} {err}"
            if bad and not isinstance(err, UnknownCriticalExtension):
                return f"{case}: failed with {type(err).__name__} {err}"


def policy(spec):
    return {ty: {c: {o: STD.get(o, "x") for o in os} for c, os in cl.items()} for ty, cl in spec.items()}


def metadata_policy(case):
    """MetadataPolicy.verify directly, where an empty list can be handed in"""
    from fedservice.message import MetadataPolicy
    kw = {}
    if case["pcrit"] is not None:
        kw["policy_language_crit"] = case["pcrit"]
    if case["pknown"] is not None:
        kw["known_policy_extensions"] = case["pknown"]
    ops = {o for pol in case["policy"].values() for os in pol.values() for o in os if o in OPS}
    bad = bool(set(case["pcrit"] or []) & ops - set(case["pknown"] or [])) or case["pcrit"] == [] and bool(ops)
    try:
        MetadataPolicy(**policy(case["policy"])).verify(**kw)
        err = None
    except Exception as e:
        err = e
    if bad != (err is not None):
        return f"{case}: {'accepted' if bad else f'refused: {type(err).__name__} {err}'}"


def mark(case):
    from fedservice.message import TrustMark
    from . import fed
    t = fed.now()
    m = TrustMark(iss="https://tmi.example.org", sub=case["sub"], id="https://marks.example.org/a", iat=t - 10, **({"exp": t + 1000} if case["exp"] else {}))
    try:
        m.verify(**({"entity_id": case["for"]} if case["for"] is not None else {}))
        err = None
    except Exception as e:
        err = e
    bad = case["for"] is not None and case["for"] != case["sub"]
    if bad != (err is not None):
        return f"{case}: {'accepted' if bad else f'refused: {type(err).__name__} {err}'}"


def status_request(case):
    from fedservice.message import TrustMarkStatusRequest
    try:
        TrustMarkStatusRequest(**case).verify()
        err = None
    except Exception as e:
        err = e
    good = bool(case.get("trust_mark")) or bool(case.get("sub")) and bool(case.get("trust_mark_id"))
    if good != (err is None):
        return f"{case}: {f'refused: {type(err).__name__} {err}' if good else 'accepted'}"


def rand_policy(r):
    out = {}
    for ty in r.sample(TYPES, r.randint(0, 3)):
        out[ty] = {}
        for c in r.sample(["scope", "contacts", "grant_types"], r.randint(0, 3)):
            out[ty][c] = r.sample(list(STD), r.randint(0, 2)) + r.sample(OPS, r.choice([0, 0, 1, 1, 2]))
    return out


def sub(r, xs, none=.25):
    return None if r.random() < none else r.sample(xs, r.randint(0, len(xs)))


def run(ctx):
    r = ctx.rnd
    ctx.run(statement, {})
    for e in ([], ["foo"], ["foo", "bar"]):
        for c in (None, [], ["foo"], ["bar"], ["bar", "foo"], ["exp"], ["exp", "foo"]):
            for k in (None, [], ["foo"], ["bar"], ["foo", "bar"], ["baz", "foo"]):
                ctx.run(statement, {"extra": e, "crit": c, "known": k})
    two = {TYPES[0]: {"scope": ["value"], "contacts": ["add", "regexp"]}, TYPES[1]: {"scope": ["intersects"]}}
    for pol in ({}, {TYPES[0]: {"scope": ["subset_of"]}}, {TYPES[0]: {"scope": ["regexp"]}}, two):
        for c in (None, [], ["regexp"], ["intersects"], ["regexp", "intersects"], ["add"], ["max"]):
            for k in (None, [], ["regexp"], ["intersects"], OPS):
                ctx.run(metadata_policy, {"policy": pol, "pcrit": c, "pknown": k})
                ctx.run(statement, {"policy": pol, "pcrit": c, "pknown": k})
    A, B = "https://a.example.org", "https://a.example.org/"
    for s in (A, B, "https://b.example.org"):
        for f in (None, A, B, "", "https://A.example.org"):
            for e in (True, False):
                ctx.run(mark, {"sub": s, "for": f, "exp": e})
    for tm in (None, "x.y.z"):
        for s in (None, A):
            for i in (None, "https://marks.example.org/a"):
                for t in (None, 1000):
                    ctx.run(status_request, {k: v for k, v in (("trust_mark", tm), ("sub", s), ("trust_mark_id", i), ("iat", t)) if v is not None})
    n = 0
    while not ctx.stop() and n < (30000 if ctx.thorough else 1500):
        n += 1
        c = {"extra": r.sample(EXTRAS, r.randint(0, 4)), "crit": sub(r, EXTRAS + ["exp"]), "known": sub(r, EXTRAS)}
        if r.random() < .6:
            c.update({"policy": rand_policy(r), "pcrit": sub(r, OPS + ["add"]), "pknown": sub(r, OPS)})
        ctx.run(statement, c)
        if n % 3 == 0:
            ctx.run(metadata_policy, {"policy": rand_policy(r), "pcrit": sub(r, OPS + ["add"]), "pknown": sub(r, OPS)})
