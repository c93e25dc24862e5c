"""Creating entity statements.  Monitor: the real function, the context's method and the entity configuration endpoint with random arguments;
the signed result is verified and its payload compared with what was asked for."""
import copy
import json
import os
import tempfile

BUDGET = 50
BOUND = "random subsets of the arguments, up to 3 values each, several statements in a row by one entity"
RULE = "the arguments"
ASSUMPTIONS = ["signing (cryptojwt) is trusted", "claims with empty values count as not given", "given subject keys are taken as they are given"]

ME = "https://issuer.example.org"
_FE = {}
MD = [{}, None, {"federation_entity": {"organization_name": "x"}}, {"openid_provider": {"issuer": "https://op.example.org", "scopes_supported": ["a", "b"]}, "federation_entity": {}}]
MP = [{}, None, {"openid_relying_party": {"scope": {"subset_of": ["a"]}}}, {"federation_entity": {"contacts": {"add": ["q"]}}}]
HINTS = [None, [], ["https://ta.example.org"], ["https://ta.example.org", "https://tb.example.org"]]
AUD = [None, "", "https://aud.example.org", ["https://a.example.org", "https://b.example.org"]]
CON = [None, {}, {"max_path_length": 1}, {"max_path_length": 0, "naming_constraints": {"permitted": [".example.org"]}}]
EXTRA = [{}, {"trust_marks": [{"id": "x", "trust_mark": "a.b.c"}]}, {"source_endpoint": "https://f.example.org"}, {"trust_anchor_id": "https://ta.example.org", "crit": ["foo"], "foo": "bar"}, {"trust_chain": ["a", "b"]},
         {"policy_language_crit": ["regexp"]}]


def keys():
    from cryptojwt.key_bundle import KeyBundle
    from . import C12
    kb = KeyBundle()
    kb.append(C12.rsa("issuer"))
    return kb


def entity(kind, **kw):
    from . import fed
    k = json.dumps([kind, {a: str(b) for a, b in kw.items()}], sort_keys=True)
    if k not in _FE:
        fe = fed.entity(ME, preference={"organization_name": "The issuer"}, endpoints=["entity_configuration", "fetch", "list"], **kw)
        for i in ("", ME):
            fe.keyjar._issuers.pop(i, None)
            fe.keyjar.add_kb(i, keys())
        _FE[k] = fe
    return _FE[k]


def verified(tok, issuer):
    from cryptojwt.key_jar import KeyJar
    from cryptojwt.jwt import JWT
    from . import C12, fed
    kj = KeyJar()
    kj.import_jwks({"keys": [C12.rsa("issuer").serialize(private=False)]}, issuer)
    JWT(key_jar=kj, allowed_sign_algs=["RS256", "ES256"]).unpack(tok)
    return fed.payload_of(tok)


def private(x):
    if isinstance(x, dict):
        if "kty" in x and (set(x) & {"d", "p", "q", "dp", "dq", "qi", "k"}):
            return True
        return any(private(v) for v in x.values())
    return any(private(v) for v in x) if isinstance(x, list) else False


def compare(where, p, iss, sub, want, lifetime, jwks):
    from . import fed
    t = fed.now()
    if p.get("iss") != iss or p.get("sub") != sub:
        return f"{where}: issued by {p.get('iss')} about {p.get('sub')}"
    if private(p.get("jwks")):
        return f"{where}: carries private keys"
    if jwks == "own":
        from . import C12
        k = C12.rsa("issuer").serialize(private=False)
        got = [(x.get("kid"), x.get("n")) for x in (p.get("jwks") or {}).get("keys", [])]
        if got != [(k.get("kid"), k.get("n"))]:
            return f"{where}: carries the keys {got} instead of the issuer's public keys"
    elif p.get("jwks") != jwks:
        return f"{where}: carries the keys {p.get('jwks')}, given were {jwks}"
    if not (t - 30 <= p.get("iat", 0) <= t + 30) or p.get("exp") != p["iat"] + lifetime:
        return f"{where}: lives from {p.get('iat')} to {p.get('exp')}, the lifetime given is {lifetime}"
    rest = {k: v for k, v in p.items() if k not in ("iss", "sub", "iat", "exp", "jwks", "kid", "jti")}
    want, rest = ({k: v for k, v in x.items() if v not in (None, "", [], {})} for x in (want, rest))
    if "aud" in want and isinstance(want["aud"], str) and rest.get("aud") == [want["aud"]]:
        rest["aud"] = want["aud"]
    if rest != want:
        return f"{where}: states {rest}, asked for {want}"


def function(case):
    from fedservice.entity_statement.create import create_entity_statement
    from cryptojwt.key_jar import KeyJar
    from . import fed
    kj = KeyJar()
    kj.add_kb("", keys())
    kj.add_kb(ME, keys())
    kw = {k: copy.deepcopy(case[k]) for k in ("metadata", "metadata_policy", "authority_hints", "aud", "constraints") if k in case}
    if case.get("callable") and "authority_hints" in kw:
        h = kw["authority_hints"]
        kw["authority_hints"] = lambda: list(h or [])
    kw.update(copy.deepcopy(case.get("extra", {})))
    for k in ("lifetime", "include_jwks"):
        if k in case:
            kw[k] = case[k]
    jwks = "own"
    if case.get("jwks"):
        kw["jwks"] = jwks = fed.jwks(*case["jwks"])
    elif case.get("include_jwks") is False:
        jwks = None
    before = {k: copy.deepcopy(v) for k, v in kw.items() if not callable(v)}
    for n in range(2):
        tok = create_entity_statement(ME, case["sub"], kj, **kw)
        want = {k: case.get(k) for k in ("metadata", "metadata_policy", "authority_hints", "aud", "constraints")}
        want.update(case.get("extra", {}))
        m = compare(f"{case}: statement {n}", verified(tok, ME), ME, case["sub"], want, case.get("lifetime", 86400), jwks)
        if m:
            return m
        if {k: v for k, v in kw.items() if not callable(v)} != before:
            return f"{case}: creating the statement changed its arguments"


def context(case):
    from . import fed
    fe = entity("ctx")
    c = fe.context
    saved = c.authority_hints, c.trust_marks, c.default_lifetime
    try:
        c.authority_hints, c.trust_marks, c.default_lifetime = copy.deepcopy(case["own_hints"]), copy.deepcopy(case["own_marks"]), case["own_lifetime"]
        kw = {k: copy.deepcopy(case[k]) for k in ("metadata", "metadata_policy", "authority_hints", "aud", "constraints", "lifetime") if k in case}
        kw.update(copy.deepcopy(case.get("extra", {})))
        jwks = "own"
        if case.get("jwks"):
            jwks = fed.jwks(*case["jwks"])
            if case.get("as_keys"):
                kw["keys"] = jwks["keys"]
            else:
                kw["jwks"] = jwks
        tok = c.create_entity_statement(ME, case["sub"], **kw)
        want = {k: case.get(k) for k in ("metadata", "metadata_policy", "authority_hints", "aud", "constraints")}
        want.update(case.get("extra", {}))
        if not want.get("authority_hints"):
            want["authority_hints"] = case["own_hints"]
        if not want.get("trust_marks"):
            want["trust_marks"] = case["own_marks"]
        m = compare(f"{case}", verified(tok, ME), ME, case["sub"], want, case.get("lifetime") or case["own_lifetime"], jwks)
        if m:
            return m
        if c.authority_hints != case["own_hints"] or c.trust_marks != case["own_marks"]:
            return f"{case}: creating a statement changed the entity's own hints or marks"
    finally:
        c.authority_hints, c.trust_marks, c.default_lifetime = saved


def configuration(case):
    fe = entity("ec")
    c = fe.context
    saved = c.authority_hints, c.trust_marks
    name = ""
    try:
        c.authority_hints = copy.deepcopy(case["hints"])
        marks = copy.deepcopy(case["marks"])
        c.trust_marks = (lambda: list(marks or [])) if case.get("callable") else marks
        if case.get("files"):
            fd, name = tempfile.mkstemp()
            with os.fdopen(fd, "w") as fp:
                json.dump(marks or [], fp)
            c.trust_marks = name
        hints = copy.deepcopy(case["hints"])
        if case.get("hints_callable"):
            c.authority_hints = lambda: list(hints)
        ep = fe.server.get_endpoint("entity_configuration")
        for n in range(2):
            # what the request says does not matter
            tok = ep.process_request(copy.deepcopy(case.get("request", {})))["response"]
            p = verified(tok, ME)
            md = json.loads(json.dumps(fe.get_metadata()))
            got = dict(p)
            m = compare(f"{case}: configuration {n}", p, ME, ME, {"metadata": md, "authority_hints": case["hints"], "trust_marks": case["marks"]}, 86400, "own")
            if m:
                return m
            if md["federation_entity"].get("organization_name") != "The issuer" or md["federation_entity"].get("federation_fetch_endpoint") is None:
                return f"{case}: metadata {md}"
    finally:
        if case.get("files") and name:
            os.unlink(name)
        c.authority_hints, c.trust_marks = saved


def combo(case):
    """an OpenID provider with a federation part: its configuration carries the metadata of every part"""
    from . import fed, apps
    e = apps.op(ME, fed.Net(), {}, ["https://ta.example.org"])
    fe = e["federation_entity"]
    for i in ("", ME):
        fe.keyjar._issuers.pop(i, None)
        fe.keyjar.add_kb(i, keys())
    tok = fe.server.get_endpoint("entity_configuration").process_request({})["response"]
    p = verified(tok, ME)
    if set(p["metadata"]) != {"federation_entity", "openid_provider"}:
        return f"metadata for {set(p['metadata'])}"
    if p["iss"] != ME or p["sub"] != ME or p.get("authority_hints") != ["https://ta.example.org"]:
        return f"iss {p['iss']} sub {p['sub']} hints {p.get('authority_hints')}"
    if p["metadata"] != json.loads(json.dumps(e.get_metadata())):
        return f"metadata {p['metadata']}"
    if private(p.get("jwks")) or private(p["metadata"]):
        return "private keys"


def run(ctx):
    r = ctx.rnd
    subs = [ME, "https://sub.example.org", "https://other.example.org/x"]

    def args():
        c = {}
        for k, dom in (("metadata", MD), ("metadata_policy", MP), ("authority_hints", HINTS), ("aud", AUD), ("constraints", CON)):
            if r.random() < .5:
                c[k] = r.choice(dom)
        if r.random() < .5:
            c["lifetime"] = r.choice([1, 60, 3600, 86400, 10 ** 7])
        if r.random() < .5:
            c["extra"] = r.choice(EXTRA)
        if r.random() < .5:
            c["jwks"] = r.choice([["a"], ["a", "b"], ["c"]])
        c["sub"] = r.choice(subs)
        return c
    ctx.run(combo, {})
    for s in subs:
        ctx.run(function, {"sub": s})
    n = 0
    while not ctx.stop() and n < (20000 if ctx.thorough else 1200):
        n += 1
        c = args()
        if r.random() < .2:
            c["callable"] = True
        if r.random() < .15:
            c["include_jwks"] = False
            c.pop("jwks", None)
        ctx.run(function, c)
        c = args()
        c.update(own_hints=r.choice(HINTS[1:]), own_marks=r.choice([[], [{"id": "m", "trust_mark": "q.q.q"}]]), own_lifetime=r.choice([60, 7200]))
        if r.random() < .3:
            c["as_keys"] = True
        ctx.run(context, c)
        if n % 4 == 0:
            ctx.run(configuration, {"hints": r.choice(HINTS[1:]), "marks": r.choice([[], None, [{"id": "m", "trust_mark": "q.q.q"}]]), "callable": r.random() < .3, "files": r.random() < .3, "hints_callable": r.random() < .3, "request": r.choice([{}, {"sub": "https://else.example.org"}, {"iss": "https://else.example.org"}])})
