"""Redirect URIs and requested capabilities.  Monitor: random registration requests against the rules for each application type, and random
capabilities against random supported ones."""
from urllib.parse import parse_qs

BUDGET = 40
BOUND = "up to 4 redirect URIs per request out of the product of 10 schemes/hosts, 3 paths, 3 queries, 2 fragments; up to 6 requested capabilities"
RULE = "the registration request and what the server states it supports"
ASSUMPTIONS = ["a web client that states no response types, and an application type that is neither web nor native, may be treated either way",
               "an empty fragment and query parameters without a value are left unspecified", "urllib's reading of a URI is the reading of the rules"]

BASES = ["https://a.example.org", "https://a.example.org:8443", "http://a.example.org", "http://localhost", "http://localhost:8080", "http://127.0.0.1:1234",
         "https://localhost", "http://localhost.example.org", "http://127.0.0.1.example.org", "com.example.app:", "myapp://callback", "ftp://a.example.org", "http://a.example.org:80", "HTTPS://a.example.org", "http://localhost@a.example.org"]
PATHS = ["", "/cb", "/cb/2"]
QUERIES = ["", "?a=1", "?a=1&b=2&a=3", "?next=https%3A%2F%2Fx%23y"]
FRAGS = ["", "#frag", "#/x?y"]
LOOP = ("localhost", "127.0.0.1")


def judge(app, rts, uri):
    """True: allowed, False: not, None: unspecified"""
    from urllib.parse import urlparse
    p = urlparse(uri)
    if p.fragment:
        return False
    if app == "native":
        if p.scheme in ("http", "https"):
            return p.scheme == "http" and p.hostname in LOOP
        return True
    if app in (None, "web"):
        if p.scheme == "https":
            return True
        if p.scheme != "http":
            return False
        if rts is None:
            return None
        return set(rts) == {"code"}
    return None


def verify(case):
    from fedservice.appserver.oauth2.registration import Registration
    from idpyoidc.message.oidc import RegistrationRequest
    from idpyoidc.server.exception import InvalidRedirectURIError
    req = {"redirect_uris": case["uris"]}
    if case.get("app") is not None:
        req["application_type"] = case["app"]
    if case.get("rts") is not None:
        req["response_types"] = case["rts"]
    r = dict(req) if case.get("dict") else RegistrationRequest(**req)
    verdicts = [judge(case.get("app"), case.get("rts"), u) for u in case["uris"]]
    try:
        got = Registration.verify_redirect_uris(r)
        err = None
    except InvalidRedirectURIError as e:
        got, err = None, e
    if got is not None and False in verdicts:
        return f"{case}: accepted although {case['uris'][verdicts.index(False)]} breaks the rules"
    if got is None and all(v is True for v in verdicts):
        return f"{case}: refused ({err}) although every URI obeys the rules"
    if got is None:
        return
    if len(got) != len(case["uris"]):
        return f"{case}: {len(case['uris'])} URIs became {got}"
    for u, (base, q) in zip(case["uris"], got):
        if dict(q or {}) == {} and base == u:
            continue
        b, _, query = u.partition("?")
        if dict(q or {}) != parse_qs(query) or norm(base) != norm(b):
            return f"{case}: {u} is kept as {base} with {q}"


def norm(u):
    s, _, rest = u.partition(":")
    return s.lower() + ":" + rest


CAPS = {  # request claim -> (provider claim, values)
    "token_endpoint_auth_method": ("token_endpoint_auth_methods_supported", ["client_secret_basic", "private_key_jwt", "none"]),
    "response_types": ("response_types_supported", ["code", "id_token", "code id_token"]),
    "grant_types": ("grant_types_supported", ["authorization_code", "implicit", "refresh_token"]),
    "id_token_signed_response_alg": ("id_token_signing_alg_values_supported", ["RS256", "ES256", "none"]),
    "subject_type": ("subject_types_supported", ["public", "pairwise"]),
    "default_acr_values": ("acr_values_supported", ["loa1", "loa2", "loa3"]),
    "request_object_signing_alg": ("request_object_signing_alg_values_supported", ["RS256", "ES256"]),
}
LISTS = ("response_types", "grant_types", "default_acr_values")
OTHER = {"client_name": "x", "contacts": ["a@example.org"], "redirect_uris": ["https://a.example.org/cb"], "unheard_of": {"a": 1}, "logo_uri": "https://a.example.org/logo"}


def capabilities(case):
    from types import SimpleNamespace
    from fedservice.appserver.oauth2.registration import Registration
    from idpyoidc.server.claims.oidc import Claims
    from idpyoidc.server.exception import CapabilitiesMisMatch
    ctx = SimpleNamespace(claims=Claims(), provider_info={CAPS[k][0]: v for k, v in case["supports"].items()}, issuer="https://op.example.org")
    reg = Registration(upstream_get=lambda what, *a, **kw: ctx if what == "context" else None)
    try:
        got = reg.filter_client_request(dict(case["request"]))
    except CapabilitiesMisMatch:
        got = None
    impossible = [k for k, v in case["request"].items() if k in LISTS and isinstance(v, list) and case["supports"].get(k) and not set(v) & set(case["supports"][k])]
    if got is None:
        return None if impossible else f"{case}: refused although something of each capability is supported"
    for k, v in case["request"].items():
        if k not in CAPS or k not in case["supports"]:
            if got.get(k) != v:
                return f"{case}: {k} became {got.get(k)}"
        elif isinstance(v, list):
            want = set(v) & set(case["supports"][k])
            if set(got.get(k, [])) != want:
                return f"{case}: {k} kept as {got.get(k)}, supported of it: {sorted(want)}"
        elif (got.get(k) if k in got else None) != (v if v in case["supports"][k] else None):
            return f"{case}: {k} kept as {got.get(k)}"
    if set(got) - set(case["request"]):
        return f"{case}: {set(got) - set(case['request'])} was added"


def rand_uri(r, easy=False):
    if easy:
        return r.choice(BASES[:6]) + r.choice(PATHS) + r.choice(QUERIES)
    return r.choice(BASES) + r.choice(PATHS) + r.choice(QUERIES) + r.choice(["", "", "", *FRAGS])


def run(ctx):
    from . import fed  # noqa: F401 (silences the logs)
    r = ctx.rnd
    for app in (None, "web", "native"):
        for rts in (None, ["code"], ["code", "id_token"], ["id_token"], ["code id_token"]):
            for b in BASES:
                for p in (PATHS[:2] if not ctx.thorough else PATHS):
                    for q in QUERIES:
                        for f in FRAGS[:2]:
                            ctx.run(verify, {"app": app, "rts": rts, "uris": [b + p + q + f], "dict": True})
    n = 0
    while not ctx.stop() and n < (40000 if ctx.thorough else 2500):
        n += 1
        app = r.choice([None, "web", "native"])
        rts = r.choice([None, ["code"], ["code"], ["code", "id_token"], ["id_token token"], ["code", "code id_token"]])
        if r.random() < .5:
            pool = [u for u in (rand_uri(r, True) for _ in range(30)) if judge(app, rts, u) is True]
            uris = pool[:r.randint(1, 4)] or [rand_uri(r)]
            if r.random() < .5:
                uris.insert(r.randint(0, len(uris)), rand_uri(r))
        else:
            uris = [rand_uri(r) for _ in range(r.randint(1, 3))]
        ctx.run(verify, {"app": app, "rts": rts, "uris": uris, "dict": r.random() < .5})
        if n % 3 == 0:
            req = {k: (r.sample(v, r.randint(1, len(v))) if k in LISTS else r.choice(v + ["strange"])) for k, (_, v) in CAPS.items() if r.random() < .5}
            if r.random() < .2:
                req["response_types"] = r.choice(CAPS["response_types"][1] )
                req["response_types"] = [req["response_types"], "strange"]
            req.update({k: v for k, v in OTHER.items() if r.random() < .4})
            sup = {k: r.sample(v, r.randint(1, len(v))) for k, (_, v) in CAPS.items() if r.random() < .7}
            ctx.run(capabilities, {"request": req, "supports": sup})
