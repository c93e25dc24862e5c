"""Automatic registration.  Monitor: histories of authorization and pushed authorization requests to an OpenID provider and an OAuth2 server,
by honest clients, strangers and clients that supply (forged, foreign, stale, shortened) trust chains; the client database is compared before
and after."""
import copy
import json

BUDGET = 110
BOUND = "histories of up to 5 requests, federations of up to 7 entities with 1 trusted anchor, chains of up to 2 levels, supplied chains with up to 1 defect"
RULE = "server, policies and requests"
ASSUMPTIONS = ["signature verification (cryptojwt) is trusted", "client authentication proper (idpyoidc) is not part of the property: a request may be refused for other reasons after registration"]

POLICIES = [{}, {"contacts": {"value": ["policy@ta.example.org"]}}, {"client_name": {"value": "policy name"}}, {"grant_types": {"subset_of": ["authorization_code"]}},
            {"contacts": {"add": ["ta@ta.example.org"]}, "client_name": {"default": "unnamed"}}, {"client_name": {"essential": True}}, {"client_name": {"one_of": ["a", "b"]}}]
CLIENTS = ["rp", "other", "direct", "stranger", "foreign", "forged", "noshow"]
SUPPLIED = ["own", "other", "short", "tampered", "mallory", "foreign", "expired", "reversed", "swapped-leaf", "no-leaf", "garbage", "with-ta"]


def metadata(n, fed, kind, case):
    m = {"redirect_uris": [f"https://{n}.example.org/cb"], "response_types": ["code"], "grant_types": ["authorization_code", "refresh_token"], "jwks": fed.jwks(n + "-keys"),
         "contacts": [f"ops@{n}.example.org"], "client_registration_types": ["automatic"]}
    if case.get("named", True):
        m["client_name"] = f"name of {n}"
    return {kind: m}


def world(case, fed, kind):
    hints = {"ta": [], "ta2": [], "im": ["ta"], "rp": ["im"], "other": ["im"], "direct": ["ta"], "stranger": [], "foreign": ["ta2"], "forged": ["im"]}
    md = {n: metadata(n, fed, kind, case) for n in CLIENTS if n != "noshow"}
    st = {}
    for (a, b), p in {("ta", "im"): case.get("ta_policy"), ("im", "rp"): case.get("im_policy"), ("im", "other"): case.get("im_policy"), ("ta", "direct"): case.get("ta_policy")}.items():
        if p:
            st[(a, b)] = {"metadata_policy": {kind: p}}
    F = fed.Federation(hints, md, st)
    F.net.pages[fed.fetch_url("im", "forged")] = fed.es("im", "forged", keyname="mallory")
    return F, hints, md, st


def tok(fed, F, a, b=None):
    return F.net.pages[fed.well_known(a)] if b is None else F.net.pages[fed.fetch_url(a, b)]


def supplied(how, fed, F, c, kind, case):
    """a leaf-first list of statements and whether it proves something about client c"""
    if c not in ("rp", "other", "direct"):
        base, honest = ([tok(fed, F, "rp"), tok(fed, F, "im", "rp"), tok(fed, F, "ta", "im")], False)
    elif c == "direct":
        base, honest = [tok(fed, F, c), tok(fed, F, "ta", c)], True
    else:
        base, honest = [tok(fed, F, c), tok(fed, F, "im", c), tok(fed, F, "ta", "im")], True
    ch = list(base)
    if how == "own":
        pass
    elif how == "with-ta":
        ch, honest = ch + [tok(fed, F, "ta")], None
    elif how == "other":
        o = "other" if c != "other" else "rp"
        ch, honest = [tok(fed, F, o), tok(fed, F, "im", o), tok(fed, F, "ta", "im")], False
    elif how == "short":
        ch, honest = ch[:-1], False
    elif how == "no-leaf":
        ch, honest = ch[1:], False
    elif how == "tampered":
        h, b, s = ch[-1].split(".")
        from cryptojwt.utils import b64e
        p = fed.payload_of(ch[-1])
        p["jwks"] = fed.jwks("mallory")
        ch[-1], honest = ".".join([h, b64e(json.dumps(p).encode()).decode(), s]), False
    elif how == "mallory":      # all forged, with the right names
        ch = [fed.ec(c, ["im"], metadata(c, fed, kind, case), keyname="mallory")] + [fed.es(fed_name(fed, t), fed_name(fed, t, "sub"), keyname="mallory", subkey="mallory") for t in base[1:]]
        honest = False
    elif how == "foreign":      # a valid chain for the client, but ending in an anchor that is not trusted
        ch, honest = [tok(fed, F, c) if c != "noshow" else fed.ec(c), fed.es("ta2", c)], False
    elif how == "expired":
        p = fed.payload_of(ch[-1])
        p["iat"], p["exp"] = fed.now() - 10000, fed.now() - 100
        ch[-1], honest = fed.sign(p, "ta"), False
    elif how == "reversed":
        ch.reverse()
        honest = False if len(ch) > 1 else honest
    elif how == "swapped-leaf":  # a leaf that claims to be the client, below statements about another one
        o = "other" if c != "other" else "rp"
        ch, honest = [fed.ec(c, ["im"], metadata(c, fed, kind, case), keyname=c)] + [tok(fed, F, "im", o), tok(fed, F, "ta", "im")], False
    elif how == "garbage":
        ch, honest = ["not.a.jwt", "x"], False
    return ch, honest


def fed_name(fed, t, which="iss"):
    return fed.payload_of(t)[which].split("//")[1].split(".")[0]


def combined(case, c):
    """the policies on c, superiors first"""
    return [p for p in ([case.get("ta_policy")] if c == "direct" else [case.get("ta_policy"), case.get("im_policy")]) if p]


def bound(case, c, fed, kind):
    """the policy-bound metadata of c, or None if the policies can not be met.  Computed operator by operator; only used for policies
    that do not touch the same claim twice"""
    m = metadata(c, fed, kind, case)[kind]
    for p in combined(case, c):
        for claim, ops in p.items():
            if "value" in ops:
                m[claim] = ops["value"]
            if "add" in ops:
                m[claim] = list(m.get(claim, [])) + [x for x in ops["add"] if x not in m.get(claim, [])]
            if "default" in ops and claim not in m:
                m[claim] = ops["default"]
            if "subset_of" in ops and claim in m:
                m[claim] = [x for x in m[claim] if x in ops["subset_of"]]
            if "one_of" in ops and claim in m and m[claim] not in ops["one_of"]:
                return None
            if ops.get("essential") and claim not in m:
                return None
    return m


def history(case):
    from . import fed, apps
    oidc = case["server"] == "oidc"
    kind = "openid_relying_party" if oidc else "oauth_client"
    F, hints, md, st = world(case, fed, kind)
    build = apps.op if oidc else apps.oas
    kw = {"new_client_id": True} if case.get("new_id") else {}
    if "types" in case:
        kw["types"] = case["types"]
    srv = build("https://op.example.org", F.net, {fed.eid("ta"): fed.jwks("ta")}, [fed.eid("ta")], **kw)
    unit = srv["openid_provider" if oidc else "oauth_authorization_server"]
    ctx = unit.get_context()
    cdb = ctx.cdb
    auto = set()
    for n, q in enumerate(case["asks"]):
        where = f"{case}: request {n} {q}"
        c = q["client"]
        cid = fed.eid(c)
        if q.get("static"):          # the client is registered by other means
            cdb[cid] = {"client_id": cid, "redirect_uris": [(f"https://{c}.example.org/static", {})], "client_salt": "s", "response_types": ["code"], "allowed_scopes": ["openid"]}
            auto.discard(cid)
            continue
        req = {"client_id": cid, "redirect_uri": f"https://{c}.example.org/cb", "response_type": "code", "scope": "openid", "state": "s", "nonce": "n"}
        honest = c in ("rp", "other", "direct")
        if q.get("chain"):
            req["trust_chain"], honest = supplied(q["chain"], fed, F, c, kind, case)
        if q.get("ro"):              # the request as a signed request object too
            req["request"] = fed.sign({**{k: v for k, v in req.items() if k != "trust_chain"}, "iss": cid, "aud": "https://op.example.org"}, c + "-keys")
        before = copy.deepcopy({k: dict(v) for k, v in cdb.items()})
        try:
            r = unit.get_endpoint(q.get("endpoint", "authorization")).parse_request(req)
            err = r if isinstance(r, dict) and "error" in r or "error" in r else None
        except Exception as e:
            r, err = None, f"{type(e).__name__} {e}"
        after = {k: dict(v) for k, v in cdb.items()}
        known = cid in before
        if known and cid not in auto:
            if canon(before) != canon(after):
                return f"{where}: the database changed although the client was registered: {diff(before, after)}"
            continue
        if "types" in case and "automatic" not in case["types"]:
            if canon(before) != canon(after):
                return f"{where}: registered although automatic registration is not supported: {diff(before, after)}"
            continue
        cb, ca = canon(before), canon(after)
        new = {k: v for k, v in after.items() if cb.get(k) != ca[k]}
        gone = set(before) - set(after) - {cid}
        if gone:
            return f"{where}: {gone} disappeared"
        want = bound(case, c, fed, kind) if honest is not False else None
        if honest is False or want is None:
            if new:
                return f"{where}: registered {sorted(new)} without a verified trust chain about the client ({err})"
            if err is None and (cid not in auto or oidc):
                return f"{where}: served an unknown client without a verified trust chain"
            continue
        strange = [k for k, v in new.items() if k != cid and (k in map(fed.eid, hints) or v is None or v.get("entity_id", cid) != cid and v.get("client_id") != cid)]
        if strange:
            return f"{where}: registered {strange} as well"
        if honest is None and cid not in after:
            continue
        if cid not in after:
            return f"{where}: an honest client was not registered ({err})"
        if len(new) > 2:
            return f"{where}: {sorted(new)} were registered"
        auto.add(cid)
        info = after[cid]
        if [list(x) for x in info.get("redirect_uris", [])] != [[f"https://{c}.example.org/cb", {}]]:
            return f"{where}: redirect URIs {info.get('redirect_uris')}"
        for claim in ("contacts", "client_name", "grant_types"):
            a, b = info.get(claim), want.get(claim)
            if (sorted(a) if isinstance(a, list) else a) != (sorted(b) if isinstance(b, list) else b):
                return f"{where}: registered with {claim} {a}; after the superiors' policies it is {b}"


def canon1(v):
    return json.dumps(v, sort_keys=True, default=str)


def canon(d):
    # what a request may note in an entry of a client that authenticates
    return {k: canon1({a: b for a, b in v.items() if a not in ("auth_method",)}) for k, v in d.items()}


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def disjoint(r):
    for _ in range(50):
        a, b = r.choice(POLICIES), r.choice(POLICIES)
        if not set(a) & set(b):
            return a, b
    return {}, {}


def run(ctx):
    r = ctx.rnd
    for server, eps in (("oidc", ["authorization"]), ("oauth2", ["authorization", "pushed_authorization"])):
        for e in eps:
            ctx.run(history, {"server": server, "asks": [{"client": c, "endpoint": e} for c in CLIENTS], "im_policy": POLICIES[1]})
            ctx.run(history, {"server": server, "asks": [{"client": c, "endpoint": e, "chain": s} for s in SUPPLIED[1:] for c in ("rp", "stranger")] + [{"client": "rp", "endpoint": e, "chain": "own"}], "ta_policy": POLICIES[4]})
            ctx.run(history, {"server": server, "asks": [{"client": "rp", "static": True}, {"client": "rp", "endpoint": e}, {"client": "rp", "endpoint": e, "chain": "own"}, {"client": "rp", "endpoint": e, "chain": "other"}, {"client": "other", "endpoint": e}]})
            ctx.run(history, {"server": server, "asks": [{"client": "rp", "endpoint": e}, {"client": "other", "endpoint": e, "chain": "own"}, {"client": "rp", "endpoint": e, "chain": "tampered"}, {"client": "rp", "endpoint": e}]})
            ctx.run(history, {"server": server, "new_id": True, "asks": [{"client": "rp", "endpoint": e}, {"client": "stranger", "endpoint": e, "chain": "own"}, {"client": "other", "endpoint": e, "chain": "own"}], "ta_policy": POLICIES[2]})
            ctx.run(history, {"server": server, "types": ["explicit"], "asks": [{"client": "rp", "endpoint": e}, {"client": "rp", "endpoint": e, "chain": "own"}, {"client": "rp", "endpoint": e, "ro": True}]})
            ctx.run(history, {"server": server, "asks": [{"client": "rp", "static": True}, {"client": "rp", "endpoint": e, "ro": True}, {"client": "other", "endpoint": e, "ro": True}, {"client": "stranger", "endpoint": e, "ro": True}]})
    n = 0
    while not ctx.stop() and n < (1500 if ctx.thorough else 60):
        n += 1
        a, b = disjoint(r)
        server = r.choice(["oidc", "oidc", "oauth2"])
        asks = []
        for _ in range(r.randint(1, 5)):
            c = r.choice(CLIENTS + ["rp", "other"])
            if r.random() < .15:
                asks.append({"client": c, "static": True})
                continue
            q = {"client": c, "endpoint": r.choice(["authorization"] if server == "oidc" else ["authorization", "pushed_authorization"])}
            if r.random() < .15:
                q["ro"] = True
            if r.random() < .5:
                q["chain"] = r.choice(SUPPLIED + ["own"])
            asks.append(q)
        ctx.run(history, {"server": server, "new_id": r.random() < .2, "ta_policy": a, "im_policy": b, "asks": asks, "named": r.random() < .8})
