"""Registration responses.  Monitor: honest and forged explicit registration responses, from providers with and without a trust chain, are
handed to an OpenID client and an OAuth2 client under random policies of the client's superiors."""
import copy
import json

from . import C17

BUDGET = 110
BOUND = "one response at a time, up to 2 in a row; 2 trusted anchors and 1 untrusted one, up to 3 defects per response"
RULE = "client type, policies and responses"
ASSUMPTIONS = ["signature verification (cryptojwt) is trusted", "a response is addressed to a client with exactly one trust chain"]

ME = "https://rp.example.org"
DEFECTS = [{}, {"signer": "mallory"}, {"signer": "mallory", "jwks": "mallory"}, {"signer": "im", "jwks": "im"}, {"anchor": "tb"}, {"anchor": "tc"}, {"anchor": None}, {"anchor": "im"},
           {"iss": "opb"}, {"iss": "opb", "anchor": "tb"}, {"iss": "opc"}, {"iss": "opc", "anchor": "tc"}, {"iss": "stranger"}, {"iss": "forged"}, {"iss": "rogue"}, {"tamper": True}, {"garbage": True},
           {"iss": "op", "signer": "opb"}, {"iss": "mid"}, {"iss": "mid", "signer": "mallory", "jwks": "mallory"}, {"iss": "forged", "signer": "mallory", "jwks": "mallory"}]


def world(case, fed, kind):
    hints = {"ta": [], "tb": [], "tc": [], "im": ["ta"], "rp": ["im"], "op": ["ta"], "mid": ["im"], "opb": ["tb"], "opc": ["tc"], "stranger": [], "forged": ["ta"], "rogue": ["op"]}
    md = {n: {"openid_provider": {"issuer": fed.eid(n)}} for n in ("op", "mid", "opb", "opc", "stranger", "forged", "rogue")}
    md["rp"] = {kind: {"redirect_uris": [ME + "/cb"], "client_name": "as stated by the client itself"}}
    st = {}
    for (a, b), p in {("ta", "im"): case.get("ta_policy"), ("im", "rp"): case.get("im_policy")}.items():
        if p:
            st[(a, b)] = {"metadata_policy": {kind: p}}
    F = fed.Federation(hints, md, st)
    F.net.pages[fed.fetch_url("ta", "forged")] = fed.es("ta", "forged", keyname="mallory")
    F.net.pages[fed.fetch_url("op", "rogue")] = fed.es("op", "other")
    return F


def response(case, d, fed, kind):
    from cryptojwt.utils import b64e
    t = fed.now()
    iss = d.get("iss", "op")
    m = {"redirect_uris": [ME + "/cb"], "response_types": ["code"], "grant_types": ["authorization_code", "refresh_token"], "contacts": ["ops@rp.example.org"], "client_id": ME, "client_secret": "0123456789abcdef0123456789abcdef"}
    if case.get("named", True):
        m["client_name"] = f"as stated by {iss}"
    p = {"iss": fed.eid(iss), "sub": ME, "iat": t, "exp": t + 3600, "jwks": fed.jwks(d.get("jwks", iss)), "aud": ME, "metadata": {kind: m}, "authority_hints": [fed.eid("ta")]}
    a = d.get("anchor", "ta")
    if a is not None:
        p["trust_anchor_id"] = fed.eid(a)
    if d.get("garbage"):
        return "not.a.jwt", p
    tok = fed.sign(p, d.get("signer", iss))
    if d.get("tamper"):
        h, b, s = tok.split(".")
        q = copy.deepcopy(p)
        q["metadata"][kind]["client_name"] = "tampered"
        tok = ".".join([h, b64e(json.dumps(q).encode()).decode(), s])
    return tok, p


def acceptable(d):
    iss, a = d.get("iss", "op"), d.get("anchor", "ta")
    if d.get("garbage") or d.get("tamper") or a not in ("ta", "tb"):
        return False
    if d.get("signer", iss) != iss or d.get("jwks", iss) != iss:
        return False
    return {"op": "ta", "mid": "ta", "opb": "tb"}.get(iss) == a


def norm(x):
    return sorted(x) if isinstance(x, list) else x


def bound(case, m):
    m = dict(m)
    for p in (case.get("ta_policy"), case.get("im_policy")):
        for claim, ops in (p or {}).items():
            if "value" in ops:
                m[claim] = ops["value"]
            if "add" in ops:
                m[claim] = list(m.get(claim, [])) + [x for x in ops["add"] if x not in m.get(claim, [])]
            if "default" in ops and claim not in m:
                m[claim] = ops["default"]
            if "subset_of" in ops and claim in m:
                m[claim] = [x for x in m[claim] if x in ops["subset_of"]]
            if "one_of" in ops and claim in m and m[claim] not in ops["one_of"]:
                return None
            if ops.get("essential") and claim not in m:
                return None
    return m


def history(case):
    from . import fed, apps
    oidc = case["client"] == "oidc"
    kind = "openid_relying_party" if oidc else "oauth_client"
    F = world(case, fed, kind)
    rp = apps.client(ME, F.net, {fed.eid("ta"): fed.jwks("ta"), fed.eid("tb"): fed.jwks("tb")}, [fed.eid("im")], oidc)
    serv = rp[kind].get_service("registration")
    for n, d in enumerate(case["responses"]):
        where = f"{case}: response {n} {d}"
        tok, p = response(case, d, fed, kind)
        ctx = rp[kind].get_context()
        was = getattr(ctx, "registration_response", None)
        was = copy.deepcopy(was)
        try:
            r = serv.parse_response(tok)
            err = None
        except Exception as e:
            r, err = None, f"{type(e).__name__} {e}"
        want = bound(case, p["metadata"][kind]) if acceptable(d) else None
        if r:
            if not acceptable(d):
                return f"{where}: used"
            if want is None:
                return f"{where}: used although the superiors' policies can not be met: {r}"
            got = r.get(kind, r) if not oidc else r
            if not got or "error" in got:
                return f"{where}: {r}"
            for claim in want:
                a, b = got.get(claim), want[claim]
                if (sorted(a) if isinstance(a, list) else a) != (sorted(b) if isinstance(b, list) else b):
                    return f"{where}: ends up with {claim} {a}; the response under the superiors' policies: {b}"
            kept = getattr(ctx, "registration_response", None)
            kept = kept.get(kind, kept) if kept and not oidc else kept
            for claim in want:
                if kept and claim in kept and norm(kept[claim]) != norm(want[claim]):
                    return f"{where}: keeps {claim} {kept[claim]}; the response under the superiors' policies: {want[claim]}"
            if set(got) - set(want):
                return f"{where}: ends up with {set(got) - set(want)} as well"
        else:
            own = bound(case, {"redirect_uris": [ME + "/cb"], "client_name": "as stated by the client itself"})   # its own statement may itself be at odds with the policies
            if want is not None and own is not None and d.get("anchor", "ta") == "ta":
                return f"{where}: an honest response was refused ({err})"
            if getattr(ctx, "registration_response", None) != was:
                return f"{where}: refused but its content was kept"


def run(ctx):
    r = ctx.rnd
    for c in ("oidc", "oauth2"):
        for d in DEFECTS:
            ctx.run(history, {"client": c, "responses": [d]})
        ctx.run(history, {"client": c, "responses": [{}] + DEFECTS})
        ctx.run(history, {"client": c, "responses": DEFECTS[1:] + [{}]})
        for k, p in enumerate(C17.POLICIES):
            ctx.run(history, {"client": c, "im_policy" if k % 2 else "ta_policy": p, "responses": [{}], "named": k % 3 != 2})
            ctx.run(history, {"client": c, "im_policy": p, "ta_policy": p, "responses": [{}]}) if set(map(len, p.values())) <= {1} and not any(set(o) & {"value", "add"} for o in p.values()) else None
    n = 0
    while not ctx.stop() and n < (1500 if ctx.thorough else 70):
        n += 1
        a, b = C17.disjoint(r)
        rs = []
        for _ in range(r.choice([1, 2])):
            d = {}
            for x in r.sample(DEFECTS, r.choice([0, 1, 1, 2, 3])):
                d.update(x)
            rs.append(d)
        ctx.run(history, {"client": r.choice(["oidc", "oauth2"]), "ta_policy": a, "im_policy": b, "responses": rs, "named": r.random() < .8})
