"""Explicit registration.  Monitor: honest, forged and foreign registration requests to an OpenID provider and an OAuth2 server under random
policies of the superiors; the stored client and the answer are compared with the policy-bound metadata."""
import copy
import json

from . import C17

BUDGET = 100
BOUND = "histories of up to 4 requests, federations of up to 7 entities with 1 trusted anchor, chains of up to 2 levels, requests with up to 1 forgery"
RULE = "server, policies and requests"
ASSUMPTIONS = ["signature verification (cryptojwt) is trusted"]

FORGERIES = ["none", "none", "self-keys", "signature", "sub", "iss", "hints", "statement", "metadata", "garbage"]


def request(fed, F, c, forgery, kind, case, md):
    """the signed request and the names of the client that may be registered on the strength of it (None: nobody)"""
    from cryptojwt.utils import b64e
    hints = {"rp": ["im"], "other": ["im"], "direct": ["ta"], "foreign": ["ta2"], "forged": ["im"], "stranger": ["im"]}.get(c, ["ta"])
    ok = c if c in ("rp", "other", "direct") else None
    m = copy.deepcopy(md.get(c) or C17.metadata(c, fed, kind, case))
    if forgery == "none":
        return fed.ec(c, hints, m), ok
    if forgery == "self-keys":       # right names, everything signed with the attacker's key
        return fed.ec(c, hints, m, keyname="mallory"), None
    if forgery == "signature":
        h, b, s = fed.ec(c, hints, m).split(".")
        p = fed.payload_of(".".join([h, b, s]))
        p["metadata"][kind]["redirect_uris"] = ["https://mallory.example.org/cb"]
        return ".".join([h, b64e(json.dumps(p).encode()).decode(), s]), None
    if forgery == "sub":             # about somebody else
        o = "other" if c != "other" else "rp"
        return fed.ec(c, hints, m, sub=fed.eid(o)), None
    if forgery == "iss":
        o = "other" if c != "other" else "rp"
        return fed.ec(c, hints, m, iss=fed.eid(o), keyname=c), None
    if forgery == "hints":           # a superior who has not said anything about it
        return fed.ec(c, ["ta2"], m), None
    if forgery == "statement":       # a superior's statement instead of its own
        return F.net.pages.get(fed.fetch_url("im", "rp")), None
    if forgery == "metadata":        # no metadata of the right type
        return fed.ec(c, hints, {"federation_entity": {}}), None
    return "not.a.jwt", None


def history(case):
    from . import fed, apps
    oidc = case["server"] == "oidc"
    kind = "openid_relying_party" if oidc else "oauth_client"
    F, hints, md, st = C17.world(case, fed, kind)
    me = "https://op.example.org"
    srv = (apps.op if oidc else apps.oas)(me, F.net, {fed.eid("ta"): fed.jwks("ta")}, [fed.eid("ta")])
    unit = srv["openid_provider" if oidc else "oauth_authorization_server"]
    fe = srv["federation_entity"]
    cdb = unit.get_context().cdb
    for n, q in enumerate(case["asks"]):
        where = f"{case}: request {n} {q}"
        c = q["client"]
        req, who = request(fed, F, c, q["forgery"], kind, case, md)
        want = C17.bound(case, who, fed, kind) if who else None
        before = copy.deepcopy({k: dict(v) for k, v in cdb.items()})
        try:
            r = unit.get_endpoint("registration").process_request(req)
            err = "error" in r and r["error"]
        except Exception as e:
            r, err = None, f"{type(e).__name__} {e}"
        after = {k: dict(v) for k, v in cdb.items()}
        new = {k: v for k, v in after.items() if C17.canon1(v) != C17.canon1(before.get(k))}
        msg = None if r is None or err else r.get("response_msg")
        if want is None:
            if msg or (r is not None and not err):
                return f"{where}: answered {fed.payload_of(msg) if msg else r}"
            if new:
                return f"{where}: registered {sorted(new)} although there is no verified trust chain for it ({err})"
            if set(before) - set(after):
                return f"{where}: {set(before) - set(after)} disappeared"
            continue
        cid = fed.eid(who)
        if not msg:
            return f"{where}: an honest client was refused ({err})"
        if oidc and set(new) != {cid} or len(new) != 1:
            return f"{where}: registered {sorted(new)}"
        info = list(new.values())[0]
        if not oidc and (cid not in new and list(new)[0] in map(fed.eid, hints) or list(new)[0] in before and list(new)[0] != cid):
            return f"{where}: registered as {list(new)[0]}"
        if [list(x) for x in info.get("redirect_uris", [])] != [[f"https://{who}.example.org/cb", {}]]:
            return f"{where}: redirect URIs {info.get('redirect_uris')}"
        p = fed.payload_of(msg)
        from cryptojwt.jwt import JWT
        from cryptojwt.key_jar import KeyJar
        kj = KeyJar()
        kj.import_jwks(fe.keyjar.export_jwks(), me)
        try:
            JWT(key_jar=kj, allowed_sign_algs=["RS256", "ES256"]).unpack(msg)
        except Exception as e:
            return f"{where}: the answer is not signed by the server ({e})"
        aud = p.get("aud")
        if p.get("iss") != me or p.get("sub") != cid or (aud if isinstance(aud, str) else list(aud or [None])[0]) != cid or isinstance(aud, list) and len(aud) != 1:
            return f"{where}: the answer is by {p.get('iss')} about {p.get('sub')} for {aud}"
        if p.get("trust_anchor_id") != fed.eid("ta"):
            return f"{where}: the answer names trust anchor {p.get('trust_anchor_id')}"
        got = p.get("metadata", {}).get(kind)
        if set(p.get("metadata", {})) != {kind}:
            return f"{where}: the answer is about {set(p.get('metadata', {}))}"
        for claim in ("contacts", "client_name", "grant_types"):
            for what, d in (("stored", info), ("answered", got)):
                a, b = d.get(claim), want.get(claim)
                if (sorted(a) if isinstance(a, list) else a) != (sorted(b) if isinstance(b, list) else b):
                    return f"{where}: {what} {claim} {a}; after the superiors' policies it is {b}"
        if got.get("client_id") != info.get("client_id") or got.get("client_id") != list(new)[0]:
            return f"{where}: answered client_id {got.get('client_id')}, stored {info.get('client_id')} as {list(new)[0]}"


def several_anchors(case):
    """a client below several trusted anchors that state different things: the anchor named is the one whose chain the metadata stems from"""
    from . import fed, apps
    oidc = case["server"] == "oidc"
    kind = "openid_relying_party" if oidc else "oauth_client"
    anchors = case["anchors"]
    hints = {a: [] for a in anchors}
    hints["im"] = list(case["above_im"])
    hints["rp"] = case["order"]
    md = {"rp": C17.metadata("rp", fed, kind, {})}
    st = {}
    for a in anchors:
        st[(a, "rp")] = st[(a, "im")] = {"metadata_policy": {kind: {"contacts": {"value": [a]}}}}
    F = fed.Federation(hints, md, st)
    trusted = [a for a in anchors if a in case["trusted"]]
    build = apps.op if oidc else apps.oas
    e = build("https://op.example.org", F.net, {fed.eid(a): fed.jwks(a) for a in trusted}, [fed.eid(anchors[0])])
    e["federation_entity"].context.tr_priority = [fed.eid(a) for a in case["priority"]]
    unit = e["openid_provider" if oidc else "oauth_authorization_server"]
    cdb = unit.get_context().cdb
    above = [h for h in case["order"] if h in anchors] + (list(case["above_im"]) if "im" in case["order"] else [])
    usable = [a for a in above if a in trusted]
    before = set(cdb)
    try:
        r = unit.get_endpoint("registration").process_request(F.net.pages[fed.well_known("rp")])
        msg = r.get("response_msg")
        err = r.get("error_description")
    except Exception as x:
        msg, err = None, f"{type(x).__name__} {x}"
    if not usable:
        return f"{case}: answered" if msg or set(cdb) != before else None
    if not msg:
        return f"{case}: an honest client was refused ({err})"
    p = fed.payload_of(msg)
    info = [cdb[k] for k in cdb if k not in before]
    got = p["metadata"][kind].get("contacts")
    if p.get("trust_anchor_id") not in map(fed.eid, usable) or fed.eid(got[0]) != p["trust_anchor_id"] or len(info) != 1 or info[0].get("contacts") != got:
        return f"{case}: names trust anchor {p.get('trust_anchor_id')}, states contacts {got} and stores {[i.get('contacts') for i in info]}"
    pr = [a for a in case["priority"] if a in usable]
    if pr and p["trust_anchor_id"] != fed.eid(pr[0]):
        return f"{case}: used the chain to {p['trust_anchor_id']}, the highest-priority anchor is {pr[0]}"


def run(ctx):
    r = ctx.rnd
    for server in ("oidc", "oauth2"):
        for k in range(6):
            an = ["ta", "tb", "tc"]
            order = [["ta", "tb"], ["tb", "ta"], ["im", "tb"], ["tc", "im"], ["tc", "tb", "ta"], ["tb", "im"]][k]
            ctx.run(several_anchors, {"server": server, "anchors": an, "above_im": [["ta"], ["ta", "tb"]][k % 2], "order": order, "trusted": [an, ["ta", "tb"], ["tb"]][k % 3], "priority": [[], ["tb"], ["ta", "tb"], ["tc", "ta"]][k % 4]})
    for server in ("oidc", "oauth2"):
        ctx.run(history, {"server": server, "asks": [{"client": c, "forgery": "none"} for c in C17.CLIENTS], "im_policy": C17.POLICIES[1], "ta_policy": C17.POLICIES[3]})
        for f in FORGERIES[2:]:
            ctx.run(history, {"server": server, "asks": [{"client": c, "forgery": f} for c in ("rp", "direct")] + [{"client": "rp", "forgery": "none"}, {"client": "rp", "forgery": f}]})
        for k, p in enumerate(C17.POLICIES):
            ctx.run(history, {"server": server, "asks": [{"client": "direct", "forgery": "none"}, {"client": "rp", "forgery": "none"}], "im_policy" if k % 2 else "ta_policy": p, "named": k % 3 != 2})
    n = 0
    while not ctx.stop() and n < (1500 if ctx.thorough else 60):
        n += 1
        a, b = C17.disjoint(r)
        asks = [{"client": r.choice(C17.CLIENTS + ["rp", "other", "direct"]), "forgery": r.choice(FORGERIES)} for _ in range(r.randint(1, 4))]
        ctx.run(history, {"server": r.choice(["oidc", "oauth2"]), "ta_policy": a, "im_policy": b, "asks": asks, "named": r.random() < .8})
