"""Trust marks.  Monitor: marks with up to two defects (claims, expiry, issuer, issuer's chain, signature, delegation, the owner's
declaration, the status answer) are handed to the real verifier in a federation served from memory."""
import json
from urllib.parse import parse_qs, urlparse

BUDGET = 100
BOUND = "one trust mark at a time (two in a row for one verifier), up to 3 defects, 2 trust anchors, up to 1 intermediate above the issuer"
RULE = "the mark, the federation around it and the status answer"
ASSUMPTIONS = ["signature verification itself (cryptojwt JWS, KeyJar.get_jwt_verify_keys) is trusted"]

TM = "https://marks.example.org/gold"


def world(case, fed):
    """the federation: leaf 'me' with anchor 'ta'; 'tmi' under ta (or im), 'rogue' under nothing or under 'ta2' (not trusted)"""
    hints = {"ta": [], "ta2": [], "im": ["ta"], "tmi": ["im"] if case.get("deep") else ["ta"], "rogue": case.get("rogue_under", []), "other": ["ta"]}
    st = {}
    ta_md = {"federation_entity": {"federation_fetch_endpoint": fed.eid("ta") + "/fetch", "trust_mark_issuers": {}, "trust_mark_owners": {}}}
    if not case.get("no_issuers"):
        ta_md["federation_entity"]["trust_mark_issuers"][TM] = [fed.eid("tmi")]
    if not case.get("no_owners"):
        ta_md["federation_entity"]["trust_mark_owners"][TM] = {"sub": fed.eid("owner"), "jwks": fed.jwks("owner")}
    ta_md["federation_entity"]["trust_mark_owners"]["https://marks.example.org/other"] = {"sub": fed.eid("owner2"), "jwks": fed.jwks("owner2")}
    ta_md["federation_entity"]["trust_mark_issuers"]["https://marks.example.org/other"] = [fed.eid("tmi")]
    md = {"ta": ta_md}
    for i in ("tmi", "rogue", "other"):
        md[i] = {"federation_entity": {"federation_fetch_endpoint": fed.eid(i) + "/fetch", "federation_trust_mark_status_endpoint": fed.eid(i) + "/status"}}
    F = fed.Federation(hints, md)
    up = hints["tmi"][0]
    b = case.get("broken")
    if b == "signature":
        F.net.pages[fed.fetch_url(up, "tmi")] = fed.es(up, "tmi", keyname="mallory")
    elif b == "keys":             # the superior vouches for other keys than the issuer signs with
        F.net.pages[fed.fetch_url(up, "tmi")] = fed.es(up, "tmi", subkey="mallory")
    elif b == "subject":
        F.net.pages[fed.fetch_url(up, "tmi")] = fed.es(up, "other")
    elif b == "path":
        F.net.pages[fed.fetch_url("ta", "im" if case.get("deep") else "tmi")] = fed.es("ta", "im" if case.get("deep") else "tmi", constraints={"max_path_length": 0})
    elif b == "naming":
        F.net.pages[fed.fetch_url(up, "tmi")] = fed.es(up, "tmi", constraints={"naming_constraints": {"permitted": [".example.com"], "excluded": []}})
    if case.get("ta_forged"):
        md2 = json.loads(json.dumps(ta_md))
        md2["federation_entity"]["trust_mark_owners"][TM] = {"sub": fed.eid("mallory"), "jwks": fed.jwks("mallory")}
        F.net.pages[fed.well_known("ta")] = fed.ec("ta", None, md2, keyname="mallory")
    return F


def mark(case, fed, t):
    p = {"iss": fed.eid(case.get("iss", "tmi")), "sub": "https://me.example.org", "id": TM, "iat": t - 10, "exp": t + 3600}
    for k in case.get("drop", []):
        p.pop(k, None)
    for k, v in case.get("set", {}).items():
        p[k] = t + v if k in ("exp", "iat") else v
    d = case.get("delegation")
    if d is not None:
        q = {"iss": fed.eid(d.get("iss", "owner")), "sub": fed.eid(d.get("sub", "tmi")), "id": d.get("id", TM), "iat": t - 20}
        for k in d.get("drop", []):
            q.pop(k, None)
        p["delegation"] = d["raw"] if "raw" in d else fed.sign(q, d.get("signer", "owner"), typ="trust-mark-delegation+jwt")
        if d.get("tamper"):
            h, b, s = p["delegation"].split(".")
            from cryptojwt.utils import b64e
            q["id"] = TM
            q["sub"] = p["iss"]
            q["x"] = 1
            p["delegation"] = ".".join([h, b64e(json.dumps(q).encode()).decode(), s])
    k = fed.key(case.get("signer", case.get("iss", "tmi")))
    if case.get("kid"):
        import copy
        k = copy.copy(k)
        k.kid = fed.key(case["kid"]).kid
    tok = fed.sign(p, k, typ="trust-mark+jwt")
    if case.get("tamper"):
        from cryptojwt.utils import b64e
        h, b, s = tok.split(".")
        q = dict(p)
        q.update(case["tamper"])
        tok = ".".join([h, b64e(json.dumps(q).encode()).decode(), s])
        p = q
    return tok, p


def why_not(case, p, fed, t, anchor):
    """the reason a mark may not be accepted, or None"""
    for k in ("iss", "sub", "id", "iat"):
        if k not in p:
            return f"it lacks {k}"
    if "exp" in p and p["exp"] < t:
        return "it has expired"
    iss = p["iss"]
    if iss not in [fed.eid(x) for x in ("tmi", "other")]:
        return "its issuer has no trust chain"
    if anchor != "ta":
        return "its issuer has no chain to the requested anchor"
    if case.get("broken") and iss == fed.eid("tmi"):
        return "its issuer's trust chain does not verify"
    if case.get("ta_forged"):
        pass
    if fed.eid(case.get("signer", case.get("iss", "tmi"))) != iss or case.get("tamper") or (case.get("kid") and case["kid"] != case.get("signer", case.get("iss", "tmi"))):
        return "its signature is not by its issuer"
    d = case.get("delegation")
    if d is not None:
        if "raw" in d or d.get("tamper"):
            return "its delegation is not signed by the owner"
        owner = {TM: "owner", "https://marks.example.org/other": "owner2"}.get(p["id"])
        if owner is None or owner == "owner" and case.get("no_owners") or case.get("ta_forged"):
            return "the trust anchor declares no such owner"
        if d.get("signer", "owner") != owner or d.get("iss", "owner") != owner:
            return "its delegation is not signed by the declared owner"
        if d.get("id", TM) != p["id"] or "id" in d.get("drop", []):
            return "its delegation is for another mark"
        if fed.eid(d.get("sub", "tmi")) != iss or "sub" in d.get("drop", []):
            return "its delegation is for another issuer"
        if p["id"] == TM and case.get("no_issuers"):
            return "the trust anchor does not list the mark"
    return None


def verify(case):
    from . import fed
    F = world(case, fed)
    t = fed.now()
    kw = {"services": ["entity_configuration", "entity_statement", "trust_mark_status"]} if "status" in case else {}
    me = fed.entity("https://me.example.org", F.net, trust_anchors={fed.eid("ta"): fed.jwks("ta")}, **kw)
    if case.get("first"):          # the verifier has already dealt with another mark
        m0, _ = mark({**case["first"]}, fed, t)
        try:
            me.function.trust_mark_verifier(m0, fed.eid("ta"))
        except Exception:
            pass
    tok, p = mark(case, fed, t)
    anchor = case.get("anchor", "ta")
    asked = []
    if "status" in case:
        def page(method, url, **kw):
            q = {k: v[0] for k, v in parse_qs(urlparse(url).query).items()}
            asked.append(q)
            s = case["status"]
            if s == "error":
                return fed.Resp('{"error": "invalid_request", "error_description": "no"}', 400, "application/json")
            if s == "garbage":
                return fed.Resp("active: true", 200, "text/html")
            if s == "notfound":
                return fed.Resp('{"active": true}', 404, "application/json")
            return fed.Resp(json.dumps(s), 200, "application/json")

        class Pages(dict):
            def get(self, url, d=None):
                return page if "/status?" in url else dict.get(self, url, d)
        F.net.pages = Pages(F.net.pages)
    try:
        if "status" in case:
            r = me.verify_trust_mark(tok, check_with_issuer=case.get("check", True))
        else:
            r = me.function.trust_mark_verifier(tok, fed.eid(anchor))
        err = None
    except Exception as e:
        r, err = None, e
    bad = why_not(case, p, fed, t, anchor)
    if "status" in case and case.get("check", True) and not bad:
        if not (isinstance(case["status"], dict) and case["status"].get("active") is True):
            bad = f"the issuer does not say it is active ({case['status']})"
        elif asked and not any(q.get("sub") == p["sub"] and q.get("trust_mark_id", q.get("id")) == p["id"] or q.get("trust_mark") == tok for q in asked):
            bad = f"the issuer was asked about {asked}"
        elif not asked and r:
            bad = "the issuer was not asked"
    if r and bad:
        return f"{case}: reported valid although {bad}"
    if not r and not bad:
        return f"{case}: an honest trust mark was refused ({type(err).__name__ if err else ''} {err or ''})"
    if r:
        for k in ("iss", "sub", "id"):
            if r[k] != p[k]:
                return f"{case}: reported {k} {r[k]}, the mark says {p[k]}"


DEFECTS = [
    {"drop": ["iss"]}, {"drop": ["sub"]}, {"drop": ["id"]}, {"drop": ["iat"]}, {"drop": ["exp"]},
    {"set": {"exp": -1}}, {"set": {"exp": -100000}}, {"set": {"exp": -1, "iat": -50000}},
    {"iss": "rogue"}, {"iss": "rogue", "rogue_under": ["ta2"]}, {"iss": "nobody"}, {"iss": "other"}, {"iss": "ta2"},
    {"signer": "mallory"}, {"signer": "ta"}, {"signer": "other"}, {"signer": "owner"}, {"signer": "mallory", "kid": "tmi"}, {"signer": "other", "kid": "tmi"},
    {"tamper": {"sub": "https://me.example.org", "x": 1}}, {"tamper": {"id": "https://marks.example.org/platinum"}},
    {"broken": "signature"}, {"broken": "keys"}, {"broken": "subject"}, {"broken": "naming"}, {"broken": "path", "deep": True},
    {"deep": True}, {"anchor": "ta2"}, {"anchor": "tmi"}, {"anchor": "im", "deep": True},
    {"no_owners": True}, {"no_issuers": True}, {"ta_forged": True},
    {"set": {"id": "https://marks.example.org/other"}}, {"set": {"ref": "https://x", "logo_uri": "https://y"}},
]
DELEG = [{}, {"signer": "mallory"}, {"signer": "tmi"}, {"signer": "ta"}, {"signer": "owner2"}, {"signer": "owner2", "iss": "owner2"}, {"iss": "mallory"},
         {"signer": "mallory", "iss": "mallory"}, {"id": "https://marks.example.org/other"}, {"id": "https://marks.example.org/other", "signer": "owner2", "iss": "owner2"},
         {"sub": "other"}, {"sub": "me"}, {"drop": ["sub"]}, {"drop": ["id"]}, {"tamper": True}, {"raw": "no.jwt.here"}, {"raw": "x"}]
STATUS = [{"active": True}, {"active": False}, {}, {"active": None}, {"active": "false"}, {"status": "active"}, "error", "garbage", "notfound"]


def merge(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            if k == "drop":
                out.setdefault("drop", []).extend(v)
            elif k == "set":
                out.setdefault("set", {}).update(v)
            else:
                out[k] = v
    return json.loads(json.dumps(out))


def run(ctx):
    r = ctx.rnd
    ctx.run(verify, {})
    for d in DEFECTS:
        ctx.run(verify, merge(d))
    for d in DELEG:
        ctx.run(verify, merge({"delegation": d}))
        for x in ({"deep": True}, {"ta_forged": True}, {"no_owners": True}, {"no_issuers": True}, {"set": {"id": "https://marks.example.org/other"}}):
            ctx.run(verify, merge({"delegation": d}, x))
    for s in STATUS:
        ctx.run(verify, {"status": s})
        ctx.run(verify, {"status": s, "check": False})
    n = 0
    while not ctx.stop() and n < (6000 if ctx.thorough else 350):
        n += 1
        c = merge(*r.sample(DEFECTS, r.choice([0, 1, 1, 2])))
        if r.random() < .4:
            c["delegation"] = r.choice(DELEG)
        if r.random() < .3 and c.get("anchor", "ta") == "ta":
            c["status"] = r.choice(STATUS)
            c["check"] = r.random() < .8
        if r.random() < .25:
            c["first"] = merge(r.choice(DEFECTS))
        ctx.run(verify, c)
