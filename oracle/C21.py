"""Resolve.  Monitor: histories of resolve requests to a resolver with two trusted anchors, in federations with several paths, forged branches,
untrusted anchors, expired statements and random policies; every answer is compared with what a verified path says."""
import copy
import json

from . import C17

BUDGET = 100
BOUND = "federations of 12 entities, paths of up to 3 superiors, up to 8 requests per history"
RULE = "policies, defects and requests"
ASSUMPTIONS = ["signature verification (cryptojwt) is trusted"]

ME = "https://resolver.example.org"
KIND = "openid_relying_party"
HINTS = {"ta": [], "tb": [], "tc": [], "im": ["ta"], "im2": ["tb"], "imx": ["ta", "tb"], "rp": ["im"], "op": ["im", "im2"], "multi": ["imx"], "direct": ["ta"],
         "foreign": ["tc"], "stranger": [], "deep": ["im3"], "im3": ["im"], "forged": ["im"], "half": ["im", "im2"]}
ASKED = ["rp", "op", "multi", "direct", "foreign", "stranger", "deep", "forged", "half", "im", "noshow"]
PATHS = {"rp": [["im", "ta"]], "op": [["im", "ta"], ["im2", "tb"]], "multi": [["imx", "ta"], ["imx", "tb"]], "direct": [["ta"]], "deep": [["im3", "im", "ta"]], "half": [["im2", "tb"]], "im": [["ta"]],
         "foreign": [], "stranger": [], "forged": [], "noshow": []}
DEFECTS = ["", "", "", "expired-im", "mallory-im", "about-other", "ec-mallory"]


def metadata(n):
    m = {KIND: {"redirect_uris": [f"https://{n}.example.org/cb"], "grant_types": ["authorization_code", "refresh_token"], "contacts": [f"ops@{n}.example.org"], "client_name": f"name of {n}"}}
    if n in ("op", "multi", "half"):
        m["openid_provider"] = {"issuer": f"https://{n}.example.org", "contacts": ["op@x"]}
    return m


def bound(case, n, path):
    m = copy.deepcopy(metadata(n)[KIND])
    for p in superiors(case, n, path):
        for claim, ops in p.items():
            if "value" in ops:
                m[claim] = ops["value"]
            if "add" in ops:
                m[claim] = list(m.get(claim, [])) + [x for x in ops["add"] if x not in m.get(claim, [])]
            if "default" in ops and claim not in m:
                m[claim] = ops["default"]
            if "subset_of" in ops and claim in m:
                m[claim] = [x for x in m[claim] if x in ops["subset_of"]]
            if "one_of" in ops and claim in m and m[claim] not in ops["one_of"]:
                return None
    return m


def superiors(case, n, path):
    below = [n] + path
    return [case["policy"].get(f"{a}>{b}", {}) for b, a in zip(below, path)]


def broken(case, n, path):
    """does this path hold statements that do not verify"""
    d = case["defect"]
    if d == "expired-im" or d == "mallory-im":
        return "im" in path and n != "im" or n == "im" and path == ["ta"]
    if d == "about-other":
        return n == "rp"
    if d == "ec-mallory":
        return n == "rp"
    return False


def world(case, fed):
    md = {n: metadata(n) for n in HINTS if n not in ("ta", "tb", "tc")}
    st = {}
    for e, p in case["policy"].items():
        a, b = e.split(">")
        st[(a, b)] = {"metadata_policy": {KIND: p}}
    F = fed.Federation(HINTS, md, st)
    P = F.net.pages
    P[fed.fetch_url("im", "forged")] = fed.es("im", "forged", keyname="mallory")
    P[fed.fetch_url("im", "half")] = fed.es("im", "half", keyname="mallory")
    d = case["defect"]
    if d == "expired-im":
        p = fed.payload_of(P[fed.fetch_url("ta", "im")])
        p["iat"], p["exp"] = fed.now() - 9000, fed.now() - 600
        P[fed.fetch_url("ta", "im")] = fed.sign(p, "ta")
    elif d == "mallory-im":
        P[fed.fetch_url("ta", "im")] = fed.es("ta", "im", keyname="mallory")
    elif d == "about-other":
        P[fed.fetch_url("im", "rp")] = fed.es("im", "other")
    elif d == "ec-mallory":
        P[fed.well_known("rp")] = fed.ec("rp", ["im"], metadata("rp"), keyname="mallory")
    return F


def history(case):
    from . import fed, C13
    from cryptojwt.key_bundle import KeyBundle
    from cryptojwt.key_jar import KeyJar
    from cryptojwt.jwt import JWT
    from . import C12
    F = world(case, fed)
    fe = fed.entity(ME, net=F.net, trust_anchors={fed.eid("ta"): fed.jwks("ta"), fed.eid("tb"): fed.jwks("tb")}, endpoints=["entity_configuration", "resolve"])
    kb = KeyBundle()
    kb.append(C12.rsa("resolver"))
    for i in ("", ME):
        fe.keyjar._issuers.pop(i, None)
        fe.keyjar.add_kb(i, kb)
    ep = fe.server.get_endpoint("resolve")
    for n, q in enumerate(case["asks"]):
        where = f"{case}: request {n} {q}"
        who, anchor = q["sub"], q["anchor"]
        req = {"sub": fed.eid(who), "anchor": fed.eid(anchor)}
        if "type" in q:
            req["type"] = q["type"]
        try:
            r = ep.process_request(req, **({"with_ta_ec": True} if q.get("ta_ec") else {}))
            err = None
        except Exception as e:
            r, err = None, f"{type(e).__name__} {e}"
        good = [p for p in PATHS[who] if p[-1] == anchor and not broken(case, who, p)]
        fine = [p for p in good if bound(case, who, p) is not None]
        if r is None or "response_args" not in r or not isinstance(r["response_args"], str):
            # an honest entity whose every path is fine has to be resolved
            if fine and who != "half" and all(bound(case, who, p) is not None and not broken(case, who, p) for p in PATHS[who]) and ("type" not in q or q["type"] in metadata(who)):
                return f"{where}: refused ({err})"
            if r is not None and "metadata" in str(r):
                return f"{where}: {r}"
            continue
        tok = r["response_args"]
        kj = KeyJar()
        kj.import_jwks(fe.keyjar.export_jwks(), ME)
        try:
            JWT(key_jar=kj, allowed_sign_algs=["RS256", "ES256"]).unpack(tok)
        except Exception as e:
            return f"{where}: the response is not signed by the resolver ({e})"
        p = fed.payload_of(tok)
        if p.get("iss") != ME or p.get("sub") != fed.eid(who):
            return f"{where}: issued by {p.get('iss')} about {p.get('sub')}"
        if not fine:
            return f"{where}: answered with metadata {p.get('metadata')} although there is no verified chain to that anchor that meets the policies"
        whole = metadata(who)
        wants = []
        for path in fine:
            m = dict(copy.deepcopy(whole), federation_entity={"federation_fetch_endpoint": fed.eid(who) + "/fetch"})
            m[KIND] = bound(case, who, path)
            if "type" in q:
                m = {q["type"]: m[q["type"]]} if q["type"] in m else None
            below = [who] + path
            chain = [F.net.pages[fed.well_known(who)]] + [F.net.pages[fed.fetch_url(a, b)] for b, a in zip(below, path)]
            if q.get("ta_ec"):
                chain = chain + [F.net.pages[fed.well_known(anchor)]]
            wants.append((m, chain))
        if not any(m is not None and norm(m) == norm(p.get("metadata")) for m, _ in wants):
            return f"{where}: metadata {p.get('metadata')}; the chain gives {wants[0][0]}"
        if not any(p.get("trust_chain") == c for _, c in wants):
            got = [(fed.payload_of(x)["iss"], fed.payload_of(x)["sub"]) for x in p.get("trust_chain") or []]
            return f"{where}: carries {got}, not the chain's statements from the leaf upwards"


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted(map(str, x))
    return x


def policies(r):
    out = {}
    a, b = C17.disjoint(r)
    # the anchors' policies on one set of claims, the intermediates' on another
    for e in ("ta>im", "ta>direct", "tb>im2", "ta>imx", "tb>imx"):
        if r.random() < .6:
            out[e] = a
    for e in ("im>rp", "im>op", "im2>op", "imx>multi", "im3>deep"):
        if r.random() < .6:
            out[e] = b
    return {k: v for k, v in out.items() if v}


def run(ctx):
    r = ctx.rnd
    every = [{"sub": s, "anchor": a} for s in ASKED for a in ("ta", "tb", "tc", "im")]
    P = C17.POLICIES
    for pol in ({}, {"ta>im": P[1], "tb>im2": P[2], "im>op": P[3], "ta>imx": P[4], "imx>multi": P[3]}, {"im>op": P[6], "ta>direct": P[6]}, {"tb>im2": P[6]}):
        ctx.run(history, {"policy": pol, "defect": "", "asks": every})
        ctx.run(history, {"policy": pol, "defect": "", "asks": every[::-1]})
        ctx.run(history, {"policy": pol, "defect": "", "asks": [dict(q, type=t) for q in every for t in (KIND, "openid_provider", "nonsense")][:60]})
    for d in DEFECTS[3:]:
        ctx.run(history, {"policy": {}, "defect": d, "asks": every})
    n = 0
    while not ctx.stop() and n < (2500 if ctx.thorough else 250):
        n += 1
        asks = []
        for _ in range(r.randint(1, 8)):
            q = {"sub": r.choice(ASKED), "anchor": r.choice(["ta", "ta", "tb", "tc", "im"])}
            if r.random() < .6 and PATHS[q["sub"]]:
                q["anchor"] = r.choice(PATHS[q["sub"]])[-1]
            if r.random() < .35:
                q["type"] = r.choice([KIND, KIND, "openid_provider", "nonsense"])
            if r.random() < .2:
                q["ta_ec"] = True
            asks.append(q)
        ctx.run(history, {"policy": policies(r), "defect": r.choice(DEFECTS), "asks": asks})
