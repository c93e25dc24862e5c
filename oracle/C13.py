"""Fetch.  Monitor: sequences of fetch requests to an authority with random registrations and policies; every statement is compared with what
is registered, and the registration with what it was before."""
import copy
import json

BUDGET = 60
BOUND = "up to 5 subordinates, 3 entity types, policies per subordinate and per type; up to 8 requests per history; file based service: up to 3 issuers with up to 4 subjects"
RULE = "the registration and the requests"
ASSUMPTIONS = ["signing (cryptojwt) is trusted", "every subordinate is registered with keys"]

TYPES = ["openid_relying_party", "openid_provider", "federation_entity"]
ME = "https://authority.example.org"
POL = {
    "metadata": [{"openid_relying_party": {"organization_name": "x", "contacts": ["a", "b"]}}, {"federation_entity": {"homepage_uri": "https://h.example.org"}}, {}],
    "metadata_policy": [{"openid_relying_party": {"scope": {"subset_of": ["openid", "email"]}}}, {"openid_provider": {"issuer": {"value": "https://op.example.org"}}}, {}],
}
TPOL = {
    "metadata": [{"organization_name": "t"}, {"contacts": ["t1", "t2"]}, {}],
    "metadata_policy": [{"scope": {"superset_of": ["openid"]}}, {"logo_uri": {"essential": True}, "contacts": {"add": ["t"]}}, {}],
}


def norm(x):
    return json.loads(json.dumps(x))


def claims(tok, fe):
    """the verified payload"""
    from cryptojwt.jwt import JWT
    from fedservice.entity_statement.statement import TrustChain
    from cryptojwt.key_jar import KeyJar
    kj = KeyJar()
    kj.import_jwks(fe.keyjar.export_jwks(), ME)
    p = JWT(key_jar=kj, allowed_sign_algs=["RS256", "ES256"]).unpack(tok)
    return norm({k: v for k, v in p.items()})


_FE = []


def authority(fed, case):
    from cryptojwt.key_bundle import KeyBundle
    from . import C12
    fe = fed.entity(ME, authority_hints=case.get("hints"), preference={"organization_name": "The authority"},
                    endpoints=["entity_configuration", "fetch", "list"])
    kb = KeyBundle()
    kb.append(C12.rsa("authority"))
    for i in ("", ME):
        fe.keyjar._issuers.pop(i, None)
        fe.keyjar.add_kb(i, kb)
    return fe


def expected(case, sub, fed):
    """the metadata, policy and other content a statement about sub must have"""
    reg = case["sub"][sub]
    md, mp = reg.get("metadata", {}), reg.get("metadata_policy", {})
    pol = case.get("pol", {}).get(sub)
    if pol:
        md, mp = pol.get("metadata", md), pol.get("metadata_policy", mp)
    elif "types" in reg:
        a, b = {}, {}
        for ty in reg["types"]:
            p = case.get("tpol", {}).get(ty)
            if p:
                if "metadata" in p:
                    a[ty] = p["metadata"]
                if "metadata_policy" in p:
                    b[ty] = p["metadata_policy"]
        if a or b:
            md, mp = a, b
    return md, mp


def history(case):
    from . import fed
    fe = authority(fed, case)
    srv = fe.server
    for s, reg in case["sub"].items():
        info = {"jwks": fed.jwks(*reg["keys"])}
        if "types" in reg:
            info["entity_types"] = list(reg["types"])
        for k in ("metadata", "metadata_policy", "constraints", "authority_hints", "intermediate"):
            if k in reg:
                info[k] = copy.deepcopy(reg[k])
        srv.subordinate[fed.eid(s)] = info
    for s, p in case.get("pol", {}).items():
        srv.policy[fed.eid(s)] = copy.deepcopy(p)
    for ty, p in case.get("tpol", {}).items():
        srv.policy[ty] = copy.deepcopy(p)
    before = copy.deepcopy((dict(srv.subordinate), dict(srv.policy)))
    seen = {}
    net = fed.Net()
    fed.set_net(fe, net)
    for s, reg in case["sub"].items():
        net.pages[fed.well_known(s)] = fed.ec(s, keyname=reg["keys"][0])
    for n, q in enumerate(case["asks"]):
        where = f"{case}: request {n} {q}"
        if "list" in q:
            try:
                fe.get_endpoint("list").process_request(dict(q["list"]))
            except Exception:
                pass
            if (dict(srv.subordinate), dict(srv.policy)) != before:
                return f"{where}: changed what is registered"
            continue
        req = {}
        if q.get("sub") is not None:
            req["sub"] = ME if q["sub"] == "self" else fed.eid(q["sub"])
        if "iss" in q:
            req["iss"] = ME if q["iss"] == "self" else fed.eid(q["iss"])
        try:
            r = fe.get_endpoint("fetch").process_request(dict(req))
            err = None
            if "error" in r:
                r, err = None, r["error"]
        except Exception as e:
            r, err = None, e
        if (dict(srv.subordinate), dict(srv.policy)) != before:
            return f"{where}: changed what is registered"
        own = req.get("sub", ME) == ME
        known = q.get("sub") in case["sub"]
        if not own and not known:
            if r is not None:
                return f"{where}: an unknown subordinate got {r}"
            continue
        if r is None:
            return f"{where}: refused ({type(err).__name__} {err})"
        tok = r["response_msg"]
        try:
            p = claims(tok, fe)
        except Exception as e:
            return f"{where}: not signed by the authority ({type(e).__name__} {e})"
        if p.get("iss") != ME:
            return f"{where}: issued by {p.get('iss')}"
        if p.get("sub") != req.get("sub", ME):
            return f"{where}: about {p.get('sub')}"
        if own:
            want = norm(fe.keyjar.export_jwks())
            md, mp = norm(fe.get_metadata()), {}
        else:
            want = norm(fed.jwks(*case["sub"][q["sub"]]["keys"]))
            md, mp = expected(case, q["sub"], fed)
            c = case["sub"][q["sub"]].get("constraints")
            if p.get("constraints") != c:
                return f"{where}: constraints {p.get('constraints')}, registered {c}"
        if norm(p.get("jwks")) != want:
            return f"{where}: keys {p.get('jwks')}, registered {want}"
        if p.get("metadata", {}) != norm(md):
            return f"{where}: metadata {p.get('metadata')} instead of {md}"
        if p.get("metadata_policy", {}) != norm(mp):
            return f"{where}: metadata policy {p.get('metadata_policy')} instead of {mp}"
        if any("d" in k or "k" in k for k in p["jwks"]["keys"]):
            return f"{where}: private keys published"
        same = {k: v for k, v in p.items() if k not in ("iat", "exp", "jti")}
        if seen.setdefault(req.get("sub"), same) != same:
            return f"{where}: {same}, was {seen[req.get('sub')]}"


def rand_case(r):
    subs = {}
    for i in range(r.randint(1, 5)):
        reg = {"keys": r.sample(["k1", "k2", "k3", "k4"], r.choice([1, 1, 2]))}
        if r.random() < .7:
            reg["types"] = r.sample(TYPES, r.randint(0, 3))
        elif r.random() < .4:
            for k in ("metadata", "metadata_policy"):
                if r.random() < .5:
                    reg[k] = r.choice(POL[k][:2])
        if r.random() < .3:
            reg["constraints"] = {"max_path_length": r.randint(1, 3)}
        if r.random() < .2:
            reg["authority_hints"] = [ME]
        if r.random() < .2:
            reg["intermediate"] = True
        subs[f"s{i}"] = reg
    pol, tpol = {}, {}
    for i in subs:
        if r.random() < .3:
            pol[i] = {k: r.choice(POL[k]) for k in POL if r.random() < .7}
    for ty in TYPES:
        if r.random() < .5:
            tpol[ty] = {k: r.choice(TPOL[k]) for k in TPOL if r.random() < .7}
    asks = [{"sub": r.choice(list(subs) + ["self", None, "unknown", "ta"]), **({"iss": r.choice(["self", "ta", "s0"])} if r.random() < .4 else {})} for _ in range(r.randint(1, 8))]
    for k in range(len(asks)):
        if r.random() < .15:
            asks[k] = {"list": r.choice([{}, {"trust_marked": True}, {"entity_type": TYPES[0]}, {"trust_mark_id": "x"}])}
    return {"sub": subs, "pol": pol, "tpol": tpol, "asks": asks, "hints": r.choice([None, ["https://ta.example.org"], ["https://ta.example.org", "https://ta2.example.org"]])}


# ---- the file based service
NAMES = ["ta.example.org", "im.example.org", "https.example.org", "https%3A%2F%2Fop.example.org%2Ftenant", "rp.example.org"]
CONTENT = {"metadata": [{"openid_relying_party": {"contacts": ["a"]}}, {"federation_entity": {"name": "x"}}],
           "policy": [{"openid_relying_party": {"scope": {"subset_of": ["openid"]}}}], "constraints": [{"max_path_length": 2}],
           "authority": [["https://ta.example.org"], ["https://im.example.org", "https://ta.example.org"]]}
CLAIM = {"metadata": "metadata", "policy": "metadata_policy", "constraints": "constraints", "authority": "authority_hints"}


def entity_id(name):
    from urllib.parse import unquote_plus
    return unquote_plus(name) if "%" in name else "https://" + name


def files(case):
    """case: {"dirs": {issuer: {subject: {file: content index}}}, "asks": [...]}"""
    import os
    import shutil
    import tempfile
    from urllib.parse import quote_plus
    from cryptojwt.jwt import JWT
    from cryptojwt.key_jar import KeyJar
    from fedservice.fetch_entity_statement.fs2 import FSFetchEntityStatement, FSPublisher
    from . import C12
    d = tempfile.mkdtemp(prefix="c13")
    try:
        for iss, subs in case["dirs"].items():
            for sub, fs in subs.items():
                w = os.path.join(d, iss, sub)
                os.makedirs(w)
                json.dump({"keys": [C12.rsa(sub).serialize(private=sub == iss)]}, open(os.path.join(w, "jwks.json"), "w"))
                for f, n in fs.items():
                    json.dump(CONTENT[f][n], open(os.path.join(w, f + ".json"), "w"))
        services, pub = {}, FSPublisher(d)
        for n, (how, iss, sub) in enumerate(case["asks"]):
            where = f"{case}: request {n} {how} {iss} {sub}"
            known = sub in case["dirs"][iss]
            try:
                if how == "publisher":
                    url = f"https://{iss}/.well-known/openid-federation" if iss == sub else f"https://{iss}/fetch?" + "iss=" + quote_plus(entity_id(iss)) + "&sub=" + quote_plus(entity_id(sub))
                    tok = pub("GET", url).text
                else:
                    if iss not in services:
                        services[iss] = FSFetchEntityStatement(d, iss="" if how == "late" else iss)
                        services[iss].iss = iss     # "late": the service is told later who it is
                    tok = services[iss].create_entity_statement(sub)
            except Exception as e:
                if known:
                    return f"{where}: refused ({type(e).__name__} {e})"
                continue
            if not known:
                return f"{where}: unknown, got {tok}"
            kj = KeyJar()
            kj.import_jwks({"keys": [C12.rsa(iss).serialize()]}, entity_id(iss))
            try:
                p = norm(dict(JWT(key_jar=kj).unpack(tok).items()))
            except Exception as e:
                return f"{where}: not signed by the issuer ({type(e).__name__} {e})"
            want = {CLAIM[f]: CONTENT[f][k] for f, k in case["dirs"][iss][sub].items()}
            want.update({"iss": entity_id(iss), "sub": entity_id(sub), "jwks": {"keys": [C12.rsa(sub).serialize()]}})
            got = {k: v for k, v in p.items() if k not in ("iat", "exp", "jti")}
            if got != norm(want):
                return f"{where}: {got} instead of {want}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rand_files(r):
    host = [n for n in NAMES if "%" not in n]
    dirs = {}
    for iss in r.sample(host, r.randint(1, 3)):
        subs = r.sample([n for n in NAMES if n != iss], r.randint(0, 3)) + [iss]
        dirs[iss] = {q: {f: r.randrange(len(CONTENT[f])) for f in CONTENT if r.random() < .5} for q in subs}
    asks = []
    for _ in range(r.randint(2, 8)):
        iss = r.choice(list(dirs))
        sub = r.choice(NAMES) if r.random() < .3 else r.choice(list(dirs[iss]))
        asks.append(["publisher" if "%" not in sub and r.random() < .4 else r.choice(["service", "service", "late"]), iss, sub])
    return {"dirs": dirs, "asks": asks}


def run(ctx):
    r = ctx.rnd
    rp, op = TYPES[:2]
    ctx.run(history, {"sub": {"a": {"keys": ["k1"], "types": [rp]}, "b": {"keys": ["k2"], "types": [rp, op]}, "c": {"keys": ["k3"]}},
                      "pol": {"a": {"metadata_policy": POL["metadata_policy"][0]}},
                      "tpol": {rp: {"metadata_policy": TPOL["metadata_policy"][0]}, op: {"metadata": TPOL["metadata"][0]}},
                      "asks": [{"sub": x, **({"iss": i} if i else {})} for x in ("a", "b", "c", "b", "a", "c", None, "self", "unknown", rp) for i in (None, "self", "ta")]})
    n = 0
    while not ctx.stop() and n < (5000 if ctx.thorough else 300):
        n += 1
        ctx.run(history, rand_case(r))
    ta, im, hh, op_, rp_ = NAMES
    ctx.run(files, {"dirs": {ta: {ta: {"metadata": 1}, im: {"policy": 0, "constraints": 0}, op_: {"metadata": 0}, hh: {}}, im: {im: {"authority": 0}, rp_: {"policy": 0}}},
                    "asks": [["service", ta, x] for x in (ta, im, op_, hh, rp_, im)] + [["service", im, x] for x in (im, rp_, ta)]
                    + [["late", ta, im]] + [["publisher", ta, x] for x in (ta, im, hh, rp_)] + [["publisher", im, x] for x in (im, rp_, ta)]})
    n = 0
    while n < (300 if ctx.thorough else 25):
        n += 1
        ctx.run(files, rand_files(r))
