"""Issued trust marks and status answers.  Monitor: histories of issuing (directly and through the endpoint), clock steps and questions to
the status and listing endpoints, against a list of what was issued; two register implementations."""
import copy
import json
import os
import shutil
import tempfile

BUDGET = 60
BOUND = "histories of up to 15 operations, 3 specified identifiers, 3 subjects, lifetimes none/short/long"
RULE = "the history"
ASSUMPTIONS = ["signing and signature verification (cryptojwt) are trusted", "at the very second of expiry either answer is accepted",
               "a query of the listing for one subject may leave out an expired mark"]

GOLD, SHORT, FREE, NONE = [f"https://marks.example.org/{x}" for x in ("gold", "short", "free", "none")]
SPEC = {GOLD: {"lifetime": 100000, "logo_uri": "https://marks.example.org/logo", "ref": "https://marks.example.org/ref"},
        SHORT: {"lifetime": 50, "extra": {"a": [1, 2]}}, FREE: {"ref": "https://x.example.org"}}
SUBS = ["https://a.example.org", "https://a.example.org/b", "https://b.example.org"]
RSA = {"key_defs": [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]}
_RSA = []


def issuer(case, fed, d):
    from cryptojwt.key_jar import init_key_jar
    ep = {n: {"path": n, "class": f"fedservice.trust_mark_entity.server.{n}.{c}", "kwargs": {}}
          for n, c in (("trust_mark", "TrustMark"), ("trust_mark_list", "TrustMarkList"), ("trust_mark_status", "TrustMarkStatus"))}
    kw = {"trust_mark_specification": copy.deepcopy(SPEC), "endpoint": ep}
    if case.get("db") == "FileDB":
        kw["trust_mark_db"] = {"class": "fedservice.trust_mark_entity.FileDB", "kwargs": {i: os.path.join(d, str(n)) for n, i in enumerate(SPEC)}}
    fe = fed.entity("https://tmi.example.org", trust_anchors={fed.eid("ta"): {"keys": [rsa("ta").serialize(private=False)]}},
                    trust_mark_entity={"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": kw})
    ks = fe.keyjar.get_issuer_keys("") or []
    from cryptojwt.key_bundle import KeyBundle
    kb = KeyBundle()
    kb.append(rsa("tmi"))
    kb.append(fed.key("tmi"))
    for i in ("", fe.entity_id):
        if i in fe.keyjar.owners():
            fe.keyjar._issuers.pop(i) if hasattr(fe.keyjar, "_issuers") else None
        fe.keyjar.add_kb(i, kb)
    return fe, fe.server.trust_mark_entity


_K = {}


def rsa(name):
    from cryptojwt.jwk.rsa import new_rsa_key
    if name not in _K:
        k = new_rsa_key(use="sig")
        k.kid = "rsa-" + name
        _K[name] = k
    return _K[name]


def in_force(m, t):
    return "exp" not in m or m["exp"] > t


def history(case):
    from . import fed
    d = tempfile.mkdtemp(prefix="c12-")
    try:
        return _history(case, fed, d)
    finally:
        shutil.rmtree(d)


def _history(case, fed, d):
    fe, tme = issuer(case, fed, d)
    spec = {i: {k: v for k, v in s.items() if k != "lifetime"} for i, s in SPEC.items()}
    t = fed.now()
    issued, tokens = [], []
    for step, op in enumerate(case["ops"]):
        if op[0] == "tick":
            t += op[1]
            continue
        with fed.Frozen(t):
            where = f"{case}: step {step} {op}"
            if op[0] in ("create", "endpoint"):
                i, s = op[1], op[2]
                extra = op[3] if len(op) > 3 and op[0] == "create" else {}
                try:
                    if op[0] == "create":
                        tok = tme.create_trust_mark(i, s, **copy.deepcopy(extra))
                    else:
                        tok = fe.server.endpoint["trust_mark"].process_request({"trust_mark_id": i, "sub": s})["http_response"]
                except Exception as e:
                    if i in SPEC:
                        return f"{where}: a specified mark is not issued: {type(e).__name__} {e}"
                    continue
                if i not in SPEC:
                    return f"{where}: issued although there is no such specification"
                p = fed.payload_of(tok)
                want = {**spec[i], **{"id": i, "sub": s, "iss": "https://tmi.example.org", "iat": t}, **extra}
                if "lifetime" in SPEC[i]:
                    want["exp"] = t + SPEC[i]["lifetime"]
                got = {k: v for k, v in p.items() if k not in ("jti", "kid")}
                if got != want:
                    return f"{where}: states {got}, should state {want}"
                if not any(s_ok(tok, k) for k in (rsa("tmi"), fed.key("tmi"))):
                    return f"{where}: not signed by the issuer"
                issued.append(want)
                tokens.append((tok, want))
            elif op[0] == "status":
                bad = status(fe, op, issued, t, op[1] if not isinstance(op[1], int) else None)
                if bad:
                    return f"{where}: {bad}"
            elif op[0] == "status-mark" and tokens:
                tok, m = tokens[op[1] % len(tokens)]
                ms = [x for x in issued if x["id"] == m["id"] and x["sub"] == m["sub"]]
                if ms[-1].get("exp") == t or m.get("exp") == t or not in_force(m, t) and in_force(ms[-1], t):
                    continue
                got = ask(fe, {"trust_mark": tok})
                if got != in_force(ms[-1], t):
                    return f"{where}: active={got} for {m}, issued {ms}, at {t}"
            elif op[0] == "foreign":
                who, i, s = op[1:]
                p = {"iss": f"https://{who}.example.org", "sub": s, "id": i, "iat": t}
                if ask(fe, {"trust_mark": fed.sign(p, rsa(who), typ="JWT", alg="RS256")}):
                    if who == "ta" or who == "mallory" or not any(x["id"] == i and x["sub"] == s for x in issued):
                        return f"{where}: active for a mark this issuer has never issued"
            elif op[0] == "list":
                bad = listing(fe, issued, t, op[1])
                if bad:
                    return f"{where}: {bad}"
            elif op[0] == "reload":
                tme.issued.loads(tme.issued.dumps()) if case.get("db") != "FileDB" else None
            if {i: s for i, s in tme.trust_mark_specification.items()} != spec:
                return f"{where}: the specifications are now {tme.trust_mark_specification}"
    return everything(case, fe, issued, t, fed)


def everything(case, fe, issued, t, fed):
    with fed.Frozen(t):
        for i in list(SPEC) + [NONE]:
            for s in SUBS:
                for shape in ("trust_mark_id", "id"):
                    bad = status(fe, ["status", shape, i, s], issued, t, shape)
                    if bad:
                        return f"{case}: at the end: {bad}"
            bad = listing(fe, issued, t, i)
            if bad:
                return f"{case}: at the end: {bad}"
        for q in ({}, {"sub": SUBS[0]}, {"trust_mark_id": GOLD}, {"id": GOLD}):
            if ask(fe, q):
                return f"{case}: active for the question {q}"


def s_ok(tok, k):
    from cryptojwt.jws.jws import factory
    try:
        factory(tok).verify_compact(tok, keys=[k])
        return True
    except Exception:
        return False


def ask(fe, q):
    try:
        r = fe.server.endpoint["trust_mark_status"].process_request(dict(q))
    except Exception:
        return False
    if "error" in r:
        return False
    return r.get("response_args", {}).get("active") is True


def status(fe, op, issued, t, shape):
    _, shape, i, s = op
    ms = [x for x in issued if x["id"] == i and x["sub"] == s]
    if ms and ms[-1].get("exp") == t:
        return
    got, want = ask(fe, {shape: i, "sub": s}), bool(ms) and in_force(ms[-1], t)
    if got != want:
        return f"status of {i} for {s}: active={got}; issued {ms}, at {t}"


def listing(fe, issued, t, i):
    mine = [x for x in issued if x["id"] == i]
    ep = fe.server.endpoint["trust_mark_list"]

    def q(req):
        r = ep.process_request(req)
        if "error" in r:
            return []
        return json.loads(r["response_msg"])
    got = q({"trust_mark_id": i})
    if sorted(got) != sorted({x["sub"] for x in mine}):
        return f"the listing of {i} is {got}, issued: {mine}"
    for s in SUBS:
        ms = [x for x in mine if x["sub"] == s]
        got = q({"trust_mark_id": i, "sub": s})
        if got != ([s] if ms else []) and not (got == [] and ms and not (in_force(ms[-1], t) and ms[-1].get("exp") != t)):
            return f"the listing of {i} for {s} is {got}, issued: {ms}"


def run(ctx):
    r = ctx.rnd
    ids = [GOLD, SHORT, FREE]
    for db in ("SimpleDB", "FileDB"):
        for i in ids + [NONE]:
            for op in ("create", "endpoint"):
                ctx.run(history, {"db": db, "ops": [[op, i, SUBS[0]], [op, i, SUBS[0]], ["status-mark", 0], ["tick", 60], ["status-mark", 0], ["foreign", "ta", i, SUBS[0]], ["foreign", "mallory", i, SUBS[0]]]})
                ctx.run(history, {"db": db, "ops": [[op, i, SUBS[0]], ["tick", 60], [op, i, SUBS[1]], ["tick", 30], [op, GOLD, SUBS[0]], ["status-mark", 1]]})
        ctx.run(history, {"db": db, "ops": [["create", GOLD, SUBS[0], {"ref": "https://other.example.org", "more": [1]}], ["create", GOLD, SUBS[1]]]})
    n = 0
    while not ctx.stop() and n < (3000 if ctx.thorough else 150):
        n += 1
        ops = []
        for _ in range(r.randint(1, 15)):
            x = r.random()
            i, s = r.choice([GOLD, SHORT, SHORT, FREE, NONE]), r.choice(SUBS)
            if x < .4:
                ops.append([r.choice(["create", "endpoint"]), i, s] + ([{"more": [1]}] if r.random() < .2 else []))
            elif x < .55:
                ops.append(["tick", r.choice([1, 20, 49, 51, 200])])
            elif x < .65:
                ops.append(["status", r.choice(["trust_mark_id", "id"]), i, s])
            elif x < .75:
                ops.append(["status-mark", r.randint(0, 9)])
            elif x < .85:
                ops.append(["foreign", r.choice(["ta", "mallory"]), i, s])
            elif x < .95:
                ops.append(["list", i])
            else:
                ops.append(["reload"])
        ctx.run(history, {"db": r.choice(["SimpleDB", "SimpleDB", "FileDB"]), "ops": ops})
