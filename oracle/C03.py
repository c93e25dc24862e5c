"""Signed, linked, anchored.  Monitor: signed chains, honest ones and ones with up to three forgeries, go through the real verifier,
several in a row for one entity; acceptance, the content of the result and the growth of the key jar are checked."""
import copy
import json

BUDGET = 100
BOUND = "chains of 1..6 statements over 8 entities, up to 3 forgeries per chain, up to 3 chains per entity"
RULE = "the chains with their forgeries"
ASSUMPTIONS = ["signature verification itself (cryptojwt JWS, KeyJar.get_jwt_verify_keys) is trusted",
               "iss, sub and jwks of a statement are strings and a JWK set"]

_T = [0]


def token(s):
    from . import fed
    if "raw" in s:
        return s["raw"]
    if not _T[0]:
        _T[0] = fed.now()
    p = {"iss": s["iss"], "sub": s["sub"], "iat": _T[0], "exp": _T[0] + s.get("ttl", 5000)}
    if s.get("jwks") is not None:
        p["jwks"] = fed.jwks(*s["jwks"])
    p.update(s.get("extra", {}))
    k = fed.key(s["signer"])
    if s.get("kid"):
        k2 = copy.copy(k)
        k2.kid = s["kid"]
        k = k2
    hdr = {}
    t = fed.sign(p, k)
    if s.get("flip"):
        h, b, sig = t.split(".")
        from cryptojwt.utils import b64e, b64d
        pl = json.loads(b64d(b.encode()))
        pl["sub" if s["flip"] == "sub" else "iss" if s["flip"] == "iss" else "metadata"] = s.get("to", {"x": {}})
        pl["forged"] = True
        t = ".".join([h, b64e(json.dumps(pl).encode()).decode(), sig])
    return t


def keyset(fe):
    out = {}
    for i in fe.keyjar.owners():
        out[i] = {(k.kid, k.x if isinstance(k.x, str) else str(k.x)) for k in fe.keyjar.get_issuer_keys(i) if getattr(k, "kty", "") == "EC"}
    return out


def kid_x(name):
    from . import fed
    k = fed.key(name)
    return (k.kid, k.serialize()["x"] if not isinstance(k.x, str) else k.x)


def chains(case):
    from . import fed
    tas = {i: fed.jwks(*ks) for i, ks in case["ta"].items()}
    fe = fed.entity("https://me.example.org", trust_anchors=tas)
    for i, ks in case.get("known", {}).items():
        fe.keyjar.import_jwks(fed.jwks(*ks), i)
    for ch in case["chains"]:
        before = keyset(fe)
        toks = [token(s) for s in ch]
        arg = list(toks)
        try:
            r = fe.function.verifier(arg)
        except Exception as e:
            r = None
        after = keyset(fe)
        # which statements carry a signature by a key trusted for their issuer
        trust = {i: set(v) for i, v in before.items()}
        verified, signed = [], True
        for s in ch:
            ok = "raw" not in s and not s.get("flip") and (s.get("kid") or fed.key(s["signer"]).kid, kid_x(s["signer"])[1]) in \
                {(a, b) for a, b in trust.get(s["iss"], set())}
            if not ok:
                signed = False
                if "raw" in s:
                    continue
                break
            verified.append(s)
            for k in s.get("jwks") or []:
                trust.setdefault(s["sub"], set()).add(kid_x(k))
        anchored = "raw" not in ch[0] and ch[0]["iss"] in tas
        linked = signed and all(a["sub"] == b["iss"] or (n == len(ch) - 2 and a["sub"] == b["sub"])
                                for n, (a, b) in enumerate(zip(ch, ch[1:])))
        vouched = all(s.get("jwks") is not None for s in ch[:-1])
        fresh = all(s.get("ttl", 5000) > 0 for s in ch)
        want = anchored and signed and linked and fresh
        got = bool(r)
        if got and not want:
            return (f"accepted a chain that is {'' if anchored else 'not anchored '}{'' if signed else 'not signed '}"
                    f"{'' if linked else 'not linked '}{'' if fresh else 'not fresh'}: {json.dumps(ch)[:600]}")
        if want and vouched and not got and not case.get("odd"):
            return f"refused a chain that is signed, linked and anchored: {json.dumps(ch)[:600]}"
        if got:
            pay = [fed.payload_of(t) for t in toks]
            if [dict(x) for x in r.verified_chain] != pay:
                return f"the verified chain is not the supplied statements: {[(x['iss'], x['sub']) for x in r.verified_chain]} for {[(x['iss'], x['sub']) for x in pay]}"
            if r.anchor != ch[0]["iss"]:
                return f"anchor {r.anchor}, first issuer {ch[0]['iss']}"
            if list(r.iss_path) != [s["iss"] for s in ch][::-1]:
                return f"issuer path {r.iss_path} for issuers {[s['iss'] for s in ch]}"
            if list(r.chain) != toks:
                return "the chain's statements are not the supplied ones"
        # keys are only added for subjects of verified statements
        okadd = {}
        if anchored:
            for s in verified:
                okadd.setdefault(s["sub"], set()).update(kid_x(k) for k in s.get("jwks") or [])
        for i, ks in after.items():
            new = ks - before.get(i, set()) - okadd.get(i, set())
            if new:
                return f"keys {sorted(a for a, _ in new)} were added for {i}, no verified statement about it vouches for them: {json.dumps(ch)[:500]}"
        for i, ks in before.items():
            if ks - after.get(i, set()):
                return f"keys of {i} disappeared"


def run(ctx):
    from . import fed
    r = ctx.rnd
    E = fed.eid
    names = ["ta", "tb", "a", "b", "c", "d", "leaf", "evil"]
    allkeys = names + ["k1", "k2"]

    def honest(n, top):
        mids = r.sample(["a", "b", "c", "d"], max(0, n - 2)) if n > 2 else []
        path = [top] + mids + (["leaf"] if n > 1 else [])
        if n == 1:
            return [{"iss": E(top), "sub": E(top), "signer": top, "jwks": [top]}]
        ch = [{"iss": E(x), "sub": E(y), "signer": x, "jwks": [y] + (["k1"] if r.random() < .15 else [])} for x, y in zip(path, path[1:])]
        ch.append({"iss": E("leaf"), "sub": E("leaf"), "signer": "leaf", "jwks": ["leaf"]})
        if r.random() < .25:
            ch[-1].pop("jwks")
        return ch

    def mutate(ch):
        k = r.randrange(len(ch))
        s = ch[k]
        q = r.randrange(16)
        if "raw" in s:
            return
        if q == 0:
            s["signer"] = r.choice(allkeys)
        elif q == 1:
            s["signer"] = "evil"
            s["kid"] = fed.key(r.choice(allkeys)).kid
        elif q == 2:
            s["iss"] = E(r.choice(names))
        elif q == 3:
            s["sub"] = E(r.choice(names))
        elif q == 4:
            s["jwks"] = r.sample(allkeys, r.randint(0, 2))
        elif q == 5 and len(ch) > 1:
            del ch[k]
        elif q == 6:
            ch.insert(k, copy.deepcopy(r.choice(ch)))
        elif q == 7 and len(ch) > 1:
            ch[k], ch[k - 1] = ch[k - 1], ch[k]
        elif q == 8:
            ch[k] = {"raw": r.choice(["", "abc", "a.b.c", "e30.e30.", "..."])}
        elif q == 9:
            s["flip"] = "sub"
            s["to"] = E(r.choice(names))
        elif q == 10:
            s["flip"] = "metadata"
        elif q == 11:       # an attacker's statement between two honest ones
            ch.insert(k + 1, {"iss": E("evil"), "sub": s["sub"], "signer": "evil", "jwks": ["evil"]})
        elif q == 12:       # vouch for oneself
            s["iss"], s["signer"] = E("evil"), "evil"
        elif q == 13:
            s["signer"] = s.get("jwks", ["evil"])[0] if s.get("jwks") else "evil"
        elif q == 15:
            s["ttl"] = r.choice([-5, -100000])
        elif q == 14 and k:
            j = r.randrange(k)
            s["iss"], s["signer"] = ch[j].get("iss", E("a")), ch[j].get("signer", "a")

    N = 4000 if ctx.thorough else 700
    for k in range(N):
        if ctx.stop():
            return
        ta = {E("ta"): ["ta"]}
        if r.random() < .4:
            ta[E("tb")] = ["tb", "k2"]
        known = {}
        if r.random() < .5:
            for i in r.sample(["a", "b", "evil", "leaf", "tb"], r.randint(1, 2)):
                if E(i) not in ta:
                    known[E(i)] = [i]
        cs = []
        for c in range(r.choice([1, 1, 2, 3])):
            ch = honest(r.choice([1, 2, 3, 3, 4, 5, 6]), r.choice(["ta", "ta", "ta", "tb"]))
            for m in range(r.choice([0, 0, 1, 1, 1, 2, 3])):
                mutate(ch)
            cs.append(ch)
        ctx.run(chains, {"ta": ta, "known": known, "chains": cs})
