"""Caching.  Monitor: sequences of stores, lookups, deletes and clock steps on ESCache against a model; sequences of collections under a
moving clock, with statements of all lifetimes and entity identifiers chosen to confuse the cache keys."""
import json
from urllib.parse import parse_qs, urlparse

BUDGET = 70
BOUND = "sequences of up to 30 operations, 5 keys, margins 0..300; up to 8 collections per history over up to 6 entities"
RULE = "the history"
ASSUMPTIONS = ["the clock does not run backwards", "decoded statements carry an expiry time"]


def cache(case):
    from . import fed
    from fedservice.entity_statement.cache import ESCache
    delta, ops = case["delta"], case["ops"]
    c = ESCache(allowed_delta=delta)
    if c.allowed_delta != delta:
        return f"allowed_delta is {c.allowed_delta}"
    model = {}
    t = 1_000_000
    for n, op in enumerate(ops):
        with fed.Frozen(t):
            if op[0] == "tick":
                t += op[1]
                continue
            k = op[1]
            if op[0] == "set":
                v = op[2]
                if isinstance(v, dict) and "left" in v:
                    v = {"iss": k, "sub": k, "exp": t + v["left"], "n": n}
                    if op[3:] == ["message"]:
                        from idpyoidc.message import Message
                        v = Message(**v)
                c[k] = v
                model[k] = v
            elif op[0] == "del":
                if k in model:
                    # may have been dropped because it expired
                    try:
                        del c[k]
                    except KeyError:
                        if not expiring(model[k], t, delta, True):
                            return f"{case}: step {n}: {k} had been stored and is gone"
                    del model[k]
            else:
                want = model.get(k)
                if op[0] == "get":
                    got = c[k]
                elif op[0] == "getd":
                    got = c.get(k, "DEFAULT")
                    got = None if got == "DEFAULT" else got
                else:
                    got = k in c
                    if want is not None and expiring(want, t, delta, True):
                        if not expiring(want, t, delta, False):
                            continue
                        if got:
                            return f"{case}: step {n}: claims to have {k}, which expires within the margin"
                    elif got != (want is not None):
                        return f"{case}: step {n}: '{k} in cache' is {got}"
                    continue
                if want is not None and expiring(want, t, delta, True):
                    edge = not expiring(want, t, delta, False)
                    if got is not None and not edge:
                        return f"{case}: step {n}: at {t} with margin {delta} returned a statement that expires at {want['exp']}"
                    if edge and got is None:
                        continue
                    if not edge:
                        continue
                if got is not want and not (got == want and type(got) is type(want)):
                    return f"{case}: step {n}: looked up {k}, got {got!r}, stored was {want!r}"


def expiring(v, t, delta, closed):
    from collections.abc import Mapping
    if not isinstance(v, Mapping):
        return False
    return v["exp"] - t <= delta if closed else v["exp"] - t < delta


def collect(case):
    """case: edges [[authority, subject]], ids {name: id}, life {..}, steps [[leaf, tick]...]"""
    from . import fed
    ids, edges, delta = case["ids"], [tuple(e) for e in case["edges"]], case["delta"]
    net = fed.Net()
    clock = [fed.now()]
    serial = [0]
    hints = {n: [a for a, s in edges if s == n] for n in ids}
    inv = {v: k for k, v in ids.items()}
    issued = {}

    def p_ec(n):
        def page(method, url, **kw):
            serial[0] += 1
            p = {"iss": ids[n], "sub": ids[n], "iat": clock[0], "exp": clock[0] + case["life"].get(n, 5000), "jwks": fed.jwks(n),
                 "jti": str(serial[0]), "metadata": {"federation_entity": {"federation_fetch_endpoint": f"https://fetch{n}.example.org/f"}}}
            if hints[n]:
                p["authority_hints"] = [ids[a] for a in hints[n]]
            return fed.Resp(fed.sign(p, n))
        return page

    def p_es(method, url, **kw):
        u = urlparse(url)
        q = {k: v[0] for k, v in parse_qs(u.query).items()}
        a = u.netloc.split(".")[0][5:]
        s = inv.get(q.get("sub"))
        if (a, s) not in edges:
            return fed.Resp("?", 404)
        serial[0] += 1
        return fed.Resp(fed.sign({"iss": ids[a], "sub": ids[s], "iat": clock[0], "exp": clock[0] + case["life"].get(f"{a}>{s}", 5000),
                                  "jwks": fed.jwks(s), "jti": str(serial[0])}, a))

    class Pages(dict):
        def get(self, url, d=None):
            if "/.well-known/openid-federation" in url:
                for n, i in ids.items():
                    h, _, path = i.partition("://")[2].partition("/")
                    if url in (f"https://{h}/.well-known/openid-federation" + (f"/{path}" if path else ""),
                               f"https://{h}/{path}" + ("" if not path else "/") + ".well-known/openid-federation"):
                        return p_ec(n)
                return None
            return p_es
    net.pages = Pages()
    fe = fed.entity("https://me.example.org", net)
    col = fe.function.trust_chain_collector
    col.allowed_delta = delta
    for a in ("config_cache", "entity_statement_cache"):
        getattr(col, a).allowed_delta = delta
    for step, (leaf, tick) in enumerate(case["steps"]):
        clock[0] += tick
        t = clock[0]
        for again in (False, True):
            n0 = len(net.log)
            s0 = serial[0]
            with fed.Frozen(t):
                try:
                    r = col(ids[leaf])
                except Exception as e:
                    if min(case["life"].get(n, 5000) for n in ids) <= delta:
                        return None     # an entity configuration that is too old from the start can not be used
                    return f"{case}: step {step}: {type(e).__name__}: {e}"
            tree, lec = r
            msg = look(fed, case, step, t, delta, s0, tree, ids[leaf], lec)
            if msg:
                return msg
            if again and case["far"] and len(net.log) > n0:
                # everything was stored a moment ago, and nothing served has less than the margin left
                return f"{case}: step {step}: the cache was not refreshed, {[x[1] for x in net.log[n0:]]} was fetched again at once"


def look(fed, case, step, t, delta, s0, tree, subject, lec):
    p = fed.payload_of(lec)
    if p["sub"] != subject or p["iss"] != subject:
        return f"{case}: step {step}: entity configuration of {subject} is about {p['sub']}"
    if int(p["jti"]) <= s0 and p["exp"] - t < delta:
        return f"{case}: step {step}: reused an entity configuration of {subject} with {p['exp'] - t} s left (margin {delta})"
    return branch(fed, case, step, t, delta, s0, tree, subject)


def branch(fed, case, step, t, delta, s0, tree, subject):
    for authority, b in (tree or {}).items():
        if b is None:
            continue
        st, sub = b
        p = fed.payload_of(st)
        if p["iss"] != authority or p["sub"] != subject:
            return f"{case}: step {step}: asked {authority} about {subject}, used the statement by {p['iss']} about {p['sub']}"
        if int(p["jti"]) <= s0 and p["exp"] - t < delta:
            return f"{case}: step {step}: reused the statement by {authority} about {subject} with {p['exp'] - t} s left (margin {delta})"
        m = branch(fed, case, step, t, delta, s0, sub, authority)
        if m:
            return m


def rnd_collect(r):
    n = r.randint(2, 6)
    names = [f"n{i}" for i in range(n)]
    edges = []
    for i in range(1, n):
        for a in r.sample(names[:i], min(i, r.choice([1, 1, 2]))):
            edges.append([a, names[i]])
    ids = {x: f"https://{x}.example.org" for x in names}
    if r.random() < .3:
        # identifiers that could run into each other when simply put together
        for x in r.sample(names, min(3, n)):
            ids[x] = r.choice([f"https://{x}.example.org/a!!https://n1.example.org", f"https://{x}.example.org/!exp!x", f"https://{x}.example.org/%21",
                               f"https://{x}.example.org/{x}", f"https://{x}.example.org/{x}!!"])
    delta = r.choice([0, 10, 300, 300])
    far = r.random() < .4
    life = {}
    for x in names + [f"{a}>{s}" for a, s in edges]:
        life[x] = r.choice([5000, 86400]) if far else r.choice([delta + 1, delta + 5, delta - 1 if delta > 10 and '>' in x else delta + 2, delta + 50, 5000])
    steps = [[r.choice(names[1:]), r.choice([0, 0, 1, 4, 49, 300, 4000, 5000 - delta - 1, 5000 - delta, 5000 - delta + 1, 5001])] for _ in range(r.randint(1, 6))]
    return {"ids": ids, "edges": edges, "delta": delta, "life": life, "steps": steps, "far": far}


CLASH = {  # X!!Y!!Z can be read in two ways
    "ids": {"a": "https://a.example.org", "b": "https://a.example.org!!https://b.example.org", "c": "https://c.example.org"},
}


def clash(case):
    """two authorities and two subjects whose identifiers, put together with the separator, read the same"""
    from . import fed
    sep = case["sep"]
    a1, mid, e2 = "https://a.example.org/x", "https://m.example.org/y", "https://l.example.org"
    a2, e1 = a1 + sep + mid, mid + sep + e2
    net = fed.Net()
    fe = fed.entity("https://me.example.org", net)
    col = fe.function.trust_chain_collector
    t = fed.now()
    for n, a in (("k1", a1), ("k2", a2)):
        col.config_cache[a] = {"iss": a, "sub": a, "exp": t + 5000, "metadata": {"federation_entity": {"federation_fetch_endpoint": f"https://{n}.example.org/f"}}}

    class Pages(dict):
        def get(self, url, d=None):
            q = {k: v[0] for k, v in parse_qs(urlparse(url).query).items()}
            return fed.Resp(fed.sign({"iss": q["iss"], "sub": q["sub"], "iat": t, "exp": t + 5000, "jwks": {"keys": []}}, "k1"))
    net.pages = Pages()
    for a, e in ((a1, e1), (a2, e2), (a1, e1)):
        tree = col.collect_tree(e, {"iss": e, "sub": e, "authority_hints": [a]})
        p = fed.payload_of(tree[a][0])
        if (p["iss"], p["sub"]) != (a, e):
            return f"asked {a} about {e}, used the statement by {p['iss']} about {p['sub']}"


def run(ctx):
    r = ctx.rnd
    keys = ["k1", "k2", "k1!!k2", "k1!exp!k2", ""]
    for _ in range(30000 if ctx.thorough else 4000):
        delta = r.choice([0, 1, 10, 300])
        ops = []
        for _ in range(r.randint(1, 30)):
            x, k = r.random(), r.choice(keys[:r.randint(1, 5)])
            if x < .35:
                v = r.choice([{"left": r.choice([-5, 0, delta - 1, delta, delta + 1, delta + 7, 1000])}] * 4 + ["tok", "", 0, 17, False, [1]])
                ops.append(["set", k, v] + (["message"] if r.random() < .3 else []))
            elif x < .45:
                ops.append(["del", k])
            elif x < .6:
                ops.append(["tick", r.choice([0, 1, 2, 7, 1000])])
            else:
                ops.append([r.choice(["get", "getd", "in"]), k])
        ctx.run(cache, {"delta": delta, "ops": ops})
    for sep in ("!!", "!exp!", "!", "|", " ", ":", "->", "/"):
        ctx.run(clash, {"sep": sep})
    n = 0
    while not ctx.stop() and n < (5000 if ctx.thorough else 250):
        n += 1
        ctx.run(collect, rnd_collect(r))
