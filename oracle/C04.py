"""Chain lifetime.  Monitor: random expiry lists through trust_chain_expires_at and through the whole verifier; clocks around the expiry
for is_expired and statement_is_expired."""
BUDGET = 40
BOUND = "1..12 statements, expiry times from a small and from the full 32-bit range, clocks within +-2 s of the boundary"
RULE = "expiry times and clock"
ASSUMPTIONS = ["expiry times are non-negative integers"]


def expires(case):
    from fedservice.entity.function.verifier import TrustChainVerifier
    v = _verifier()
    sts = [{"iss": f"i{n}", "sub": f"s{n}", "exp": e, **({"iat": 1} if n % 2 else {})} for n, e in enumerate(case)]
    got = v.trust_chain_expires_at([dict(s) for s in sts])
    if got != min(case):
        return f"statements expiring at {case}: chain expires at {got}, the smallest is {min(case)}"


_V = []


def _verifier():
    if not _V:
        from . import fed
        _V.append(fed.entity("https://me.example.org"))
    return _V[0].function.verifier


def chain_expired(case):
    from . import fed
    from fedservice.entity_statement.statement import TrustChain
    exp, now = case
    tc = TrustChain(anchor="https://ta", exp=exp, verified_chain=[])
    with fed.Frozen(now):
        got = bool(tc.is_expired())
    if got != (now > exp):
        return f"chain with expiry {exp} at time {now}: is_expired() is {got}"


def statement_expired(case):
    from . import fed
    from fedservice.utils import statement_is_expired
    st, now = case
    keep = dict(st)
    with fed.Frozen(now):
        got = bool(statement_is_expired(st))
    want = "exp" in keep and now > keep["exp"]
    if got != want:
        return f"statement {keep} at time {now}: statement_is_expired is {got}"
    if st != keep:
        return "statement changed"


def whole(case):
    """signed chain: TA -> n intermediates -> leaf, with the given remaining lifetimes"""
    from . import fed
    lives = case
    n = len(lives)
    t0 = fed.now()
    names = [f"e{k}" for k in range(n - 1)] if n > 1 else ["e0"]
    toks, exps = [], []
    for k, a in enumerate(names):
        sub = names[k + 1] if k + 1 < len(names) else names[-1]
        if k + 1 < len(names):
            toks.append(fed.es(a, sub))
    toks = []
    # statements: e0 about e1, e1 about e2, ..., then the leaf's own configuration
    path = [f"e{k}" for k in range(n)]
    for k in range(n):
        sub = path[k + 1] if k + 1 < n else path[k]
        p = {"iss": fed.eid(path[k]), "sub": fed.eid(sub), "iat": t0, "exp": t0 + lives[k], "jwks": fed.jwks(sub)}
        exps.append(p["exp"])
        toks.append(fed.sign(p, path[k]))
    fe = fed.entity("https://me.example.org", trust_anchors={fed.eid("e0"): fed.jwks("e0")})
    tc = fe.function.verifier(toks)
    if tc is None:
        return f"an honest chain of {n} statements was not accepted"
    if tc.exp != min(exps):
        return f"lifetimes {lives}: chain expires {tc.exp - t0} s from now, the shortest-lived statement in {min(lives)} s"
    for d in (-1, 0, 1, 2):
        with fed.Frozen(tc.exp + d):
            if bool(tc.is_expired()) != (d > 0):
                return f"{d} s after the smallest expiry of {lives}: is_expired() is {not d > 0}"


def run(ctx):
    r = ctx.rnd
    import itertools
    for n in range(1, 5):
        for p in itertools.product([0, 1, 5, 1_700_000_000][:4], repeat=n):
            ctx.run(expires, list(p))
    for _ in range(3000):
        n = r.randint(1, 12)
        ctx.run(expires, [r.choice([r.randrange(10), r.randrange(2 ** 32), r.randrange(2 ** 40), 2 ** 31, 2 ** 63]) for _ in range(n)])
    for _ in range(150):
        e = r.choice([0, 1, 2 ** 31, r.randrange(2 ** 33)])
        ctx.run(chain_expired, [e, max(0, e + r.choice([-100000, -61, -2, -1, 0, 1, 2, 61, 100000]))])
        st = {"iss": "a", "sub": "b"}
        if r.random() < .8:
            st["exp"] = e
        if r.random() < .5:
            st["iat"] = r.choice([0, e, e + 5])
        ctx.run(statement_expired, [st, max(0, e + r.choice([-100000, -2, -1, 0, 1, 2, 100000]))])
    for _ in range(600 if ctx.thorough else 60):
        if ctx.stop():
            return
        n = r.randint(2, 6)
        ctx.run(whole, [r.choice([60, 100, 100000, 2 * 10 ** 9, r.randint(50, 500)]) for _ in range(n)])
