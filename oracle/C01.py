"""Path length.  Monitor: chains of 1..6 statements with every assignment of {no constraints, constraints without a maximum,
0..3} and random longer ones go to meets_restrictions; some signed chains go through the real verifier."""
import itertools

BUDGET = 60
BOUND = "all chains of up to 6 statements over {no constraints, empty constraints, max 0..3}; random chains up to 14 statements"
RULE = "the assignment of maxima to the statements"


def within(mx):
    n = len(mx)
    # statement j's issuer has n-2-j intermediates between itself and the leaf
    return all(not isinstance(m, int) or n - 2 - j <= m for j, m in enumerate(mx[:-1]))


def build(mx, style=0):
    ch = []
    for j, m in enumerate(mx):
        s = {"iss": f"https://e{j}.example.org", "sub": f"https://e{j + 1}.example.org"}
        if m == "e":
            s["constraints"] = {}
        elif m == "n":
            s["constraints"] = {"naming_constraints": {"permitted": ["https://.example.org"], "excluded": ["https://.other.org"]}}
        elif m is not None:
            s["constraints"] = {"max_path_length": m}
            if style:
                s["constraints"]["naming_constraints"] = {"permitted": ["https://.example.org"]}
        ch.append(s)
    ch[-1]["sub"] = ch[-1]["iss"]
    return ch


def path_length(case):
    from fedservice.entity_statement.constraints import meets_restrictions
    from fedservice.message import EntityStatement
    ch = build(case["max"], case.get("style", 0))
    if case.get("message"):
        ch = [EntityStatement(**s) for s in ch]
    try:
        got = bool(meets_restrictions(ch))
    except Exception as e:
        got = f"{type(e).__name__}: {e}"
    want = within(case["max"])
    if got != want and (want or got is True):
        return f"maxima {case['max']}: meets_restrictions says {got}, the statement says {want}"


def end_to_end(case):
    from . import fed
    mx = case["max"]
    n = len(mx)                     # statements: 0..n-2 subordinate statements, n-1 the entity configuration
    names = [f"e{j}" for j in range(n)]
    msgs = []
    for j in range(n - 1):
        kw = {} if not isinstance(mx[j], int) else {"constraints": {"max_path_length": mx[j]}}
        msgs.append(fed.es(names[j], names[j + 1], **kw))
    msgs.append(fed.ec(names[-1], hints=[names[-2]] if n > 1 else None))
    fe = fed.entity("https://me.example.org", trust_anchors={fed.eid("e0"): fed.jwks("e0")})
    try:
        r = fe.function.verifier(msgs)
    except Exception as e:
        r = None
    want = within(mx)
    if bool(r) != want:
        return f"signed chain with maxima {mx}: verifier {'accepts' if r else 'refuses'}, the statement says {want}"


def run(ctx):
    dom = [None, "e", 0, 1, 2, 3]
    for n in range(1, 7):
        for mx in itertools.product(dom, repeat=n - 1):
            if ctx.stop():
                return
            ctx.run(path_length, {"max": list(mx) + [None], "style": (n + len(set(mx))) % 2})
    for k in range(40 if ctx.thorough else 12):
        n = ctx.rnd.randint(2, 6)
        ctx.run(end_to_end, {"max": [ctx.rnd.choice([None, None, 0, 1, 2, 3]) for _ in range(n - 1)] + [None]})
    for k in range(40000 if ctx.thorough else 4000):
        if ctx.stop():
            return
        n = ctx.rnd.randint(2, 14)
        mx = [ctx.rnd.choice([None, None, "e", "n", ctx.rnd.randint(0, n)]) for _ in range(n)]
        # mostly near the limit
        for j in range(n):
            if isinstance(mx[j], int) and ctx.rnd.random() < .8:
                mx[j] = max(0, n - 2 - j + ctx.rnd.choice([0, 0, 0, 0, 1, 2, -1]))
        ctx.run(path_length, {"max": mx, "style": k % 2, "message": k % 7 == 0})
