"""Naming constraints.  Monitor: chains with permitted/excluded subtrees over a small tree of names, checked against an
independent statement of which subtrees are in force and which names fall under them."""
import copy
import itertools

BUDGET = 70
BOUND = "exhaustive: pairs of names and subtrees over 3 labels and depth 4; chains of 2 and 3 statements over 8 subtrees; random chains up to 6"
RULE = "the subtrees and the subjects"
ASSUMPTIONS = ["monitored names are http(s) URLs without empty labels inside the host part (an empty leading label is what makes a subtree)"]


def labels(u):
    for p in ("https://", "http://"):
        if u.startswith(p):
            return u[len(p):].split(".")[::-1]
    raise ValueError(u)


def under(name, subtree):
    a, b = labels(name), labels(subtree)
    if len(a) < len(b):
        return False
    for i, x in enumerate(b):
        if x == "" and i == len(b) - 1:
            return True
        if a[i] != x:
            return False
    return True


def in_force(chain):
    """-> [(permitted, excluded)] after each statement"""
    cur = {"permitted": [], "excluded": []}
    out = []
    for c in chain:
        nc = c or {}
        for k in cur:
            new = nc.get(k) or []
            if not new:
                continue
            if not cur[k]:
                cur[k] = list(new)
            else:
                nxt = []
                for old in cur[k]:
                    inside = [n for n in new if under(n, old)]
                    nxt += inside or [old]
                cur[k] = nxt
        out.append({k: list(v) for k, v in cur.items()})
    return out


def accepted(subjects, ncs):
    force = in_force(ncs[:-1])
    for j, s in enumerate(subjects):
        f = force[min(j, len(force) - 1)] if force else {"permitted": [], "excluded": []}
        if any(under(s, x) for x in f["excluded"]):
            return False
        if f["permitted"] and not any(under(s, x) for x in f["permitted"]):
            return False
    return True


def naming(case):
    from fedservice.entity_statement.constraints import meets_restrictions
    from fedservice.message import EntityStatement
    ch = []
    n = len(case["subjects"])
    for j, (s, nc) in enumerate(zip(case["subjects"], case["naming"])):
        st = {"iss": f"https://iss{j}.example.org", "sub": s}
        if nc is not None:
            st["constraints"] = {"naming_constraints": nc}
        elif case.get("other") and j % 2 == 0:
            st["constraints"] = {"max_path_length": 9}
        ch.append(EntityStatement(**copy.deepcopy(st)) if case.get("message") else copy.deepcopy(st))
    want = accepted(case["subjects"], case["naming"])
    for again in (0, 1):
        try:
            got = bool(meets_restrictions(ch))
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        if got != want and (want or got is True):
            return f"{'asked again: ' if again else ''}subjects {case['subjects']} under {case['naming']}: meets_restrictions says {got}, the statement says {want}"


def end_to_end(case):
    from . import fed
    subs, ncs = case["subjects"], case["naming"]
    n = len(subs)
    ids = ["https://top.anchor.net"] + subs[:-1]
    t = fed.now()
    msgs = []
    for j in range(n - 1):
        p = {"iss": ids[j], "sub": subs[j], "iat": t, "exp": t + 9999, "jwks": fed.jwks(subs[j])}
        if ncs[j] is not None:
            p["constraints"] = {"naming_constraints": ncs[j]}
        msgs.append(fed.sign(p, ids[j]))
    msgs.append(fed.sign({"iss": subs[-2], "sub": subs[-2], "iat": t, "exp": t + 9999, "jwks": fed.jwks(subs[-2])}, subs[-2]))
    fe = fed.entity("https://me.example.org", trust_anchors={ids[0]: fed.jwks(ids[0])})
    try:
        got = bool(fe.function.verifier(msgs))
    except Exception:
        got = False
    want = accepted(subs[:-1] + [subs[-2]], ncs)
    if got != want:
        return f"signed chain of {subs[:-1]} under {ncs}: verifier says {got}, the statement says {want}"


HOSTS = ["org", "a.org", "b.org", "x.a.org", "y.a.org", "z.x.a.org", "aa.org", "x.b.org"]
TREES = [".org", ".a.org", "a.org", ".x.a.org", "x.a.org", ".b.org", "z.x.a.org", ".y.a.org"]


def run(ctx):
    U = lambda h: "https://" + h
    # one subtree against one name
    lab = ["a", "b", "aa"]
    names = [".".join(p) for n in (1, 2, 3, 4) for p in itertools.product(lab, repeat=n)]
    names = [n + ".org" for n in names[:40]] + ["org"]
    trees = names[:25] + ["." + n for n in names[:25]] + [".org"]
    for t in trees:
        for nm in names:
            for k in ("permitted", "excluded"):
                if ctx.stop():
                    return
                ctx.run(naming, {"subjects": [U(nm), U(nm)], "naming": [{k: [U(t)]}, None]})
    # a second statement that replaces
    for t1, t2 in itertools.product(TREES, TREES):
        for nm in HOSTS:
            for k in ("permitted", "excluded"):
                if ctx.stop():
                    return
                ctx.run(naming, {"subjects": [U("z.x.a.org") if k == "permitted" else U("q.net"), U("z.x.a.org") if k == "permitted" else U("q.net"), U(nm)],
                                 "naming": [{k: [U(t1)]}, {k: [U(t2)]}, None]})
    r = ctx.rnd
    for k in range(60000 if ctx.thorough else 9000):
        if ctx.stop():
            return
        n = r.randint(2, 6)
        subj = [U(r.choice(HOSTS[2:])) for _ in range(n)]

        def nc():
            q = r.random()
            if q < .3:
                return None
            d = {}
            if r.random() < .7:
                d["permitted"] = [U(r.choice(TREES)) for _ in range(r.randint(0, 3))]
            if r.random() < .5:
                d["excluded"] = [U(r.choice(TREES)) for _ in range(r.randint(0, 2))]
            return d
        ncs = [nc() for _ in range(n)]
        if k % 2:       # mostly accepted ones
            for c in ncs:
                if c and "excluded" in c:
                    c["excluded"] = [U(r.choice([".b.org", ".y.a.org"])) for _ in c["excluded"]]
                if c and c.get("permitted"):
                    c["permitted"][0] = U(r.choice([".org", ".a.org"]))
            subj = [U(r.choice(["x.a.org", "z.x.a.org", "y.a.org"])) for _ in range(n)]
        ctx.run(naming, {"subjects": subj, "naming": ncs, "message": k % 9 == 0, "other": k % 3 == 0})
        if k % 700 == 1:
            ctx.run(end_to_end, {"subjects": subj, "naming": ncs})
