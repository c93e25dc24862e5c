"""Choice and storage of trust chains.  Monitor: random histories of saving, looking up, picking and exporting chains at a federation entity and
at a bare context, compared with a reference dictionary."""
import copy
import itertools

BUDGET = 40
BOUND = "up to 5 chains per entity, 4 anchors, 3 entities, 12 operations per history"
RULE = "the history of operations"
ASSUMPTIONS = ["the chains saved together are all about one entity"]

_FE = []


def chain(c, tag=0):
    from fedservice.entity_statement.statement import TrustChain
    leaf, anchor, n = c
    path = [leaf] + [f"https://i{k}.example.org" for k in range(n - 2)] + ([anchor] if n > 1 else [])
    stmts = [{"iss": path[max(k - 1, 0)], "sub": path[max(k - 1, 0)] if k == 0 else path[k - 1], "n": k, "tag": tag} for k in range(n, 0, -1)]
    return TrustChain(anchor=anchor, iss_path=path, verified_chain=stmts, metadata={"t": {"tag": tag}}, exp=10 ** 10)


class Bare:
    pass


def fe():
    from . import fed
    if not _FE:
        _FE.append(fed.entity("https://me.example.org"))
    return _FE[0]


def pick(case):
    f = fe()
    f.context.tr_priority = list(case["priority"])
    chains = [chain(c, k) for k, c in enumerate(case["chains"])]
    offered = list(chains)
    r = f.pick_trust_chain(chains)
    if chains != offered:
        return f"{case}: choosing changed the list"
    if not any(r is c for c in chains):
        return f"{case}: chose something that was not available"
    usable = [p for p in case["priority"] if any(c.anchor == p for c in chains)]
    if usable and r.anchor != usable[0]:
        return f"{case}: chose the chain to {r.anchor}, the highest-priority anchor available is {usable[0]}"
    if f.context.tr_priority != case["priority"]:
        return f"{case}: choosing changed the priority"
    for _ in range(2):
        if f.pick_trust_chain(chains) is not r:
            return f"{case}: another choice the next time"


def history(case):
    from fedservice import save_trust_chains, get_trust_chain
    f = fe()
    if case["bare"]:
        ctx = Bare()
        if case["bare"] == "none":
            ctx.trust_chain = None
    else:
        ctx = f.context
        ctx.trust_chain = {}
    f.context.tr_priority = list(case["priority"])
    ref, made = {}, []
    if case["bare"] != "attr":
        pass
    for n, op in enumerate(case["ops"]):
        where = f"{case}: step {n} {op}"
        if op[0] == "save":
            chains = [chain(c, (n, k)) for k, c in enumerate(op[1])]
            made += chains
            given = list(chains)
            save_trust_chains(ctx, chains)
            if chains != given:
                return f"{where}: the list of chains was changed"
            for a in {c.anchor for c in chains}:
                here = [c for c in chains if c.anchor == a]
                short = min(len(c.verified_chain) for c in here)
                ok = [c for c in here if len(c.verified_chain) == short]
                got = (ctx.trust_chain.get(chains[0].iss_path[0]) or {}).get(a)
                if not any(got is c for c in ok):
                    return f"{where}: kept for {a}: {got and got.iss_path}, not a shortest one"
                ref.setdefault(chains[0].iss_path[0], {})[a] = got
        elif getattr(ctx, "trust_chain", None) is None:
            continue
        elif op[0] == "get":
            got = get_trust_chain(ctx, op[1], op[2]) if op[2] != "absent" else get_trust_chain(ctx, op[1])
            want = ref.get(op[1])
            if want is not None and op[2] not in ("absent", ""):
                want = want.get(op[2])
            if isinstance(want, dict):
                if not isinstance(got, dict) or set(got) != set(want) or any(got[a] is not want[a] for a in want):
                    return f"{where}: {got}, stored {want}"
            elif want is None:
                if got:
                    return f"{where}: {got} though nothing is stored"
            elif got is not want:
                return f"{where}: {got}, stored {want}"
        elif op[0] == "pick" and not case["bare"] and op[1] in ref:
            got = f.pick_from_stored_trust_chains(op[1])
            want = ref[op[1]]
            usable = [p for p in case["priority"] if p in want]
            if usable and got is not want[usable[0]]:
                return f"{where}: chose the chain to {getattr(got, 'anchor', got)}, the highest-priority anchor is {usable[0]}"
            if not any(got is x for x in want.values()):
                return f"{where}: chose {got}, not a stored chain"
        elif op[0] == "export" and made:
            c = made[op[1] % len(made)]
            a = c.export_chain()
            want = [s["n"] for s in reversed(c.verified_chain)] if False else sorted(s["n"] for s in c.verified_chain)
            if [s["n"] for s in a] != want:
                return f"{where}: exported {[s['n'] for s in a]}, leaf first is {want}"
            b = c.export_chain()
            if a != b or b != c.export_chain():
                return f"{where}: exported twice with different results"
        have = {e: dict(v) for e, v in (getattr(ctx, "trust_chain", None) or {}).items()}
        if {e: set(v) for e, v in have.items()} != {e: set(v) for e, v in ref.items()} or any(have[e][a] is not ref[e][a] for e in ref for a in ref[e]):
            return f"{where}: stored is now {have}, expected {ref}"


AN = ["https://ta.example.org", "https://tb.example.org", "https://tc.example.org", "https://td.example.org"]
LE = ["https://rp.example.org", "https://op.example.org", "https://x.example.org"]


def run(ctx):
    r = ctx.rnd
    for n in range(1, 4):
        for an in itertools.product(AN[:3], repeat=n):
            for pr in ([], AN[:1], AN[1:2], AN[:2], [AN[1], AN[0]], [AN[3]], [AN[3], AN[2], AN[0], AN[1]], AN[::-1]):
                ctx.run(pick, {"chains": [[LE[0], a, 2 + (k * 7 + len(pr)) % 3] for k, a in enumerate(an)], "priority": pr})
    n = 0
    while not ctx.stop() and n < (20000 if ctx.thorough else 3000):
        n += 1
        ops = []
        for _ in range(r.randint(1, 12)):
            k = r.choice(["save", "save", "get", "get", "pick", "export", "export"])
            if k == "save":
                leaf = r.choice(LE)
                ops.append(["save", [[leaf, r.choice(AN[:3]), r.randint(1, 6)] for _ in range(r.choice([1, 1, 2, 3, 5]))]])
            elif k == "get":
                ops.append(["get", r.choice(LE), r.choice(AN + ["", "absent"])])
            elif k == "pick":
                ops.append(["pick", r.choice(LE)])
            else:
                ops.append(["export", r.randint(0, 20)])
        pr = r.sample(AN, r.randint(0, 4))
        ctx.run(history, {"ops": ops, "priority": pr, "bare": r.choice([False, False, "none", "attr"])})
        ctx.run(pick, {"chains": [[LE[0], r.choice(AN), r.randint(1, 5)] for _ in range(r.randint(1, 5))], "priority": pr})
