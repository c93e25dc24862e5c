"""Collecting chains.  Monitor: all small trees and random larger ones through tree2chains; random federations (trees, DAGs, cycles,
self-hints) served from memory are collected, the chains and the requests made are compared with the topology."""
import itertools
import json
import signal
from urllib.parse import parse_qs, urlparse

BUDGET = 90
BOUND = "trees of up to 4 levels and 4 branches; federations of up to 8 entities"
RULE = "trees and topologies"
ASSUMPTIONS = ["every authority that is hinted at answers"]


def build(spec):
    """[[name, statement, subtree or None]...] -> the collector's tree"""
    return {i: (None if st is None else (st, build(sub))) for i, st, sub in spec}


def paths(spec):
    out = []
    for i, st, sub in spec:
        if st is None:
            out.append([])
        elif not sub:
            out.append([st])
        else:
            out += [p + [st] for p in paths(sub)]
    return out


def tree(case):
    from fedservice.entity.function import tree2chains
    t = build(case)
    keep = repr(t)
    got = tree2chains(t)
    want = paths(case)
    if sorted(map(list, got)) != sorted(want):
        return f"tree {t}: chains {got}, the paths are {want}"
    if repr(t) != keep:
        return f"tree {keep} was changed"
    if len({id(c) for c in got}) != len(got):
        return f"tree {t}: two chains are the same list object"


def simple_paths(hints, e, stop, seen=()):
    """paths of authorities from e to a top (an entity without hints, or the stop), never visiting an entity twice"""
    if not hints.get(e) or e == stop:
        return [[]]
    out = []
    for a in hints[e]:
        if a in seen or a == e:
            continue
        out += [[a] + p for p in simple_paths(hints, a, stop, seen + (e,))]
    return out


def cyclic(hints):
    def go(n, st):
        if n in st:
            return True
        return any(go(a, st + (n,)) for a in hints.get(n) or [])
    return any(go(n, ()) for n in hints)


class TooLong(Exception):
    pass


def collect(case):
    from . import fed
    from fedservice.entity.function import collect_trust_chains
    hints, leaf, stop, tas, mode = case["hints"], case["leaf"], case["stop"], case["tas"], case["mode"]
    F = fed.Federation(hints)
    fe = fed.entity("https://me.example.org", F.net, trust_anchors={fed.eid(t): fed.jwks(t) for t in tas})
    for a in case["given"]:
        F.net.pages.setdefault(fed.fetch_url(a, leaf), fed.es(a, leaf))
    start = {"hints": hints, "leaf": leaf, "stop": stop}

    def alarm(*a):
        raise TooLong()
    for round_ in range(case["rounds"]):
        F.net.log.clear()
        kw = {"stop_at": fed.eid(stop) if stop else ""}
        h = dict(hints)
        if mode == "given":
            kw["signed_entity_configuration"] = F.net.pages[fed.well_known(leaf)]
        if mode == "hints":
            kw["signed_entity_configuration"] = F.net.pages[fed.well_known(leaf)]
            kw["authority_hints"] = [fed.eid(x) for x in case["given"]]
            h[leaf] = case["given"]
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(20)
        try:
            chains, lec = collect_trust_chains(fe, fed.eid(leaf), **kw)
        except TooLong:
            return f"{start}: the collection does not end"
        except Exception as e:
            if "does not end" in str(e):
                return f"{start}: the collection does not end"
            return f"{start}: {type(e).__name__}: {e}"
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        got = []
        for c in chains:
            links = []
            for s in reversed(c):
                p = fed.payload_of(s)
                links.append((p["sub"], p["iss"]))
            for (s1, i1), (s2, i2) in zip(links, links[1:]):
                if s2 != i1:
                    return f"{start}: a chain lists {links}, which does not link up from the leaf"
            if links and links[0][0] != fed.eid(leaf):
                return f"{start}: a chain does not start with a statement about the leaf: {links}"
            got.append([i for _, i in links])
        h2 = {k: v for k, v in h.items()}
        want = [[fed.eid(a) for a in p] for p in simple_paths(h2, leaf, stop) if p]
        cyc = cyclic(h2)
        for p in want:
            if got.count(p) != 1:
                return f"{start} {mode} round {round_}: path {p} appears {got.count(p)} times among the chains {got}"
        for p in got:
            if got.count(p) != 1:
                return f"{start}: chain {p} appears twice"
            if p not in want and not cyc:
                return f"{start} {mode} round {round_}: chain {p} is not a path to a top, the paths are {want}"
        if want and lec is None:
            return f"{start}: no entity configuration for the leaf came back"
        if lec and fed.payload_of(lec)["sub"] != fed.eid(leaf):
            return f"{start}: the entity configuration that came back is about {fed.payload_of(lec)['sub']}"
        # who was asked about what
        edges = set()

        def reach(e, seen):
            if e == stop:
                return
            for a in (h2.get(e) or []) + (hints.get(e) or []):
                if (a, e) not in edges:
                    edges.add((a, e))
                    reach(a, seen)
        reach(leaf, ())
        for _, url, _ in F.net.log:
            u = urlparse(url)
            q = {k: v[0] for k, v in parse_qs(u.query).items()}
            if u.path == "/fetch":
                a, s = f"{u.scheme}://{u.netloc}", q.get("sub")
                if (a, s) not in {(fed.eid(x), fed.eid(y)) for x, y in edges}:
                    return f"{start}: {a} was asked about {s}, which it is not hinted at by (or beyond the stop)"
                if q.get("iss", a) != a:
                    return f"{start}: {a} was asked for a statement by {q['iss']}"


def rnd_tree(r, d, ctr):
    out = []
    for _ in range(r.randint(1, 4 if d > 1 else 2)):
        ctr[0] += 1
        n = f"a{ctr[0]}"
        x = r.random()
        out.append([n, None, None] if x < .08 else [n, f"s{ctr[0]}", rnd_tree(r, d - 1, ctr) if d > 1 and x > .35 else []])
    return out


def all_trees(d):
    """every tree with up to 2 branches per level and d levels"""
    if d == 0:
        return [[]]
    subs = all_trees(d - 1)
    out = [[]]
    for n in (1, 2):
        for combo in itertools.product(subs, repeat=n):
            out.append([[f"a{k}{d}", f"s{k}{d}", s] for k, s in enumerate(combo)])
    return out


def relabel(spec, ctr):
    out = []
    for n, s, sub in spec:
        ctr[0] += 1
        k = ctr[0]
        out.append([f"a{k}", f"s{k}", relabel(sub, ctr)])
    return out


def rnd_topology(r):
    n = r.randint(2, 8)
    names = [f"n{i}" for i in range(n)]
    hints = {names[0]: []}
    for i in range(1, n):
        up = r.sample(names[:i], min(i, r.choice([1, 1, 2, 3])))
        hints[names[i]] = up if r.random() < .9 else []
    if r.random() < .35:          # cycles
        for _ in range(r.randint(1, 2)):
            a, b = r.choice(names), r.choice(names)
            if b not in hints[a]:
                hints[a] = hints[a] + [b]
                if r.random() < .5:
                    r.shuffle(hints[a])
    return names, hints


def run(ctx):
    r = ctx.rnd
    for t in all_trees(3):
        if t:
            ctx.run(tree, relabel(t, [0]))
    for _ in range(3000):
        ctx.run(tree, rnd_tree(r, r.randint(1, 4), [0]))
    n = 0
    while not ctx.stop() and n < (4000 if ctx.thorough else 250):
        n += 1
        names, hints = rnd_topology(r)
        leaf = names[-1]
        if not hints[leaf]:
            hints[leaf] = [names[0]]
        stop = r.choice([None, None, r.choice(names[:-1])])
        mode = r.choice(["", "", "given", "hints"])
        ctx.run(collect, {"hints": hints, "leaf": leaf, "stop": stop, "tas": r.sample(names[:-1], r.randint(0, 1)), "mode": mode,
                          "given": r.sample(names[:-1], r.randint(1, min(2, len(names) - 1))), "rounds": r.choice([1, 2])})
