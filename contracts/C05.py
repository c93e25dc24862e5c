"""C05 - combining policies and metadata of a superior and a subordinate."""
from .common import *
from . import C06
from .C06 import CLAIM, OPS, VAL, claim_facts, elem, valshape
from fedservice.entity.function import PolicyError
from fedservice.entity.function import policy

x, e = z3.Consts("x e", V)
POL = "fedservice.entity.function.policy:"


def meets(p, v):
    """what p demands of a value v"""
    h = lambda k: has(p, S(k))
    g = lambda k: get(p, S(k))
    return z3.And(
        z3.Implies(h("value"), v == g("value")),
        z3.Implies(h("one_of"), FA([e], z3.Implies(elem(v, e), mem(g("one_of"), e)))),
        z3.Implies(h("subset_of"), FA([e], z3.Implies(elem(v, e), mem(g("subset_of"), e)))),
        z3.Implies(h("superset_of"), FA([e], z3.Implies(mem(g("superset_of"), e), elem(v, e)))),
        z3.Implies(h("add"), FA([e], z3.Implies(elem(g("add"), e), elem(v, e)))))


def wellformed(p):
    return z3.And(claim_facts(p), z3.Implies(has(p, S("value")), meets(p, get(p, S("value")))))


def combined(sup, ch, r):
    """r is a combination of sup and ch (labelled goals)"""
    hs, hc, hr = (lambda k, p=p: has(p, S(k)) for p in (sup, ch, r))
    gs, gc, gr = (lambda k, p=p: get(p, S(k)) for p in (sup, ch, r))
    out = []
    v = gr("value")
    fixed = z3.And(hr("value"), meets_but_superset(sup, v), meets_but_superset(ch, v))
    for who, h, g in (("superior", hs, gs), ("subordinate", hc, gc)):
        out.append((f"the {who}'s fixed value is kept", z3.Implies(h("value"), z3.And(hr("value"), gr("value") == g("value")))))
        out.append((f"the {who}'s default is kept", z3.Implies(z3.And(h("default"), z3.Not(hr("value"))), z3.And(hr("default"), gr("default") == g("default")))))
    out.append(("a fixed value meets what both demand", z3.Implies(hr("value"), fixed)))
    ops = {"subset_of": z3.And, "one_of": z3.And, "superset_of": None, "add": z3.Or}
    for k, f in ops.items():
        a, b, c = elem(gs(k), e), elem(gc(k), e), elem(gr(k), e)
        if f is None:
            # known finding superset-intersection: only what both require is required
            both = z3.Or(FA([e], c == z3.And(a, b)), FA([e], c == z3.Or(a, b)))
        else:
            both = FA([e], c == f(a, b))
        nf = z3.Not(fixed)
        name = {"subset_of": "allowed values are intersected", "one_of": "the values to choose from are intersected",
                "superset_of": "required values are kept", "add": "added values are united"}[k]
        out.append((name, z3.Implies(z3.And(nf, hs(k), hc(k)), z3.And(hr(k), both))))
        out.append((name + " (only the superior has them)", z3.Implies(z3.And(nf, hs(k), z3.Not(hc(k))), z3.And(hr(k), FA([e], c == a)))))
        out.append((name + " (only the subordinate has them)", z3.Implies(z3.And(nf, hc(k), z3.Not(hs(k))), z3.And(hr(k), FA([e], c == b)))))
    ess = lambda h, g: z3.And(h("essential"), V.bv(g("essential")))
    out.append(("an essential claim stays essential", z3.Implies(z3.And(z3.Or(ess(hs, gs), ess(hc, gc)), z3.Not(hr("value"))), ess(hr, gr))))
    out.append(("no operator from nowhere", z3.And(*[z3.Implies(hr(k), z3.Or(hs(k), hc(k))) for k in OPS])))
    return out


def meets_but_superset(p, v):
    """superset_of of the two may have been weakened to what both require (known finding)"""
    h = lambda k: has(p, S(k))
    g = lambda k: get(p, S(k))
    return z3.And(
        z3.Implies(h("value"), v == g("value")),
        z3.Implies(h("one_of"), FA([e], z3.Implies(elem(v, e), mem(g("one_of"), e)))),
        z3.Implies(h("subset_of"), FA([e], z3.Implies(elem(v, e), mem(g("subset_of"), e)))),
        z3.Implies(h("add"), FA([e], z3.Implies(elem(g("add"), e), elem(v, e)))))


def setup_claim(sv, cv):
    """the four cases of which of the two has a fixed value are explored separately (in parallel)"""
    def setup(ip):
        sup, ch = ip.fresh_v("superior", CLAIM), ip.fresh_v("subordinate", CLAIM)
        for p, v in ((sup, sv), (ch, cv)):
            ip.fact(wellformed(p.t))
            ip.fact(has(p.t, S("value")) if v else z3.Not(has(p.t, S("value"))))
        return [sup, ch], {}, {"s": sup.t, "c": ch.t}
    return setup


def none_of(p):
    return z3.And(*[z3.Not(has(p, S(k))) for k in OPS])


def post_claim(ip, g, comp):
    sup, ch = g["s"], g["c"]
    if comp[0] == "raise":
        return []
    r = ip.to_v(comp[1])
    return [("a policy", isdict(r))] + combined(sup, ch, r)


# ---- combine_metadata
def setup_md(ip):
    a, b = ip.fresh_v("superior_metadata", DictS()), ip.fresh_v("subordinate_metadata", DictS())
    return [a, b], {}, {"a": a.t, "b": b.t}


def conflict(a, b):
    return EX([x], z3.And(has(a, x), has(b, x), get(a, x) != get(b, x)))


def post_md(ip, g, comp):
    a, b = g["a"], g["b"]
    if comp[0] == "raise":
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError)),
                ("refused only when they state different values", conflict(a, b))]
    r = ip.to_v(comp[1])
    return [("metadata", isdict(r)), ("not combined when they state different values", z3.Not(conflict(a, b))),
            ("everything the superior states", FA([x], z3.Implies(has(a, x), z3.And(has(r, x), get(r, x) == get(a, x))))),
            ("everything the subordinate states", FA([x], z3.Implies(has(b, x), z3.And(has(r, x), get(r, x) == get(b, x))))),
            ("nothing else", FA([x], z3.Implies(has(r, x), z3.Or(has(a, x), has(b, x)))))]


def hook_md(ip, L):
    done, over = getattr(L.seq, "done", None), getattr(L.seq, "over", None)
    ab = getattr(ip, "AB", None)
    if done is None or ab is None:
        return {}
    a, b = ab
    return {"done agree": lambda k: FA([x], z3.Implies(z3.And(done(k, x), has(a, x), has(b, x)), get(a, x) == get(b, x)), done(k, x))}


def setup_md2(ip):
    r = setup_md(ip)
    ip.AB = (r[2]["a"], r[2]["b"])
    return r


# ---- verify_unchanged, by the contract of apply_metadata_policy
APPLIED = z3.Function("applied", V, V, V, V)     # claim, value, policy -> value


def apply_contract(ip, args, kw):
    """the applied metadata has a value for a claim that had one (C06: allowed values are kept)"""
    b = bind(ip, policy.apply_metadata_policy, args, kw)
    ms, ps = ip.heap.get(getattr(b["metadata"], "id", None)), ip.heap.get(getattr(b["metadata_policy"], "id", None))
    if not (isinstance(ms, DDict) and isinstance(ps, DDict) and ms.base is None and ps.base is None and len(ms.writes) == 1 and len(ps.writes) == 1):
        raise Unsupported("apply_metadata_policy on more than one claim")
    (k1, v, p1), (k2, p, p2) = ms.writes[0], ps.writes[0]
    if p1 is not True or p2 is not True or not ip.to_v(k1).eq(ip.to_v(k2)):
        raise Unsupported("apply_metadata_policy on different claims")
    if ip.branch(z3.Bool(ip.fresh_name("refused"))):
        raise PyRaise(ExcVal(PolicyError))
    t = APPLIED(ip.to_v(k1), ip.to_v(v), ip.to_v(p))
    ip.fact(valshape(t))
    return ip.alloc(DDict(None, [(k1, SV(t, C06.VAL), True)]))


def same(u, v):
    return z3.If(z3.And(islist(u), islist(v)), FA([e], mem(u, e) == mem(v, e)), u == v)


def setup_unchanged(ip):
    a, b = ip.fresh_v("superior_metadata", DictS({}, C06.VAL)), ip.fresh_v("subordinate_policy", DictS())
    ip.fact(FA([x], z3.Implies(has(a.t, x), valshape(get(a.t, x))), get(a.t, x)))
    ip.UN = (a.t, b.t)
    return [a, b], {}, {"a": a.t, "b": b.t}


def kept(a, b, y):
    return z3.Implies(z3.And(has(a, y), has(b, y)), same(APPLIED(y, get(a, y), get(b, y)), get(a, y)))


def hook_un(ip, L):
    done, ab = getattr(L.seq, "done", None), getattr(ip, "UN", None)
    if done is None or ab is None:
        return {}
    return {"done unchanged": lambda k: FA([x], z3.Implies(done(k, x), kept(*ab, x)), done(k, x))}


def post_unchanged(ip, g, comp):
    if comp[0] == "raise":
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError))]
    return [("a claim the superior has set is not changed by the subordinate's policy", FA([x], kept(g["a"], g["b"], x)))]


# ---- combine, by the contracts of the three above
CM, CC = z3.Function("combined_metadata", V, V, V), z3.Function("combined_claim", V, V, V)


def by_contract(name, f, fn):
    def h(ip, args, kw):
        b = list(bind(ip, fn, args, kw).values())
        if f is not CC:
            record(ip, name, b[0], b[1])
        if ip.branch(z3.Bool(ip.fresh_name("refused"))):
            raise PyRaise(ExcVal(PolicyError))
        if f is None:
            return None
        t = f(ip.to_v(b[0]), ip.to_v(b[1]))
        ip.fact(isdict(t))
        return SV(t, DictS())
    return h


def setup_combine(ip):
    mp, md = ("metadata_policy", "metadata")
    shape = DictS({mp: DictS(), md: DictS()})
    a, b = ip.fresh_v("superior", shape), ip.fresh_v("subordinate", shape)
    recorder(ip)
    ip.CO = (a.t, b.t)
    ref = ip.alloc(DDict(a.t, (), shape))
    return [ref, b], {}, {"a": a.t, "b": b.t}


def nothing(t):
    return FA([x], z3.Not(has(t, x)))


def part(t, k):
    """what t states under k: (x -> stated, x -> value)"""
    d = get(t, S(k))
    return (lambda y: z3.And(has(t, S(k)), has(d, y))), (lambda y: get(d, y))


def hook_co(ip, L):
    done, ab = getattr(L.seq, "done", None), getattr(ip, "CO", None)
    if done is None or ab is None:
        return {}
    (ha, ga), (hb, gb) = (part(t, "metadata_policy") for t in ab)
    out = {}
    for c in L.cells.values():
        if c.tag == "dict":
            for n, f in (("both", lambda y: CC(ga(y), gb(y))), ("above", ga), ("below", gb)):
                out[f"{c.name}:{n}"] = lambda k, c=c, f=f: FA([x], z3.Implies(done(k, x), z3.And(c.mem(k, x), c.get(k, x) == f(x))), done(k, x))
            out[f"{c.name}:only"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), z3.Or(done(k, x), c.mem(z3.IntVal(0), x))), c.mem(k, x))
    return out


def post_combine(ip, g, comp):
    a, b = g["a"], g["b"]
    if comp[0] == "raise":
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError))]
    r = ip.to_v(comp[1])
    out = [("a combination", isdict(r))]
    (ha, ga), (hb, gb), (hr, gr) = (part(t, "metadata_policy") for t in (a, b, r))
    out += [("a claim both have a policy for: the combined policy", FA([x], z3.Implies(z3.And(ha(x), hb(x)), z3.And(hr(x), gr(x) == CC(ga(x), gb(x)))))),
            ("a claim only the superior has a policy for", FA([x], z3.Implies(z3.And(ha(x), z3.Not(hb(x))), z3.And(hr(x), gr(x) == ga(x))))),
            ("a claim only the subordinate has a policy for", FA([x], z3.Implies(z3.And(hb(x), z3.Not(ha(x))), z3.And(hr(x), gr(x) == gb(x))))),
            ("no other policies", FA([x], z3.Implies(hr(x), z3.Or(ha(x), hb(x)))))]
    MD = S("metadata")
    calls = recorded(ip, "combine_metadata")
    checks = recorded(ip, "verify_unchanged")
    is_ = lambda t, o, k: FA([x], z3.And(has(t, x) == z3.And(has(o, S(k)), has(get(o, S(k)), x)),
                                         z3.Implies(z3.And(has(o, S(k)), has(get(o, S(k)), x)), get(t, x) == get(get(o, S(k)), x))))
    out.append(("combined metadata of both", z3.And(*[z3.And(is_(p, a, "metadata"), is_(q, b, "metadata")) for p, q in calls])))
    out.append(("their metadata is combined", bool(calls)))
    out.append(("what the superior has set is checked against the subordinate's policy", z3.Or(*[
        z3.And(is_(p, a, "metadata"), is_(q, b, "metadata_policy")) for p, q in checks]) if checks else False))
    for p, q in calls[-1:]:
        out.append(("the combined metadata is the metadata", z3.If(nothing(CM(p, q)), z3.Or(z3.Not(has(r, MD)), get(r, MD) == get(a, MD)),
                                                                    z3.And(has(r, MD), get(r, MD) == CM(p, q)))))
    return out


COMBINE = {POL.replace(":", ".") + n: by_contract(n, f, getattr(policy, n)) for n, f in
           (("verify_unchanged", None), ("combine_metadata", CM), ("combine_claim_policy", CC))}


CONTRACTS = [
    Contract(f"combine_claim_policy ({'a' if sv else 'no'} fixed value above, {'a' if cv else 'no'} fixed value below)",
             POL + "combine_claim_policy", setup_claim(sv, cv), post_claim, budget=300)
    for sv in (False, True) for cv in (False, True)
] + [
    Contract("combine_metadata", POL + "combine_metadata", setup_md2, post_md, hooks=[hook_md]),
    Contract("verify_unchanged", POL + "verify_unchanged", setup_unchanged, post_unchanged, hooks=[hook_un],
             contracts={POL.replace(":", ".") + "apply_metadata_policy": apply_contract}),
    Contract("combine", POL + "combine", setup_combine, post_combine, budget=400, hooks=[hook_co], contracts=COMBINE),
]
