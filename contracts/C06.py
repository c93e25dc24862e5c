"""C06 - applying a metadata policy."""
from .common import *
from fedservice.entity.function import policy_operator
from fedservice.entity.function import PolicyError

x, e = z3.Consts("x e", V)
VAL = OneOfS(StrS(), BoolS(), ListS(StrS()))
LST = ListS(StrS())
OPS = ["value", "add", "default", "one_of", "subset_of", "superset_of", "essential"]
CLAIM = DictS({"value": VAL, "add": VAL, "default": VAL, "one_of": LST, "subset_of": LST, "superset_of": LST, "essential": BoolS()})


def elem(v, y):
    """y is the value or one of the values"""
    return z3.If(islist(v), mem(v, y), v == y)


def valshape(t):
    return z3.Or(V.is_s(t), V.is_b(t), islist(t))


def claim_facts(p):
    """the shape of a claim's policy"""
    fs = [isdict(p)]
    for o in OPS:
        g = get(p, S(o))
        fs.append(z3.Implies(has(p, S(o)), V.is_b(g) if o == "essential" else valshape(g) if o in ("value", "add", "default") else islist(g)))
    # a well formed policy does not combine one_of with subset_of or superset_of
    fs.append(z3.Not(z3.And(has(p, S("one_of")), z3.Or(has(p, S("subset_of")), has(p, S("superset_of"))))))
    return z3.And(*fs)


def relation(p, o, v0, n, v1):
    """what applying policy p does to a claim: o/n = present before/after, v0/v1 = value before/after"""
    h = lambda k: has(p, S(k))
    g = lambda k: get(p, S(k))
    nv = z3.Not(h("value"))
    each = lambda a: FA([e], a)
    return [
        ("a fixed value is the value", z3.Implies(h("value"), z3.And(n, v1 == g("value")))),
        ("added values are present", z3.Implies(z3.And(nv, h("add")), z3.And(n, z3.Or(z3.And(h("subset_of"), islist(v1)), each(z3.Implies(elem(g("add"), e), elem(v1, e))))))),
        ("added values the policy allows are present", z3.Implies(z3.And(nv, h("add")), each(z3.Implies(
            z3.And(elem(g("add"), e), z3.Or(z3.Not(h("subset_of")), mem(g("subset_of"), e))), elem(v1, e))))),
        ("a default is used when nothing else gives a value", z3.Implies(z3.And(nv, z3.Not(o), z3.Not(h("add")), h("default")), z3.And(
            n, z3.If(h("subset_of"), each(z3.Implies(elem(v1, e), elem(g("default"), e))), v1 == g("default"))))),
        ("the value is one of the allowed", z3.Implies(z3.And(nv, n, h("one_of")), each(z3.Implies(elem(v1, e), mem(g("one_of"), e))))),
        ("the value is within the allowed", z3.Implies(z3.And(nv, n, h("subset_of")), each(z3.Implies(elem(v1, e), mem(g("subset_of"), e))))),
        ("required values are present", z3.Implies(z3.And(nv, n, h("superset_of")), each(z3.Implies(mem(g("superset_of"), e), elem(v1, e))))),
        ("an essential claim is present", z3.Implies(z3.And(h("essential"), V.bv(g("essential"))), n)),
        ("no value from nowhere", z3.Implies(z3.And(nv, n), each(z3.Implies(elem(v1, e), z3.Or(
            z3.And(o, elem(v0, e)), z3.And(h("add"), elem(g("add"), e)), z3.And(z3.Not(o), h("default"), elem(g("default"), e))))))),
        ("allowed values are kept", z3.Implies(z3.And(nv, o), z3.And(n, each(z3.Implies(
            z3.And(elem(v0, e), z3.Or(z3.Not(h("subset_of")), mem(g("subset_of"), e))), elem(v1, e)))))),
        ("untouched values stay as they are", z3.Implies(z3.And(nv, o, z3.Not(h("add")), z3.Not(z3.And(h("subset_of"), islist(v0)))), v1 == v0)),
        ("an absent claim stays absent", z3.Implies(z3.And(nv, z3.Not(o), z3.Not(h("add")), z3.Not(h("default"))), z3.Not(n))),
    ]


def inputs(ip):
    M = ip.fresh_v("metadata", DictS({}, VAL))
    P = ip.fresh_v("policy", DictS({}, CLAIM, keys=StrS()))
    ip.fact(FA([x], z3.Implies(has(P.t, x), z3.And(V.is_s(x), claim_facts(get(P.t, x)))), get(P.t, x)))
    ip.fact(FA([x], z3.Implies(has(M.t, x), valshape(get(M.t, x))), get(M.t, x)))
    ref = ip.alloc(DDict(M.t, (), DictS({}, VAL)))
    ip.M, ip.P = M.t, P.t
    return ref, P, {"m": M.t, "p": P.t}


def setup_apply(ip):
    ref, P, g = inputs(ip)
    ops = ip.inline(ip.fn_of(policy_operator.construct_evaluation_sequence), [], {})
    return [ref, P, ops], {}, g


def hook(ip, L):
    M, P = getattr(ip, "M", None), getattr(ip, "P", None)
    done = getattr(L.seq, "done", None)
    if M is None or done is None:
        return {}
    out = {}
    for c in L.cells.values():
        if c.tag == "dict":
            labels = [l for l, _ in relation(P, True, M, True, M)]
            for n, l in enumerate(labels):
                out[f"{c.name}:{l}"] = lambda k, c=c, n=n: FA([x], z3.Implies(z3.And(done(k, x), has(P, x)),
                    relation(get(P, x), has(M, x), get(M, x), c.mem(k, x), c.get(k, x))[n][1]), c.mem(k, x))
            out[f"{c.name}:same"] = lambda k, c=c: FA([x], z3.Implies(z3.Not(done(k, x)), z3.And(
                c.mem(k, x) == has(M, x), z3.Implies(has(M, x), c.get(k, x) == get(M, x)))), c.mem(k, x))
            out[f"{c.name}:shape"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), valshape(c.get(k, x))), c.get(k, x))
    return out


def post_apply(ip, g, comp):
    M, P = g["m"], g["p"]
    if comp[0] == "raise":
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError))]
    r = ip.to_v(comp[1])
    out = [("metadata", isdict(r)),
           ("claims the policy does not name come out as they went in", FA([x], z3.Implies(z3.Not(has(P, x)), z3.And(
               has(r, x) == has(M, x), z3.Implies(has(M, x), get(r, x) == get(M, x))))))]
    y = z3.Const(ip.fresh_name("claim"), V)
    for l, f in relation(get(P, y), has(M, y), get(M, y), has(r, y), get(r, y)):
        out.append((l, z3.Implies(has(P, y), f)))
    return out


def setup_one(ip):
    M = ip.fresh_v("metadata", DictS({}, VAL))
    ip.fact(FA([x], z3.Implies(has(M.t, x), valshape(get(M.t, x))), get(M.t, x)))
    ref = ip.alloc(DDict(M.t, (), DictS({}, VAL)))
    p = ip.fresh_v("claim_policy", CLAIM)
    ip.fact(claim_facts(p.t))
    P = ip.alloc(DDict(None, [("claim", p, True)]))
    ops = ip.inline(ip.fn_of(policy_operator.construct_evaluation_sequence), [], {})
    return [ref, P, ops], {}, {"m": M.t, "p": p.t}


def post_one(ip, g, comp):
    M, p, c = g["m"], g["p"], S("claim")
    h = lambda k: has(p, S(k))
    gg = lambda k: get(p, S(k))
    if comp[0] == "raise":
        v, o = get(M, c), has(M, c)
        sub = lambda a, b: FA([e], z3.Implies(a(e), b(e)))
        ok_present = z3.And(
            o, z3.Implies(h("value"), v == gg("value")), z3.Implies(h("add"), sub(lambda y: elem(gg("add"), y), lambda y: elem(v, y))),
            z3.Implies(h("one_of"), sub(lambda y: elem(v, y), lambda y: mem(gg("one_of"), y))),
            z3.Implies(h("subset_of"), z3.And(sub(lambda y: elem(v, y), lambda y: mem(gg("subset_of"), y)), EX([e], elem(v, e)))),
            z3.Implies(h("superset_of"), sub(lambda y: mem(gg("superset_of"), y), lambda y: elem(v, y))))
        ok_absent = z3.And(z3.Not(o), z3.Not(h("value")), z3.Not(h("add")), z3.Not(h("default")),
                           z3.Not(z3.And(h("essential"), V.bv(gg("essential")))))
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError)),
                ("metadata that satisfies the policy is not refused", z3.Not(z3.Or(ok_present, ok_absent)))]
    r = ip.to_v(comp[1])
    return [("metadata", isdict(r)), ("other claims come out as they went in", FA([x], z3.Implies(x != c, z3.And(
        has(r, x) == has(M, x), z3.Implies(has(M, x), get(r, x) == get(M, x))))))] + \
        relation(p, has(M, c), get(M, c), has(r, c), get(r, c))


# ---- TrustChainPolicy.apply_policy, by the contract of apply_metadata_policy
def applied(ip, args, kw):
    b = bind(ip, policy.apply_metadata_policy, args, kw)
    record(ip, "apply", b["metadata"], b["metadata_policy"], b["policy_operators"])
    if ip.branch(z3.Bool(ip.fresh_name("refused"))):
        raise PyRaise(ExcVal(PolicyError))
    t = ip.fresh("applied", V)
    ip.fact(isdict(t))
    record(ip, "applied", SV(t))
    return SV(t, DictS())


def setup_ap(ip):
    recorder(ip)
    m = ip.fresh_v("metadata", DictS())
    p = ip.fresh_v("policy", DictS({"metadata": DictS(), "metadata_policy": DictS()}))
    ops = ip.fresh_v("operators", ListS())
    me = obj(ip, policy.TrustChainPolicy, {"policy_operators": ops})
    return [me, m, p], {}, {"m": m.t, "p": p.t, "ops": ops.t}


def post_ap(ip, g, comp):
    M, p = g["m"], g["p"]
    if comp[0] == "raise":
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError))]
    r = ip.to_v(comp[1])
    calls, res = recorded(ip, "apply"), recorded(ip, "applied")
    fixed = lambda y: z3.And(has(p, S("metadata")), has(get(p, S("metadata")), y))
    md = calls[0][0] if calls else r
    out = [("at most once", len(calls) <= 1),
           ("what superiors state about a claim is its value", FA([x], z3.Implies(fixed(x), z3.And(has(md, x), get(md, x) == get(get(p, S("metadata")), x))))),
           ("what superiors do not state stays", FA([x], z3.Implies(z3.Not(fixed(x)), z3.And(has(md, x) == has(M, x), z3.Implies(has(M, x), get(md, x) == get(M, x))))))]
    pol = get(p, S("metadata_policy"))
    if calls:
        out.append(("the policy is applied", calls[0][1] == pol))
        out.append(("with the operators", calls[0][2] == g["ops"]))
        out.append(("the result of applying the policy", r == res[0][0]))
    else:
        out.append(("only an empty policy is not applied", z3.Or(z3.Not(has(p, S("metadata_policy"))), FA([x], z3.Not(has(pol, x))))))
    return out


from fedservice.entity.function import policy                          # noqa: E402

POL = "fedservice.entity.function.policy:"
CONTRACTS = [
    Contract("apply_metadata_policy (one claim)", POL + "apply_metadata_policy", setup_one, post_one, budget=400),
    Contract("apply_metadata_policy", POL + "apply_metadata_policy", setup_apply, post_apply, hooks=[hook], budget=400),
    Contract("TrustChainPolicy.apply_policy", POL + "TrustChainPolicy.apply_policy", setup_ap, post_ap,
             contracts={"fedservice.entity.function.policy.apply_metadata_policy": applied}),
]
