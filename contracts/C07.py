"""C07 - which policies are applied to what, by the contracts of combining (C05) and applying (C06)."""
from .common import *
from fedservice.entity.function import PolicyError
from fedservice.entity.function import policy
from fedservice.entity_statement.statement import TrustChain

x = z3.Const("x", V)
i = z3.Int("i")
POL = "fedservice.entity.function.policy:"
MP, MD = "metadata_policy", "metadata"
STATEMENT = DictS({MP: DictS({}, DictS()), MD: DictS({}, DictS())})
EMPTY = z3.Const("empty_dict", V)
# what combining gives, as a function of the two parts of the superior's and the subordinate's
COMB = {MP: z3.Function("combined_policy", V, V, V, V, V), MD: z3.Function("combined_metadata", V, V, V, V, V)}
# what the statements 0..i of the chain combine to
FOLD = {MP: z3.Function("policy_down_to", I, V), MD: z3.Function("metadata_down_to", I, V)}
CHAIN, TYPE = z3.Const("chain", V), z3.Const("type", V)


def item(k, which):
    """what statement k states for the type"""
    es = at(CHAIN, k)
    d = get(es, S(which))
    return z3.If(z3.And(has(es, S(which)), has(d, TYPE)), get(d, TYPE), EMPTY)


def states(k):
    return z3.Or(length(item(k, MP)) > 0, length(item(k, MD)) > 0)


def axioms():
    d = z3.Const("d", V)
    out = [FA([d], z3.Implies(z3.And(kind(d) == K_DICT, length(d) == 0), d == EMPTY), length(d)),
           V.is_ref(EMPTY), kind(EMPTY) == K_DICT, length(EMPTY) == 0]
    for w in (MP, MD):
        out.append(FOLD[w](0) == item(z3.IntVal(0), w))
        out.append(FA([i], z3.Implies(i >= 1, FOLD[w](i) == z3.If(states(i), COMB[w](
            FOLD[MP](i - 1), FOLD[MD](i - 1), item(i, MP), item(i, MD)), FOLD[w](i - 1))), FOLD[w](i)))
    return out


def combine_contract(ip, args, kw):
    b = bind(ip, policy.combine, args, kw)
    ts = []
    for who in ("superior", "subordinate"):
        for w in (MP, MD):
            v = pb.getitem(ip, b[who], w)
            t = ip.to_v(v)
            ip.fact(length(t) >= 0)
            ts.append(t)
    if ip.branch(z3.Bool(ip.fresh_name("refused"))):
        raise PyRaise(ExcVal(PolicyError))
    for w in (MP, MD):
        t = COMB[w](*ts)
        ip.fact(isdict(t))
        pb.setitem(ip, b["superior"], w, SV(t, DictS()))
    return b["superior"]


def setup_gather(ip):
    chain = ip.sv(CHAIN, ListS(STATEMENT))
    et = ip.sv(TYPE, StrS())
    ip.input_names |= {"chain", "type"}
    ip.fact(z3.And(islist(CHAIN), V.is_s(TYPE), length(CHAIN) >= 1))
    me = obj(ip, policy.TrustChainPolicy, {})
    return [me, chain, et], {}, {}


def overlap(k):
    return EX([x], z3.And(has(item(k, MP), x), has(item(k, MD), x)))


def hook(ip, L):
    out = {}
    for name, sh in (("", lambda k: k), (" (from the first)", lambda k: z3.If(k >= 1, k - 1, 0))):
        for c in L.cells.values():
            if c.tag == "fdict":
                for w in (MP, MD):
                    if w in c.keys:
                        out[f"{c.name}[{w}]{name}"] = lambda k, f=c.v[w], w=w, sh=sh: f(k) == FOLD[w](sh(k))
            if c.tag == "dict":
                for w in (MP, MD):
                    out[f"{c.name}[{w}]{name}"] = lambda k, c=c, w=w, sh=sh: z3.And(c.mem(k, S(w)), c.get(k, S(w)) == FOLD[w](sh(k)))
        out["no overlap" + name] = lambda k, sh=sh: FA([i], z3.Implies(z3.And(1 <= i, i < sh(k) + 1), z3.Not(overlap(i))), at(CHAIN, i))
    return out


def post_gather(ip, g, comp):
    if comp[0] == "raise":
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError))]
    r = ip.to_v(comp[1])
    n = length(CHAIN)
    return [("a policy with both parts", z3.And(isdict(r), has(r, S(MP)), has(r, S(MD)))),
            ("the policies of every superior combined from the top down", get(r, S(MP)) == FOLD[MP](n - 1)),
            ("the metadata of every superior combined from the top down", get(r, S(MD)) == FOLD[MD](n - 1)),
            ("no claim both in metadata and policy of one subordinate statement", FA([i], z3.Implies(z3.And(1 <= i, i < n), z3.Not(overlap(i))), at(CHAIN, i)))]


# ---- TrustChainPolicy._policy
def setup_policy(ip):
    recorder(ip)
    chain, et = ip.fresh_v("verified_chain", ListS(STATEMENT)), ip.fresh_v("entity_type", StrS())
    ip.fact(length(chain.t) >= 2)
    cp = ip.fresh_v("combined_policy", DictS())
    tc = obj(ip, TrustChain, {"verified_chain": chain, "combined_policy": ip.alloc(DDict(cp.t, (), DictS()))}, "trust_chain")
    me = obj(ip, policy.TrustChainPolicy, {})
    return [me, tc, et], {}, {"c": chain.t, "et": et.t, "tc": tc, "cp": cp.t}


def gather_contract(ip, args, kw):
    b = bind(ip, policy.TrustChainPolicy.gather_policies, args, kw)
    record(ip, "gather", b["chain"], b["entity_type"])
    if ip.branch(z3.Bool(ip.fresh_name("refused"))):
        raise PyRaise(ExcVal(PolicyError))
    t = ip.fresh("gathered", V)
    ip.fact(z3.And(isdict(t), has(t, S(MP)), has(t, S(MD))))
    record(ip, "gathered", SV(t))
    return SV(t, DictS({MP: DictS(), MD: DictS()}, None, [MP, MD]))


def apply_contract(ip, args, kw):
    b = bind(ip, policy.TrustChainPolicy.apply_policy, args, kw)
    record(ip, "apply", b["metadata"], b["policy"])
    if ip.branch(z3.Bool(ip.fresh_name("refused"))):
        raise PyRaise(ExcVal(PolicyError))
    t = ip.fresh("applied", V)
    ip.fact(isdict(t))
    record(ip, "applied", SV(t))
    return SV(t, DictS())


def post_policy(ip, g, comp):
    c, et = g["c"], g["et"]
    if comp[0] == "raise":
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError))]
    r = ip.to_v(comp[1])
    n = length(c)
    leaf = at(c, n - 1)
    md = get(leaf, S(MD))
    declared = z3.And(has(leaf, S(MD)), has(md, et))
    ga, gr, ap, ar = (recorded(ip, k) for k in ("gather", "gathered", "apply", "applied"))
    out = [("a type the leaf does not declare yields no metadata", z3.Implies(z3.Not(declared), V.is_none(r)))]
    if ap:
        out += [("policies are gathered from the chain", len(ga) == 1 and len(ap) == 1)]
        sup = ga[0][0]
        out += [("of every statement above the leaf", z3.And(length(sup) == n - 1, FA([i], z3.Implies(rng(i, n - 1), at(sup, i) == at(c, i)), at(sup, i)))),
                ("for the entity type", ga[0][1] == et),
                ("the leaf's own metadata for the type", ap[0][0] == get(md, et)),
                ("held to the gathered policies", ap[0][1] == gr[0][0]),
                ("the metadata after applying the policies", r == ar[0][0])]
        cp = ip.to_v(ip.heap[g["tc"].id].fields["combined_policy"])
        out += [("the combined policy is kept for the type", z3.And(has(cp, et), get(cp, et) == gr[0][0])),
                ("the combined policies of other types are left alone", FA([x], z3.Implies(x != et, z3.And(
                    has(cp, x) == has(g["cp"], x), z3.Implies(has(cp, x), get(cp, x) == get(g["cp"], x))))))]
    else:
        out.append(("only a type the leaf does not declare yields no metadata", z3.Not(declared)))
    return out


# ---- TrustChainPolicy.__call__
POLICY = z3.Function("policy_bound", V, V)


def policy_contract(ip, args, kw):
    b = bind(ip, policy.TrustChainPolicy._policy, args, kw)
    if not (isinstance(b["trust_chain"], Ref) and b["trust_chain"] == ip.TC):
        raise Unsupported("_policy of another chain")
    if ip.branch(z3.Bool(ip.fresh_name("refused"))):
        raise PyRaise(ExcVal(PolicyError))
    return SV(POLICY(ip.to_v(b["entity_type"])), OptS(DictS()))


def setup_call(all_types):
    def f(ip):
        chain = ip.fresh_v("verified_chain", ListS(STATEMENT))
        n = length(chain.t)
        ip.fact(z3.And(n >= 2, has(at(chain.t, n - 1), S(MD))))
        md = ip.fresh_v("metadata", DictS())
        ip.TC = obj(ip, TrustChain, {"verified_chain": chain, "metadata": ip.alloc(DDict(md.t, (), DictS()))}, "trust_chain")
        me = obj(ip, policy.TrustChainPolicy, {})
        et = ip.fresh_v("entity_type", StrS())
        g = {"leaf": at(chain.t, n - 1), "md": md.t, "et": et.t}
        if all_types:
            return [me, ip.TC], {}, g
        ip.fact(et.t != S(""))
        return [me, ip.TC, et], {}, g
    return f


def post_call(all_types):
    def f(ip, g, comp):
        if comp[0] == "raise":
            return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError))]
        md0, md = g["md"], ip.to_v(ip.heap[ip.TC.id].fields["metadata"])
        own = get(g["leaf"], S(MD))
        asked = (lambda y: has(own, y)) if all_types else (lambda y: y == g["et"])
        return [("policy-bound metadata for every type asked for", FA([x], z3.Implies(asked(x), z3.And(has(md, x), get(md, x) == POLICY(x))))),
                ("nothing else changes", FA([x], z3.Implies(z3.Not(asked(x)), z3.And(has(md, x) == has(md0, x), z3.Implies(has(md, x), get(md, x) == get(md0, x))))))]
    return f


def hook_call(ip, L):
    done = getattr(L.seq, "done", None)
    out = {}
    for c in L.cells.values():
        if c.tag == "dict" and done is not None:
            out[f"{c.name}:bound"] = lambda k, c=c: FA([x], z3.Implies(done(k, x), z3.And(c.mem(k, x), c.get(k, x) == POLICY(x))), done(k, x))
            out[f"{c.name}:rest"] = lambda k, c=c: FA([x], z3.Implies(z3.Not(done(k, x)), z3.And(
                c.mem(k, x) == c.mem(z3.IntVal(0), x), z3.Implies(c.mem(k, x), c.get(k, x) == c.get(z3.IntVal(0), x)))), c.mem(k, x))
    return out


# ---- apply_policies: nothing is handed on without its policies
class GhostPolicy:
    def __call__(self, trust_chain, entity_type=""): pass


def applier_contract(ip, args, kw):
    b = bind(ip, policy.TrustChainPolicy.__call__, args, kw)
    c = ip.to_v(b["trust_chain"])
    require(ip, z3.BoolVal(b["entity_type"] == ""))
    if ip.branch(z3.Bool(ip.fresh_name("refused"))):
        raise PyRaise(ExcVal(PolicyError))
    old = ip.heap[ip.DONE.id].memf
    ip.heap[ip.DONE.id] = SSet(lambda q: z3.Or(old(q), q == c), None)
    return b["trust_chain"]


def setup_applied(ip):
    c = ip.fresh_v("trust_chains", ListS(ObjS(TrustChain, {})))
    ip.TCS = c.t
    ip.DONE = ip.alloc(SSet(lambda q: z3.BoolVal(False), None))
    pol = obj(ip, GhostPolicy, {}, "policy")
    ip.FED = obj(ip, None, {"function": obj(ip, None, {"policy": pol}, "function")}, "federation_entity")
    return [obj(ip, None, {}, "unit"), c], {}, {"c": c.t}


def post_applied(ip, g, comp):
    if comp[0] == "raise":
        return [("refused only with a policy error", issubclass(comp[1].cls, PolicyError))]
    r, c = ip.to_v(comp[1]), g["c"]
    done = ip.heap[ip.DONE.id].memf
    return [("policies applied to every one handed on", FA([i], z3.Implies(rng(i, length(r)), done(at(r, i))), at(r, i))),
            ("all of the trust chains", z3.And(length(r) == length(c), FA([i], z3.Implies(rng(i, length(c)), at(r, i) == at(c, i)), at(c, i))))]


def hook_applied(ip, L):
    c = getattr(ip, "TCS", None)
    if c is None:
        return {}
    out = {}
    for q in L.cells.values():
        if q.tag == "set":
            out[q.name + ":done"] = lambda k, q=q: FA([i], z3.Implies(rng(i, k), q.mem(k, at(c, i))), at(c, i))
        if q.tag == "list":
            out[q.name + ":same"] = lambda k, q=q: z3.And(q.len(k) == k, FA([i], z3.Implies(rng(i, k), q.at(k, i) == at(c, i)), q.at(k, i)))
    return out


FE = {n + ".get_federation_entity": lambda ip, a, k: ip.FED for n in ("fedservice.entity.function", "fedservice.entity.utils")}
TP = "fedservice.entity.function.policy.TrustChainPolicy."
CONTRACTS = [
    Contract("TrustChainPolicy.gather_policies", POL + "TrustChainPolicy.gather_policies", setup_gather, post_gather, hooks=[hook], axioms=axioms,
             contracts={"fedservice.entity.function.policy.combine": combine_contract}),
    Contract("TrustChainPolicy._policy", POL + "TrustChainPolicy._policy", setup_policy, post_policy,
             contracts={TP + "gather_policies": gather_contract, TP + "apply_policy": apply_contract}),
    Contract("TrustChainPolicy.__call__ (every type)", POL + "TrustChainPolicy.__call__", setup_call(True), post_call(True), hooks=[hook_call],
             contracts={TP + "_policy": policy_contract}),
    Contract("TrustChainPolicy.__call__ (one type)", POL + "TrustChainPolicy.__call__", setup_call(False), post_call(False), hooks=[hook_call],
             contracts={TP + "_policy": policy_contract}),
    Contract("apply_policies", "fedservice.entity.function:apply_policies", setup_applied, post_applied, hooks=[hook_applied],
             contracts={"contracts.C07.GhostPolicy.__call__": applier_contract, **FE}),
]
