"""C21 - what a resolve response states, by the contracts of collecting (C09), verifying (C03) and policies (C07)."""
from .common import *
from cryptojwt.exception import MissingKey
from fedservice.entity import function as fn
from fedservice.entity.function import PolicyError
from fedservice.entity.function import trust_chain_collector as tcc
from fedservice.entity.server import resolve
from fedservice.entity_statement import create
from fedservice.entity_statement.statement import TrustChain

x, y = z3.Consts("x y", V)
j, i = z3.Ints("jj ii")
MOD, FUN, COL = "fedservice.entity.server.resolve", "fedservice.entity.function", "fedservice.entity.function.trust_chain_collector"
ANCHOR, PATH, META = (lambda tc, n=n: attr(tc, z3.IntVal(intern("." + n))) for n in ("anchor", "iss_path", "metadata"))
TC = ObjS(TrustChain, {"anchor": StrS(), "iss_path": ListS(StrS()), "metadata": DictS({}, DictS())})
VERIFIED = z3.Function("verified_chain_of", V, V, B)   # a trust chain that was verified, of an entity
BOUND = z3.Function("policies_applied", V, B)          # its metadata is what the policies gave
CHAINS, LEAF = z3.Function("collected_chains", V, V), z3.Function("leaf_configuration", V, V)
STATEMENTS = z3.Function("statements_of", V, V, B, V)  # get_chain
SUB, TYPE, ANCH = S("sub"), S("type"), S("anchor")


class GhostEntity:
    def get_attribute(self, name): pass


class GhostCollector:
    def get_chain(self, iss_path, trust_anchor, with_ta_ec=False): pass


def collect_contract(ip, args, kw):
    b = bind(ip, fn.collect_trust_chains, args, kw)
    require(ip, z3.BoolVal(b["authority_hints"] is None and b["signed_entity_configuration"] == ""))
    # collecting may stop at the anchor asked for, and nowhere else
    require(ip, z3.Or(ip.to_v(b["stop_at"]) == S(""), ip.to_v(b["stop_at"]) == get(ip.Q, ANCH)))
    if ip.branch(z3.Bool(ip.fresh_name("collection_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    e = ip.to_v(b["entity_id"])
    ip.fact(islist(CHAINS(e)))
    return (SV(CHAINS(e), ListS(ListS(StrS()))), SV(LEAF(e), OptS(StrS())))


def chains(ip, t):
    tc = at(t, j)
    ip.fact(z3.And(islist(t), length(t) >= 0, FA([j], z3.Implies(rng(j, length(t)), z3.And(V.is_ref(tc), kind(tc) == K_OBJ, V.is_s(ANCHOR(tc)), isdict(META(tc)), islist(PATH(tc)))), at(t, j))))
    return SV(t, ListS(TC))


def verify_contract(ip, args, kw):
    """C03, C08: what is verified ends with the configuration of the entity it was collected for"""
    if kw or len(args) != 3:
        raise Unsupported("verify_trust_chains")
    e = ip.fresh("collected_for", V)
    a, b = ip.to_v(args[1]), ip.to_v(args[2])
    sub = get(ip.Q, SUB)
    require(ip, z3.And(a == CHAINS(sub), b == LEAF(sub)))
    if ip.branch(z3.Bool(ip.fresh_name("verification_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    t = ip.fresh("verified", V)
    r = chains(ip, t)
    ip.fact(FA([j], z3.Implies(rng(j, length(t)), VERIFIED(at(t, j), sub)), at(t, j)))
    return r


def policies_contract(ip, args, kw):
    b = bind(ip, fn.apply_policies, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("policies_refuse"))):
        raise PyRaise(ExcVal(PolicyError))
    a, t = ip.to_v(b["trust_chains"]), ip.fresh("with_policies", V)
    r = chains(ip, t)
    ip.fact(z3.And(length(t) == length(a), FA([j], z3.Implies(rng(j, length(a)), z3.And(at(t, j) == at(a, j), BOUND(at(t, j)))), at(t, j))))
    return r


def chain_contract(ip, args, kw):
    b = bind(ip, GhostCollector.get_chain, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("not_in_cache"))):
        raise PyRaise(ExcVal(KeyError))
    return SV(STATEMENTS(ip.to_v(b["iss_path"]), ip.to_v(b["trust_anchor"]), ip.zb(ip.truth(b["with_ta_ec"]))), ListS(StrS()))


def create_contract(ip, args, kw):
    b = bind(ip, create.create_entity_statement, args, kw)
    for k, v in b.items():
        if k not in ("iss", "sub", "key_jar", "metadata", "extra", "self", "lifetime", "include_jwks") and v not in (None, ""):
            raise Unsupported("further claims in the response")
    if set(b["extra"]) != {"trust_chain"}:
        record(ip, "bad")
        raise Unsupported("further claims in the response") if b["extra"] else PyRaise(ExcVal(CallPrecondition))
    record(ip, "response", b["iss"], b["sub"], b["metadata"], b["extra"]["trust_chain"], SB(z3.BoolVal(b["key_jar"] is ip.KJ)))
    return SV(ip.fresh("response", V), StrS())


def get_attribute(ip, args, kw):
    if list(args[1:]) == ["keyjar"]:
        return ip.KJ
    raise Unsupported("attribute of the federation entity")


def setup_resolve(ip):
    recorder(ip)
    q = ip.fresh_v("request", DictS({"sub": StrS(), "anchor": StrS(), "type": StrS()}, None, ["sub", "anchor"]))
    ip.fact(z3.And(V.is_s(get(q.t, SUB)), V.is_s(get(q.t, ANCH)), z3.Implies(has(q.t, TYPE), V.is_s(get(q.t, TYPE)))))
    e = ip.fresh_v("entity_id", StrS())
    ip.Q, ip.KJ = q.t, obj(ip, None, {}, "keyjar")
    fun = obj(ip, None, {"trust_chain_collector": obj(ip, GhostCollector, {}, "collector")}, "function")
    ip.FED = obj(ip, GhostEntity, {"entity_id": e, "function": fun}, "federation_entity")
    more = {}
    w = SB(z3.Bool("with_ta_ec"))
    ip.input_names |= {"with_ta_ec"}
    return [obj(ip, resolve.Resolve, {}, "endpoint"), message(ip, q)], {"with_ta_ec": w}, {"q": q.t, "e": e.t, "w": w.t}


def post_resolve(ip, g, comp):
    rs = recorded(ip, "response")
    if comp[0] == "raise":
        return [("an error, no response", not rs and not issubclass(comp[1].cls, CallPrecondition))]
    if len(rs) != 1:
        return [("one response", False)]
    iss, sub, md, tc, kj = rs[0]
    q = g["q"]
    c = z3.Const("c", V)
    want = EX([c], z3.And(VERIFIED(c, get(q, SUB)), BOUND(c), ANCHOR(c) == get(q, ANCH), tc == STATEMENTS(PATH(c), get(q, ANCH), g["w"]),
                          z3.If(has(q, TYPE), z3.And(FA([x], has(md, x) == (x == get(q, TYPE))), has(META(c), get(q, TYPE)), get(md, get(q, TYPE)) == get(META(c), get(q, TYPE))),
                                FA([x], z3.And(has(md, x) == has(META(c), x), z3.Implies(has(md, x), get(md, x) == get(META(c), x)))))), ANCHOR(c))
    return [("issued by the resolving entity", z3.And(iss == g["e"], kj == S(True))), ("about the subject asked about", sub == get(q, SUB)),
            ("the policy-bound metadata and the statements of a verified trust chain of the subject to the anchor asked for", want)]


def hook_resolve(ip, L):
    q = getattr(ip, "Q", None)
    out = {}
    if q is None or getattr(L.seq, "at", None) is None:
        return out
    for name, f in value_cells(L):
        out[name + ":found"] = lambda k, f=f: z3.Or(V.is_none(f(k)), z3.And(V.is_ref(f(k)), ANCHOR(f(k)) == get(q, ANCH), VERIFIED(f(k), get(q, SUB)), BOUND(f(k))))
    return out


# ---- get_chain: the statements from the leaf upwards
KEY = z3.Function("cache_key", V, V, V)
CONF, STMT = z3.Const("configurations", V), z3.Const("statements", V)
JWS = S("_jws")


def setup_chain(ip):
    p, ta = ip.fresh_v("iss_path", ListS(StrS())), ip.fresh_v("trust_anchor", StrS())
    ip.fact(length(p.t) >= 1)
    w = SB(z3.Bool("with_ta_ec"))
    ip.input_names |= {"with_ta_ec", "configurations", "statements"}
    conf, stmt = ip.sv(CONF, DictS({}, DictS({"_jws": StrS()}, None, ["_jws"]))), ip.sv(STMT, DictS({}, StrS()))
    ip.fact(z3.And(isdict(CONF), isdict(STMT), FA([x], z3.Implies(has(CONF, x), z3.And(isdict(get(CONF, x)), has(get(CONF, x), JWS))), has(CONF, x))))
    ip.PATH = p.t
    me = obj(ip, tcc.TrustChainCollector, {"config_cache": message(ip, conf), "entity_statement_cache": message(ip, stmt)}, "collector")
    return [me, p, ta, w], {}, {"p": p.t, "ta": ta.t, "w": w.t}


def stmt(p, k):
    return get(STMT, KEY(at(p, k + 1), at(p, k)))


def post_chain(ip, g, comp):
    p = g["p"]
    n = length(p)
    if comp[0] == "raise":
        return [("raises only when a statement is not known any more", z3.And(z3.BoolVal(issubclass(comp[1].cls, KeyError)), z3.Or(
            z3.Not(has(CONF, at(p, 0))), z3.And(g["w"], z3.Not(has(CONF, g["ta"]))), EX([j], z3.And(rng(j, n - 1), z3.Not(has(STMT, KEY(at(p, j + 1), at(p, j))))), at(p, j)))))]
    r = ip.to_v(comp[1])
    return [("the leaf's configuration first", at(r, 0) == get(get(CONF, at(p, 0)), JWS)),
            ("then every superior's statement about the one below, upwards", FA([j], z3.Implies(rng(j, n - 1), at(r, j + 1) == stmt(p, j)), at(p, j))),
            ("last the trust anchor's configuration if asked for", z3.If(g["w"], z3.And(length(r) == n + 1, at(r, n) == get(get(CONF, g["ta"]), JWS)), length(r) == n))]


def hook_chain(ip, L):
    p = getattr(ip, "PATH", None)
    if p is None:
        return {}
    out = {}
    for c in L.cells.values():
        if c.tag == "list":
            out[c.name + ":statements"] = lambda k, c=c: z3.And(c.len(k) == k + 1, FA([j], z3.Implies(rng(j, k), c.at(k, j + 1) == stmt(p, j)), at(p, j)))
            out[c.name + ":first"] = lambda k, c=c: c.at(k, 0) == c.at(0, 0)
    out["known"] = lambda k: FA([j], z3.Implies(rng(j, k), has(STMT, KEY(at(p, j + 1), at(p, j)))), at(p, j))
    return out


def key_contract(ip, args, kw):
    b = bind(ip, tcc.cache_key, args, kw)
    vs = list(b.values())
    return SV(KEY(ip.to_v(vs[0]), ip.to_v(vs[1])), StrS())


FE = {m + ".get_federation_entity": lambda ip, a, k: ip.FED for m in (MOD, "fedservice.entity.utils")}
RC = {**MSG, **FE, FUN + ".collect_trust_chains": collect_contract, FUN + ".verify_trust_chains": verify_contract, FUN + ".apply_policies": policies_contract,
      "contracts.C21.GhostCollector.get_chain": chain_contract, "contracts.C21.GhostEntity.get_attribute": get_attribute,
      "fedservice.entity_statement.create.create_entity_statement": create_contract}

CONTRACTS = [
    Contract("Resolve.process_request", MOD + ":Resolve.process_request", setup_resolve, post_resolve, hooks=[hook_resolve], contracts=RC),
    Contract("TrustChainCollector.get_chain", COL + ":TrustChainCollector.get_chain", setup_chain, post_chain, hooks=[hook_chain], contracts={**MSG, COL + ".cache_key": key_contract}),
]
