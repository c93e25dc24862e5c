"""C09 - the caches of the trust chain collector."""
import time

from .common import *
from fedservice.entity.function import trust_chain_collector as tcc
from fedservice.entity_statement.cache import ESCache
from fedservice.exception import FailedConfigurationRetrieval

x = z3.Const("x", V)
a, b, c, d = z3.Consts("a b c d", V)
CACHE = "fedservice.entity_statement.cache:ESCache."
TCC = "fedservice.entity.function.trust_chain_collector"
NOW = z3.Int("now")
STMT = DictS({"exp": IntS()}, None, ["exp"])
VAL = OneOfS(STMT, StrS(), IntS())


def now(ip, args, kw):
    return SI(NOW)


CLOCK = {"cryptojwt.jwt.utc_time_sans_frac": now, "cryptojwt.jwt.utc_now": now, "time.time": now}


def cache(ip, name="db", val=VAL):
    db = ip.fresh_v(name, DictS({}, val))
    delta = ip.fresh_v(name + "_delta", IntS(0))
    # what is stored: statements with an expiry time, signed statements, expiry times
    ip.fact(FA([x], z3.Implies(has(db.t, x), z3.Or(V.is_s(get(db.t, x)), V.is_i(get(db.t, x)), z3.And(
        isdict(get(db.t, x)), has(get(db.t, x), S("exp")), V.is_i(get(get(db.t, x), S("exp")))))), get(db.t, x)))
    me = obj(ip, ESCache, {"_db": ip.alloc(DDict(db.t, (), DictS({}, val))), "allowed_delta": delta}, name)
    return me, db.t, V.iv(delta.t)


def db_of(ip, me):
    return ip.to_v(ip.heap[me.id].fields["_db"])


def unchanged(d0, d1, but=lambda y: z3.BoolVal(False)):
    return FA([x], z3.Implies(z3.Not(but(x)), z3.And(has(d1, x) == has(d0, x), z3.Implies(has(d0, x), get(d1, x) == get(d0, x)))))


def usable(db, delta, k):
    """what is stored under k may be used"""
    v = get(db, k)
    return z3.And(has(db, k), z3.Implies(isdict(v), NOW < V.iv(get(v, S("exp"))) - delta))


def setup_get(default):
    def f(ip):
        me, db, delta = cache(ip)
        k = ip.fresh_v("key", StrS())
        return [me, k], ({"default": ip.sv(z3.Const("default", V), StrS())} if default else {}), {"me": me, "db": db, "delta": delta, "k": k.t}
    return f


def post_get(default):
    def f(ip, g, comp):
        if comp[0] == "raise":
            return [("no exception", False)]
        r, db, k, d1 = ip.to_v(comp[1]), g["db"], g["k"], db_of(ip, g["me"])
        miss = z3.Const("default", V) if default else V.none
        ok = usable(db, g["delta"], k)
        return [("what is stored and may be used is returned as it was stored", z3.Implies(ok, r == get(db, k))),
                ("what is absent or past its use is not returned", z3.Implies(z3.Not(ok), r == miss)),
                ("nothing else changes", unchanged(db, d1, lambda y: y == k)),
                ("what may be used stays", z3.Implies(ok, z3.And(has(d1, k), get(d1, k) == get(db, k)))),
                ("nothing is added", z3.Implies(has(d1, k), has(db, k)))]
    return f


def post_contains(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    d1 = db_of(ip, g["me"])
    return [("in the cache exactly when it may be used", truthy(ip, comp[1]) == usable(g["db"], g["delta"], g["k"])),
            ("nothing else changes", unchanged(g["db"], d1, lambda y: y == g["k"]))]


def setup_set(ip):
    args, kw, g = setup_get(False)(ip)
    v = ip.fresh_v("value", StrS())
    g["v"] = v.t
    return args + [v], {}, g


def post_set(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    d1 = db_of(ip, g["me"])
    return [("stored", z3.And(has(d1, g["k"]), get(d1, g["k"]) == g["v"])), ("nothing else changes", unchanged(g["db"], d1, lambda y: y == g["k"]))]


def post_del(ip, g, comp):
    d1 = db_of(ip, g["me"])
    if comp[0] == "raise":
        return [("only what is absent can not be deleted", z3.Not(has(g["db"], g["k"])))]
    return [("deleted", z3.Not(has(d1, g["k"]))), ("nothing else changes", unchanged(g["db"], d1, lambda y: y == g["k"]))]


# ---- TrustChainCollector._get_entity_statement
CK, TK = z3.Function("cache_key", V, V, V), z3.Function("time_key", V, V, V)
ENDPOINT, FETCHED = z3.Function("fetch_endpoint", V, V), z3.Function("fetched_statement", V, V, V, V)
EXP = z3.Function("exp_of", V, I)


def key_axioms():
    """keys of different (authority, entity) pairs differ, and the two kinds of keys differ (assumed of cache_key and time_key)"""
    out = []
    for f in (CK, TK):
        out.append(FA([a, b, c, d], z3.Implies(f(a, b) == f(c, d), z3.And(a == c, b == d)), z3.MultiPattern(f(a, b), f(c, d))))
        out.append(FA([a, b], V.is_s(f(a, b)), f(a, b)))
    out.append(FA([a, b, c, d], CK(a, b) != TK(c, d), z3.MultiPattern(CK(a, b), TK(c, d))))
    return out


def key_contract(f, fn):
    def h(ip, args, kw):
        ip.assumptions.add("cache_key and time_key are injective and their values differ (escape() is string surgery; monitored only)")
        p = bind(ip, fn, args, kw)
        return SV(f(ip.to_v(p["authority"]), ip.to_v(p["entity"])), StrS())
    return h


def endpoint_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.get_federation_fetch_endpoint, args, kw)
    t = ENDPOINT(ip.to_v(p["intermediate"]))
    ip.fact(z3.Or(V.is_none(t), V.is_s(t)))
    record(ip, "endpoint", p["intermediate"])
    return SV(t, OptS(StrS()))


def fetch_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.get_entity_statement, args, kw)
    record(ip, "fetch", p["fetch_endpoint"], p["issuer"], p["subject"])
    t = FETCHED(*[ip.to_v(p[n]) for n in ("fetch_endpoint", "issuer", "subject")])
    ip.fact(z3.And(V.is_s(t), t != S("")))
    return SV(t, StrS())


def payload_contract(ip, args, kw):
    t = ip.fresh("payload", V)
    ip.fact(z3.And(isdict(t), has(t, S("exp")), get(t, S("exp")) == V.i(EXP(ip.to_v(args[0])))))
    return SV(t, STMT)


def setup_ges(ip):
    recorder(ip)
    ch, db, delta = cache(ip, "entity_statement_cache", OneOfS(StrS(), IntS()))
    allowed = ip.fresh_v("allowed_delta", IntS(0))
    e, au = ip.fresh_v("entity", StrS()), ip.fresh_v("authority", StrS())
    # entity statements are stored together with their expiry time
    ip.fact(z3.Implies(has(db, CK(au.t, e.t)), z3.And(V.is_s(get(db, CK(au.t, e.t))), has(db, TK(au.t, e.t)), V.is_i(get(db, TK(au.t, e.t))))))
    me = obj(ip, tcc.TrustChainCollector, {"entity_statement_cache": ch, "allowed_delta": allowed})
    return [me, e, au], {}, {"db": db, "e": e.t, "a": au.t, "delta": V.iv(allowed.t), "ch": ch}


def post_ges(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    r, db, d1 = ip.to_v(comp[1]), g["db"], db_of(ip, g["ch"])
    ck, tk = CK(g["a"], g["e"]), TK(g["a"], g["e"])
    fresh = z3.And(has(db, ck), NOW <= V.iv(get(db, tk)) - g["delta"])
    f = recorded(ip, "fetch")
    mine = lambda y: z3.Or(y == ck, y == tk)
    out = [("what is stored for other pairs is left alone", unchanged(db, d1, mine)),
           ("a stored statement is reused while more than the margin remains", z3.Implies(fresh, z3.And(r == get(db, ck), unchanged(db, d1)))),
           ("a statement is stored together with its expiry time", z3.Implies(has(d1, ck), z3.And(has(d1, tk), V.is_i(get(d1, tk)))))]
    if f:
        want = FETCHED(ENDPOINT(g["a"]), g["a"], g["e"])
        out += [("fetched only when there is none to reuse", z3.Not(fresh)), ("fetched once", len(f) == 1),
                ("asks the authority about the entity at its fetch endpoint", z3.And(f[0][0] == ENDPOINT(g["a"]), f[0][1] == g["a"], f[0][2] == g["e"])),
                ("the fetched statement is returned", r == want),
                ("and stored with its own expiry time", z3.And(has(d1, ck), get(d1, ck) == want, has(d1, tk), get(d1, tk) == V.i(EXP(want))))]
    else:
        out.append(("nothing fetched: reused, or the authority has no fetch endpoint", z3.Or(fresh, z3.And(V.is_none(r), z3.Or(
            V.is_none(ENDPOINT(g["a"])), ENDPOINT(g["a"]) == S(""))))))
    return out


GES = {TCC + ".cache_key": key_contract(CK, tcc.cache_key), TCC + ".time_key": key_contract(TK, tcc.time_key),
       TCC + ".TrustChainCollector.get_federation_fetch_endpoint": endpoint_contract, TCC + ".TrustChainCollector.get_entity_statement": fetch_contract,
       TCC + ".unverified_entity_statement": payload_contract, **CLOCK}


# ---- too_old
def setup_old(ip):
    delta = ip.fresh_v("allowed_delta", IntS(0))
    st = ip.fresh_v("statement", STMT)
    return [obj(ip, tcc.TrustChainCollector, {"allowed_delta": delta}), st], {}, {"s": st.t, "d": V.iv(delta.t)}


def post_old(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    return [("too old exactly when no more than the margin remains", truthy(ip, comp[1]) == (NOW >= V.iv(get(g["s"], S("exp"))) - g["d"]))]


# ---- which configuration a collection starts from, and where an authority is asked
CONF = DictS({"_jws": StrS(), "exp": IntS(), "iss": StrS(), "metadata": DictS({"federation_entity": DictS({"federation_fetch_endpoint": StrS()})}, None, ["federation_entity"])},
             None, ["_jws", "exp", "metadata"])
SIGNED_EC, VERIFIED, TREE = z3.Function("signed_configuration", V, V), z3.Function("verified_configuration", V, V), z3.Function("tree_of", V, V, V, V)
FE, FETCH = S("federation_entity"), S("federation_fetch_endpoint")


def get_ec_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.get_entity_configuration, args, kw)
    record(ip, "get_ec", p["entity_id"])
    if ip.branch(z3.Bool(ip.fresh_name("unreachable"))):
        raise PyRaise(ExcVal(FailedConfigurationRetrieval))
    t = SIGNED_EC(ip.to_v(p["entity_id"]))
    ip.fact(z3.Or(V.is_none(t), V.is_s(t)))
    return SV(t, OptS(StrS()))


def verify_contract(ip, args, kw):
    if ip.branch(z3.Bool(ip.fresh_name("bad_signature"))):
        raise PyRaise(ExcVal(ValueError))
    s = ip.to_v(args[0])
    t = VERIFIED(s)
    ip.fact(conf_shape(t))
    record(ip, "verified", args[0])
    return ip.alloc(DDict(t, (), CONF))


def conf_shape(t):
    md = get(t, S("metadata"))
    return z3.And(isdict(t), has(t, S("exp")), V.is_i(get(t, S("exp"))), has(t, S("metadata")), isdict(md), has(md, FE), isdict(get(md, FE)),
                  z3.Implies(has(get(md, FE), FETCH), V.is_s(get(get(md, FE), FETCH))))


def call_tree_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.collect_tree, args, kw)
    require(ip, z3.And(ip.to_v(p["entity_id"]) == ip.E, ip.to_v(p["stop_at"]) == ip.STOP, V.is_none(ip.to_v(p["seen"])) if p["seen"] is None else z3.BoolVal(False)))
    record(ip, "tree", p["entity_configuration"])
    t = z3.Const("tree", V)
    ip.fact(isdict(t))
    return SV(t, DictS())


def config_cache(ip):
    db = ip.fresh_v("config_db", DictS({}, CONF))
    delta = ip.fresh_v("config_delta", IntS(0))
    # what is stored are decoded configurations together with their signed form
    ip.fact(FA([x], z3.Implies(has(db.t, x), z3.And(conf_shape(get(db.t, x)), has(get(db.t, x), S("_jws")), V.is_s(get(get(db.t, x), S("_jws"))),
                                                    get(get(db.t, x), S("_jws")) != S(""))), get(db.t, x)))
    me = obj(ip, ESCache, {"_db": ip.alloc(DDict(db.t, (), DictS({}, CONF))), "allowed_delta": delta}, "config_cache")
    return me, db.t, V.iv(delta.t)


def setup_call(ip):
    recorder(ip)
    cc, db, delta = config_cache(ip)
    e, stop = ip.fresh_v("entity_id", StrS()), ip.fresh_v("stop_at", StrS())
    ip.E, ip.STOP = e.t, stop.t
    ch = obj(ip, tcc.TrustChainCollector, {"config_cache": cc, "allowed_delta": SI(delta)}, "collector")
    return [ch, e], {"stop_at": stop}, {"db": db, "delta": delta, "e": e.t, "cc": cc}


def same_statement(u, v):
    """equal but for the signed form kept with it"""
    return FA([x], z3.Implies(x != S("_jws"), z3.And(has(u, x) == has(v, x), z3.Implies(has(v, x), get(u, x) == get(v, x)))))


def used(ip, g, k):
    """(usable cached one, the signed configuration fetched instead)"""
    return usable(g["db"], g["delta"], k), SIGNED_EC(k)


def post_ccall(ip, g, comp):
    ok, s = used(ip, g, g["e"])
    if comp[0] == "raise":
        return [("raises only when the configuration can not be fetched or verified", issubclass(comp[1].cls, (FailedConfigurationRetrieval, ValueError)) and not ok_raise(ip))]
    r, tree = comp[1], recorded(ip, "tree")
    if r is None:
        return [("no result only when there is no configuration", z3.And(z3.Not(ok), z3.Or(V.is_none(s), s == S("")))), ("nothing collected", len(tree) == 0)]
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported("a result that is not a pair")
    d1 = db_of(ip, g["cc"])
    c, cached = tree[0][0], get(g["db"], g["e"])
    return [("collected once", len(tree) == 1), ("the collected tree is returned", ip.to_v(r[0]) == z3.Const("tree", V)),
            ("a cached configuration is used while more than the margin remains", z3.Implies(ok, z3.And(c == cached, ip.to_v(r[1]) == get(cached, S("_jws"))))),
            ("otherwise it is fetched and verified anew", z3.Implies(z3.Not(ok), z3.And(same_statement(c, VERIFIED(s)), ip.to_v(r[1]) == s))),
            ("and the cache refreshed", z3.And(has(d1, g["e"]), z3.Implies(z3.Not(ok), z3.And(same_statement(get(d1, g["e"]), VERIFIED(s)), get(get(d1, g["e"]), S("_jws")) == s)))),
            ("nothing is fetched without need", z3.Implies(ok, z3.BoolVal(not recorded(ip, "get_ec")))),
            ("what else is cached is left alone", unchanged(g["db"], d1, lambda q: q == g["e"]))]


def ok_raise(ip):
    return not recorded(ip, "get_ec")


CALL = {TCC + ".TrustChainCollector.get_entity_configuration": get_ec_contract, TCC + ".verify_self_signed_signature": verify_contract,
        TCC + ".TrustChainCollector.collect_tree": call_tree_contract, **CLOCK}


def setup_fep(ip):
    recorder(ip)
    cc, db, delta = config_cache(ip)
    e = ip.fresh_v("intermediate", StrS())
    return [obj(ip, tcc.TrustChainCollector, {"config_cache": cc, "allowed_delta": SI(delta)}, "collector"), e], {}, {"db": db, "delta": delta, "e": e.t, "cc": cc}


def post_fep(ip, g, comp):
    ok, s = used(ip, g, g["e"])
    if comp[0] == "raise":
        return [("raises only when the configuration can not be fetched or verified", issubclass(comp[1].cls, (FailedConfigurationRetrieval, ValueError)) and not ok_raise(ip))]
    r, d1, e = ip.to_v(comp[1]), db_of(ip, g["cc"]), g["e"]
    ep = lambda t: get(get(get(t, S("metadata")), FE), FETCH)
    known = lambda t: z3.And(has(get(get(t, S("metadata")), FE), FETCH), ep(t) != S(""))
    c = get(g["db"], e)
    hit = z3.And(ok, known(c))
    return [("the endpoint in the cached configuration, while it may be used", z3.Implies(hit, z3.And(r == ep(c), z3.BoolVal(not recorded(ip, "get_ec"))))),
            ("otherwise the one in a configuration fetched and verified anew", z3.Implies(z3.And(z3.Not(hit), z3.Not(V.is_none(s))), z3.And(
                z3.Implies(known(VERIFIED(s)), r == ep(VERIFIED(s))), same_statement(get(d1, e), VERIFIED(s)), has(d1, e), get(get(d1, e), S("_jws")) == s))),
            ("no endpoint without a configuration", z3.Implies(z3.And(z3.Not(hit), V.is_none(s)), z3.Or(V.is_none(r), r == S("")))),
            ("what else is cached is left alone", unchanged(g["db"], d1, lambda q: q == e))]


CONTRACTS = [
    Contract("ESCache.__getitem__", CACHE + "__getitem__", setup_get(False), post_get(False), contracts=CLOCK),
    Contract("ESCache.get", CACHE + "get", setup_get(True), post_get(True), contracts=CLOCK),
    Contract("ESCache.__contains__", CACHE + "__contains__", setup_get(False), post_contains, contracts=CLOCK),
    Contract("ESCache.__setitem__", CACHE + "__setitem__", setup_set, post_set),
    Contract("ESCache.__delitem__", CACHE + "__delitem__", setup_get(False), post_del),
    Contract("TrustChainCollector._get_entity_statement", TCC + ":TrustChainCollector._get_entity_statement", setup_ges, post_ges, contracts=GES,
             axioms=key_axioms),
    Contract("TrustChainCollector.too_old", TCC + ":TrustChainCollector.too_old", setup_old, post_old, contracts=CLOCK),
    Contract("TrustChainCollector.__call__", TCC + ":TrustChainCollector.__call__", setup_call, post_ccall, contracts=CALL),
    Contract("TrustChainCollector.get_federation_fetch_endpoint", TCC + ":TrustChainCollector.get_federation_fetch_endpoint", setup_fep, post_fep, contracts=CALL),
]
