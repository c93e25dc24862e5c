"""C17 - automatic registration: whose metadata is registered, and who may be registered that way."""
from .common import *
from cryptojwt.exception import MissingKey
from fedservice.appserver.oauth2 import authorization as oa, pushed_authorization as par
from fedservice.appserver.oidc import authorization as oi
from fedservice.entity import function as fn
from fedservice.entity.function import PolicyError
from fedservice.entity_statement.statement import TrustChain
from fedservice.exception import NoTrustedChains

x, y, c = z3.Consts("x y c", V)
j, i = z3.Ints("jj ii")
FUN = "fedservice.entity.function"
ANCHOR, PATH, META = (lambda tc, n=n: attr(tc, z3.IntVal(intern("." + n))) for n in ("anchor", "iss_path", "metadata"))
TC = ObjS(TrustChain, {"anchor": StrS(), "iss_path": ListS(StrS()), "metadata": DictS({}, DictS())})
VERIFIED, BOUND = z3.Function("verified_trust_chain", V, B), z3.Function("policies_applied", V, B)
COL, LEAF = z3.Function("collected_chains", V, V), z3.Function("leaf_configuration", V, V)
CID, AUTO, ERR = S("client_id"), S("automatic_registered"), S("error")
SERVERS = [("oidc authorization", oi.Authorization, "openid_provider", "openid_relying_party", True),
           ("oauth2 authorization", oa.Authorization, "oauth_authorization_server", "oauth_client", False),
           ("pushed authorization", par.PushedAuthorization, "oauth_authorization_server", "oauth_client", False)]


class GhostFed:
    def store_trust_chains(self, entity_id, chains): pass


class GhostUnit:
    def get_endpoint(self, name): pass


class GhostRegistration:
    def non_fed_process_request(self, req, **kwargs): pass


def chain_list(ip, t, fact=None):
    tc = at(t, j)
    ip.fact(z3.And(islist(t), length(t) >= 0, FA([j], z3.Implies(rng(j, length(t)), z3.And(
        V.is_ref(tc), kind(tc) == K_OBJ, V.is_s(ANCHOR(tc)), isdict(META(tc)), islist(PATH(tc)), length(PATH(tc)) >= 1, *([] if fact is None else [fact(tc)]))), at(t, j))))
    return SV(t, ListS(TC))


def leaf(tc): return at(PATH(tc), 0)


def collect_contract(ip, args, kw):
    b = bind(ip, fn.collect_trust_chains, args, kw)
    require(ip, z3.BoolVal(b["stop_at"] == "" and b["authority_hints"] is None and b["signed_entity_configuration"] == ""))
    if ip.branch(z3.Bool(ip.fresh_name("collection_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    e = ip.to_v(b["entity_id"])
    t = COL(e)
    ip.fact(z3.And(islist(t), length(t) >= 0))
    return (SV(t, ListS(ListS(StrS()))), SV(LEAF(e), OptS(StrS())))


def verify_contract(ip, args, kw):
    """C03, C08: the chains that verify; those collected for an entity end with the configuration of that entity"""
    if kw or len(args) not in (2, 3):
        raise Unsupported("verify_trust_chains")
    chains, ec = args[1], args[2] if len(args) == 3 else None
    if ip.branch(z3.Bool(ip.fresh_name("verification_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    a, t = ip.to_v(chains), ip.fresh("verified", V)
    e = ip.CLIENT
    collected = z3.And(a == COL(e), ip.to_v(ec) == LEAF(e))
    return chain_list(ip, t, lambda tc: z3.And(VERIFIED(tc), z3.Implies(collected, leaf(tc) == e)))


def policies_contract(ip, args, kw):
    b = bind(ip, fn.apply_policies, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("policies_refuse"))):
        raise PyRaise(ExcVal(PolicyError))
    a, t = ip.to_v(b["trust_chains"]), ip.fresh("with_policies", V)
    r = chain_list(ip, t)
    ip.fact(FA([j], z3.Implies(rng(j, length(t)), z3.And(mem(a, at(t, j)), BOUND(at(t, j)))), at(t, j)))
    return r


def verified_contract(ip, args, kw):
    b = bind(ip, fn.get_verified_trust_chains, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("no_verified_chain"))):
        raise PyRaise(ExcVal(PolicyError))
    e = ip.to_v(b["entity_id"])
    return chain_list(ip, ip.fresh("verified", V), lambda tc: z3.And(VERIFIED(tc), BOUND(tc), leaf(tc) == e))


def register_contract(ip, args, kw):
    b = dict(kw)
    req = b.pop("req", None) or args[1]
    if isinstance(req, Ref) and isinstance(ip.heap[req.id], HObj):
        req = msg_d(ip, req)
    r = ip.fresh_v("response", DictS({"response_args": DictS({"client_id": StrS()})}))
    a = get(r.t, S("response_args"))
    record(ip, "registered", req, r)
    ip.fact(z3.And(isdict(r.t), z3.Implies(has(r.t, S("response_args")), z3.And(isdict(a), has(a, CID), V.is_s(get(a, CID))))))
    return r


def nothing(ip, args, kw):
    return None


def setup_auto(cls, unit, provided):
    def setup(ip):
        recorder(ip)
        e = ip.fresh_v("client", StrS())
        ip.CLIENT = e.t
        ip.fact(z3.Length(e.t) > 0 if e.t.sort() == z3.StringSort() else V.is_s(e.t))
        fed = obj(ip, GhostFed, {"trust_chain_anchor": None}, "federation_entity")
        root = ip.alloc(DDict(None, ()))
        pb.setitem(ip, root, unit, obj(ip, GhostUnit, {}, "unit"))
        pb.setitem(ip, root, "federation_entity", fed)
        ip.ROOT, ip.FED = root, fed
        n = SB(z3.Bool("new_client_id"))
        ip.input_names |= {"new_client_id"}
        me = obj(ip, cls, {"upstream_get": Ext("upstream_get", lambda ip, a, k: obj(ip, None, {}, "keyjar")), "new_client_id": n}, "endpoint")
        if not provided:
            return [me, e, ip.listref([])], {}, {"e": e.t}
        p = ip.fresh_v("provided_trust_chain", ListS(StrS()))
        ip.fact(length(p.t) >= 1)
        return [me, e, ip.to_list(p)], {}, {"e": e.t}
    return setup


def post_auto(etype):
    T = S(etype)

    def post(ip, g, comp):
        rs = recorded(ip, "registered")
        if comp[0] == "raise":
            return [("refused: nothing is registered", not rs and not issubclass(comp[1].cls, CallPrecondition))]
        if len(rs) != 1:
            return [("registered once", False)]
        req, response, e = rs[0][0], rs[0][1], g["e"]
        md = get(META(c), T)
        r, a = ip.to_v(comp[1]), get(response, S("response_args"))
        return [("registered under its own identifier", z3.And(has(req, CID), get(req, CID) == e)),
                ("with the policy-bound metadata of a verified trust chain whose leaf is the client",
                 EX([c], z3.And(VERIFIED(c), BOUND(c), leaf(c) == e, has(META(c), T),
                                FA([x], z3.Implies(x != CID, z3.And(has(req, x) == has(md, x), z3.Implies(has(md, x), get(req, x) == get(md, x)))), has(req, x), has(md, x))), META(c))),
                ("answers with the registered identifier", r == z3.If(has(response, S("response_args")), get(a, CID), S(None)))]
    return post


def hook_auto(ip, L):
    out = {}
    if getattr(L.seq, "at", None) is None or getattr(ip, "CLIENT", None) is None:
        return out
    for name, m in mem_cells(L):
        out[name + ":verified, about the client"] = lambda k, m=m: FA([x], z3.Implies(m(k, x), z3.And(VERIFIED(x), leaf(x) == ip.CLIENT, V.is_ref(x), kind(x) == K_OBJ)), m(k, x))
    return out


def msgcls(ip, args, kw):
    return message_class()(ip, args, kw)


# ---- client_authentication
def client_info_facts(ip, t):
    ip.fact(z3.And(isdict(t), FA([x], z3.Implies(has(t, x), isdict(get(t, x))), has(t, x), get(t, x))))


def setup_client(cls, lookup=False):
    def setup(ip):
        recorder(ip)
        cid = ip.fresh_v("client", StrS())
        d = ip.fresh_v("clients", DictS({}, DictS()))
        client_info_facts(ip, d.t)
        cdb = ip.alloc(DDict(d.t, (), d.shape))
        ts = ip.fresh_v("provider_info", DictS({"client_registration_types_supported": ListS(StrS())}))
        T = S("client_registration_types_supported")
        ip.fact(z3.And(isdict(ts.t), z3.Implies(has(ts.t, T), islist(get(ts.t, T)))))
        if cls is not oi.Authorization:
            ip.fact(has(ts.t, T))
        ctx = obj(ip, None, {"cdb": cdb, "provider_info": ts}, "context")
        me = obj(ip, cls, {"upstream_get": Ext("upstream_get", lambda ip, a, k: ctx)}, "endpoint")
        ip.CDB, ip.CLIENT = cdb, cid.t
        g = {"d": d.t, "cid": cid.t, "auto": z3.And(has(ts.t, T), mem(get(ts.t, T), S("automatic")))}
        if lookup:
            return [me, cid], {}, g
        q = ip.fresh_v("request", DictS({"client_id": StrS(), "trust_chain": ListS(StrS())}, None, ["client_id"]))
        ip.fact(z3.And(get(q.t, CID) == cid.t, z3.Implies(has(q.t, S("trust_chain")), islist(get(q.t, S("trust_chain"))))))
        m = message(ip, q)
        ip.REQ, g["q"] = m, q.t
        return [me, m], {}, g
    return setup


def auto_contract(cls):
    def f(ip, args, kw):
        b = bind(ip, cls.do_automatic_registration, args, kw)
        who, chain = list(b.values())[1:3]
        record(ip, "attempt", who, chain)
        if ip.branch(z3.Bool(ip.fresh_name("no_verified_chain"))):
            raise PyRaise(ExcVal(NoTrustedChains))
        if ip.branch(z3.Bool(ip.fresh_name("registration_refused"))):
            return None
        r = ip.fresh_v("registered_id", StrS())
        ip.fact(V.is_s(r.t))
        record(ip, "rid", r)
        info = ip.fresh_v("client_info", DictS())
        ip.fact(isdict(info.t))
        pb.setitem(ip, ip.CDB, r, ip.alloc(DDict(info.t, (), info.shape)))
        return r
    return f


def authn_contract(ip, args, kw):
    q = args[1] if len(args) > 1 else kw.get("request")
    record(ip, "authn", pb.getitem(ip, msg_d(ip, q), "client_id"))
    r = ip.fresh_v("auth_info", DictS())
    return r


def unchanged(ip, g, but):
    now = ip.to_v(ip.CDB)
    return FA([x], z3.Implies(z3.And(*[x != b for b in but]), z3.And(has(now, x) == has(g["d"], x), z3.Implies(has(now, x), get(now, x) == get(g["d"], x)))), has(now, x), has(g["d"], x))


def other_means(g, oidc):
    d, cid = g["d"], g["cid"]
    return z3.And(has(d, cid), z3.Not(has(get(d, cid), AUTO))) if oidc else has(d, cid)


def post_client(oidc):
    def post(ip, g, comp):
        at_, au = recorded(ip, "attempt"), recorded(ip, "authn")
        d, cid = g["d"], g["cid"]
        known = other_means(g, oidc)
        out = [("at most one attempt", len(at_) <= 1),
               ("who is registered otherwise is not registered automatically, and authenticates as usual", z3.Implies(known, z3.And(z3.BoolVal(not at_ and bool(au)), unchanged(ip, g, []))))]
        if comp[0] == "raise":
            out.append(("fails only when there is no verified trust chain", z3.And(z3.BoolVal(bool(at_) and issubclass(comp[1].cls, NoTrustedChains)), unchanged(ip, g, [cid]))))
        if not at_:
            out.append(("without automatic registration nothing changes", unchanged(ip, g, [])))
            if comp[0] == "return":
                out.append(("an unknown client is refused", z3.Implies(z3.Not(known), z3.And(z3.BoolVal(not au), has(ip.to_v(comp[1]), ERR)))))
        else:
            who, chain = at_[0]
            q = g["q"]
            t = S("trust_chain")
            out += [("only where automatic registration is supported", g["auto"]), ("the client that asks", who == cid),
                    ("the chain it supplied, if any", z3.If(has(q, t), chain == get(q, t), z3.And(islist(chain), length(chain) == 0)))]
            rid = recorded(ip, "rid")
            rid = rid[0][0] if rid else None
            if comp[0] == "return":
                out.append(("other clients are left alone", unchanged(ip, g, [cid] + ([rid] if rid is not None else []))))
                out.append(("refused when the registration is", z3.BoolVal(True) if rid is not None else z3.And(z3.BoolVal(not au), has(ip.to_v(comp[1]), ERR))))
                if rid is not None and oidc:
                    out.append(("known as registered automatically", has(get(ip.to_v(ip.CDB), rid), AUTO)))
                if rid is not None and len(au) == 1:
                    out.append(("authenticates as what it was registered", au[0][0] == rid))
        return out
    return post


def post_lookup(oidc):
    def post(ip, g, comp):
        at_ = recorded(ip, "attempt")
        if comp[0] == "raise":
            return [("fails only when there is no verified trust chain", bool(at_) and issubclass(comp[1].cls, NoTrustedChains))]
        out = [("who is registered otherwise is not registered automatically", z3.Implies(other_means(g, oidc), z3.And(z3.BoolVal(not at_), unchanged(ip, g, [])))),
               ("only where automatic registration is supported", z3.Or(z3.BoolVal(not at_), g["auto"]))]
        if not at_:
            return out + [("no keys", z3.Not(truthy(ip, comp[1])))]
        return out + [("the issuer itself", at_[0][0] == g["cid"]), ("no chain is supplied", z3.And(islist(at_[0][1]), length(at_[0][1]) == 0))]
    return post


CONTRACTS = []
for name, cls, unit, etype, oidc in SERVERS:
    M = cls.__module__
    GC = {**MSG, FUN + ".collect_trust_chains": collect_contract, FUN + ".verify_trust_chains": verify_contract, FUN + ".apply_policies": policies_contract,
          FUN + ".get_verified_trust_chains": verified_contract, "idpyoidc.node.topmost_unit": lambda ip, a, k: ip.ROOT,
          **{m + ".get_federation_entity": lambda ip, a, k: ip.FED for m in (M, "fedservice.entity.utils")},
          "fedservice.entity.utils.get_keys": nothing, "fedservice.appserver.import_client_keys": nothing,
          "contracts.C17.GhostUnit.get_endpoint": lambda ip, a, k: obj(ip, GhostRegistration, {}, "registration"),
          "contracts.C17.GhostFed.store_trust_chains": nothing, "contracts.C17.GhostRegistration.non_fed_process_request": register_contract,
          "idpyoidc.message.oidc.RegistrationRequest": msgcls, "idpyoidc.message.oauth2.OauthClientMetadata": msgcls, "fedservice.message.OauthClientMetadata": msgcls}
    AC = {**MSG, f"{M}.{cls.__name__}.do_automatic_registration": auto_contract(cls), "idpyoidc.server.endpoint.Endpoint.client_authentication": authn_contract}
    for provided in (False, True):
        CONTRACTS.append(Contract(f"do_automatic_registration ({name}, {'a chain in the request' if provided else 'looked up'})", f"{M}:{cls.__name__}.do_automatic_registration",
                                  setup_auto(cls, unit, provided), post_auto(etype), hooks=[hook_auto], contracts=GC))
    CONTRACTS.append(Contract(f"client_authentication ({name})", f"{M}:{cls.__name__}.client_authentication", setup_client(cls), post_client(oidc), contracts=AC))
    CONTRACTS.append(Contract(f"find_client_keys ({name})", f"{M}:{cls.__name__}.find_client_keys", setup_client(cls, True), post_lookup(oidc), contracts=AC))
