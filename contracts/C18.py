"""C18 - explicit registration: who is registered with what, and what the answer states."""
from .common import *
from cryptojwt.exception import MissingKey
from fedservice.appserver.oauth2 import registration as orr
from fedservice.appserver.oidc import registration as oir
from fedservice.entity import function as fn
from fedservice.entity.context import FederationContext
from fedservice.entity.function import PolicyError
from fedservice.entity.function import trust_chain_collector as tcc
from idpyoidc.message.oauth2 import ResponseMessage
from idpyoidc.server.exception import CapabilitiesMisMatch
from .C17 import ANCHOR, BOUND, META, VERIFIED, chain_list, leaf, msgcls, nothing

x, y, c, T = z3.Consts("x y c T", V)
j, i = z3.Ints("jj ii")
FUN = "fedservice.entity.function"
OARM = orr.__name__ + ".Registration"
PAY = z3.Function("self_signed_payload", V, V)
COL = z3.Function("collected_from", V, V, V)
CID, ISS, SUB, MD, ARGS, MSGK = (S(n) for n in ("client_id", "iss", "sub", "metadata", "response_args", "response_msg"))


class GhostFed:
    def pick_trust_chain(self, trust_chains): pass
    def get_authority_hints(self): pass
    def upstream_get(self, what, name=None): pass


class GhostContext:
    def create_entity_statement(self, iss, sub, key_jar=None, metadata=None, metadata_policy=None, authority_hints=None, lifetime=0, jwks=None, **kwargs): pass


def self_signed(ip, args, kw):
    s = ip.to_v(args[0])
    if ip.branch(z3.Bool(ip.fresh_name("not_self_signed"))):
        raise PyRaise(ExcVal(ValueError))
    p = PAY(s)
    st = lambda n: z3.Implies(has(p, n), V.is_s(get(p, n)))
    ip.fact(z3.And(isdict(p), has(p, ISS), st(ISS), st(SUB), z3.Implies(has(p, MD), z3.And(isdict(get(p, MD)), FA([x], z3.Implies(has(get(p, MD), x), isdict(get(get(p, MD), x))), has(get(p, MD), x))))))
    return SV(p, DictS({"iss": StrS(), "sub": StrS(), "metadata": DictS({}, DictS())}))


def collect_contract(ip, args, kw):
    b = bind(ip, fn.collect_trust_chains, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("collection_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    t = COL(ip.to_v(b["entity_id"]), ip.to_v(b["signed_entity_configuration"]))
    ip.fact(z3.And(islist(t), length(t) >= 0))
    return (SV(t, ListS(ListS(StrS()))), SV(ip.fresh("leaf_configuration", V), OptS(StrS())))


def verify_contract(ip, args, kw):
    """C03: the statement handed over ends the chain, its issuer is the leaf"""
    if kw or len(args) not in (2, 3):
        raise Unsupported("verify_trust_chains")
    if ip.branch(z3.Bool(ip.fresh_name("verification_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    t = ip.fresh("verified", V)
    ec = ip.to_v(args[2]) if len(args) == 3 else None
    return chain_list(ip, t, lambda tc: z3.And(VERIFIED(tc), *([] if ec is None else [leaf(tc) == get(PAY(ec), ISS)])))


def policies_contract(ip, args, kw):
    """the chains, in place, with the policy-bound metadata"""
    b = bind(ip, fn.apply_policies, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("policies_refuse"))):
        raise PyRaise(ExcVal(PolicyError))
    a, t = ip.to_v(b["trust_chains"]), ip.fresh("with_policies", V)
    r = chain_list(ip, t)
    ip.fact(z3.And(length(t) == length(a), FA([j], z3.Implies(rng(j, length(t)), z3.And(mem(a, at(t, j)), BOUND(at(t, j)))), at(t, j))))
    return r


def pick_contract(ip, args, kw):
    """C20: one of them"""
    b = bind(ip, GhostFed.pick_trust_chain, args, kw)
    a = ip.to_v(b["trust_chains"])
    require(ip, length(a) > 0)
    k = ip.fresh("picked", I)
    ip.fact(rng(k, length(a)))
    return SV(at(a, k), chain_list(ip, a).shape.elem)


def upstream(ip, args, kw):
    if list(args[1:]) == ["attribute", "entity_id"]:
        return ip.ME
    raise Unsupported("what the federation entity is asked for")


def register_contract(cls, meth):
    def f(ip, args, kw):
        b = bind(ip, getattr(cls, meth), args, kw) if meth != "non_fed_process_request" else {"req": kw.get("req", args[1] if len(args) > 1 else None)}
        req = b["req"] if "req" in b else b["request"]
        d = msg_d(ip, req)
        r = ip.fresh_v("response", DictS({"response_args": DictS()}))
        ip.fact(z3.And(isdict(r.t), z3.Not(has(r.t, MSGK)), z3.Implies(has(r.t, ARGS), isdict(get(r.t, ARGS)))))
        new = b.get("new_id", True if meth != "non_fed_process_request" else False)
        record(ip, "registered", ip.alloc(pb.dict_content(ip, d)), r, SB(truthy(ip, new)))
        return ip.alloc(DDict(r.t, (), r.shape))
    return f


def create_contract(ip, args, kw):
    b = bind(ip, GhostContext.create_entity_statement, args, kw)
    if b.get("**") is not None:
        raise Unsupported("claims of the answer")
    ex = b.get("extra", {})
    for n in ("key_jar", "metadata_policy", "jwks"):
        if b[n] is not None:
            record(ip, "strange")
    if set(ex) - {"trust_anchor_id", "aud"} or b["lifetime"] != 0:
        record(ip, "strange")
    s = ip.fresh_v("statement", StrS())
    m = b["metadata"]
    h = ip.heap[m.id] if isinstance(m, Ref) else None
    key = h.writes[0][0] if isinstance(h, DDict) and h.base is None and len(h.writes) == 1 else None
    record(ip, "statement", b["iss"], b["sub"], ex.get("trust_anchor_id"), ex.get("aud"), m, s, key)
    return s


def setup_process(cls):
    def setup(ip):
        recorder(ip)
        q = ip.fresh_v("request", StrS())
        ip.ME = ip.fresh_v("entity_id", StrS())
        ip.FED = obj(ip, GhostFed, {"context": obj(ip, GhostContext, {}, "federation_context"), "trust_chain_anchor": None}, "federation_entity")
        me = obj(ip, cls, {"upstream_get": Ext("upstream_get", lambda ip, a, k: obj(ip, None, {}, "unit"))}, "endpoint")
        return [me, q], {}, {"q": q.t}
    return setup


def some(ta, key, f, pat):
    """there are a chain and a type with f: the ones the answer was made from if they can be told, else any"""
    if z3.is_app(ta) and ta.decl().name() == "attr" and not z3.is_true(z3.simplify(V.is_none(key))):
        return f(ta.arg(0), key)
    return EX([c, T], f(c, T), pat)


def post_process(oidc):
    def post(ip, g, comp):
        rs, st = recorded(ip, "registered"), recorded(ip, "statement")
        if comp[0] == "raise":
            return [("refused: nothing is registered and nothing is answered", z3.BoolVal(not rs and not st and not issubclass(comp[1].cls, CallPrecondition)))]
        if len(rs) != 1 or len(st) > 1 or recorded(ip, "strange"):
            return [("one registration, one answer", False)]
        req, response, new = rs[0]
        new = new == S(True)
        p = PAY(g["q"])
        sub, r = get(p, SUB), ip.to_v(comp[1])
        same = lambda md, but: FA([x], z3.Implies(z3.And(*[x != b for b in but]), z3.And(has(req, x) == has(md, x), z3.Implies(has(md, x), get(req, x) == get(md, x)))), has(req, x), has(md, x))
        chain = lambda c, T: z3.And(VERIFIED(c), BOUND(c), leaf(c) == sub, has(get(p, MD), T), has(META(c), T), same(get(META(c), T), [CID] if oidc else []))
        out = [("the metadata is what a verified trust chain of the entity gives", EX([c, T], chain(c, T), z3.MultiPattern(META(c), has(get(p, MD), T)))),
               ("registered under its own identifier" if oidc else "registered under a new identifier", z3.And(has(req, CID), get(req, CID) == sub, z3.Not(new)) if oidc else new)]
        args = get(response, ARGS)
        if not st:
            return out + [("no answer only where the registration was refused", z3.And(z3.Not(has(response, ARGS)), z3.Not(has(r, MSGK))))]
        iss, who, ta, aud, md, s, key = st[0]
        body = get(md, T)
        # what the chain states, without what is not repeated, and what the registration answered
        out += [("issued by the server about and for the client", z3.And(iss == ip.ME.t, who == sub, aud == sub)),
                ("answers with that statement", z3.And(has(r, MSGK), get(r, MSGK) == s, z3.Not(has(r, ARGS)))),
                ("names the trust anchor of the chain used", some(ta, key, lambda c, T: z3.And(chain(c, T), ta == ANCHOR(c), has(md, T)), z3.MultiPattern(ANCHOR(c), has(md, T)))),
                ("for the one entity type", FA([x, y], z3.Implies(z3.And(has(md, x), has(md, y)), x == y), z3.MultiPattern(has(md, x), has(md, y)))),
                ("with the metadata that was registered", FA([T, x], z3.Implies(z3.And(has(md, T), has(body, x)), z3.Or(
                    z3.And(has(args, x), get(body, x) == get(args, x)), z3.And(z3.Not(has(args, x)), has(req, x), get(body, x) == get(req, x)))), has(body, x)))]
        return out
    return post


def hook_process(ip, L):
    from .C17 import VERIFIED
    out = {}
    if getattr(L.seq, "at", None) is None or getattr(ip, "ME", None) is None:
        return out
    for c_ in L.cells.values():
        if c_.tag == "list":
            out[c_.name + ":verified"] = lambda k, m=c_.mem: FA([x], z3.Implies(m(k, x), z3.And(VERIFIED(x), L.seq.memf(x) if L.seq.memf is not None else z3.BoolVal(True), V.is_ref(x), kind(x) == K_OBJ)), m(k, x))
    return out


def proc_contracts(cls, meth):
    M = cls.__module__
    return {**MSG, FUN + ".collect_trust_chains": collect_contract, FUN + ".verify_trust_chains": verify_contract, FUN + ".apply_policies": policies_contract,
            FUN + ".trust_chain_collector.verify_self_signed_signature": self_signed, "fedservice.save_trust_chains": nothing,
            **{m + ".get_federation_entity": lambda ip, a, k: ip.FED for m in (M, "fedservice.entity.utils")},
            "contracts.C18.GhostFed.pick_trust_chain": pick_contract, "contracts.C18.GhostFed.get_authority_hints": lambda ip, a, k: ip.fresh_v("authority_hints", ListS(StrS())),
            "contracts.C18.GhostFed.upstream_get": upstream, "contracts.C18.GhostContext.create_entity_statement": create_contract,
            f"{M}.{cls.__name__}.{meth}": register_contract(cls, meth),
            "idpyoidc.message.oidc.RegistrationRequest": msgcls, "idpyoidc.message.oauth2.OauthClientMetadata": msgcls}


# ---- client_registration_setup: what is stored under which identifier
NEWID = z3.Const("generated_id", V)


class GhostResponseClass:
    def __call__(self, **kwargs): pass


class GhostRequest(Msg):
    def rm_blanks(self): pass


class GhostKeyJar:
    def add_symmetric(self, issuer_id, key): pass


def request_verify(ip, args, kw):
    if ip.branch(z3.Bool(ip.fresh_name("request_does_not_verify"))):
        raise PyRaise(ExcVal(ValueError))
    return SB(z3.BoolVal(True))


def filter_contract(ip, args, kw):
    """C16; the identifier is kept"""
    b = bind(ip, orr.Registration.filter_client_request, args, kw)
    d = ip.to_v(ip.alloc(pb.dict_content(ip, msg_d(ip, b["request"]))))
    if ip.branch(z3.Bool(ip.fresh_name("not_supported"))):
        raise PyRaise(ExcVal(CapabilitiesMisMatch))
    r = ip.fresh_v("filtered_request", DictS({"client_id": StrS()}))
    ip.fact(z3.And(isdict(r.t), has(r.t, CID) == has(d, CID), z3.Implies(has(d, CID), get(r.t, CID) == get(d, CID))))
    record(ip, "filtered", r)
    return message(ip, r, cls=GhostRequest)


def store_contract(ip, args, kw):
    """C16: what is stored already, with the request's claims"""
    b = bind(ip, orr.Registration.do_client_registration, args, kw)
    req, cid = ip.to_v(ip.alloc(pb.dict_content(ip, msg_d(ip, b["request"])))), ip.to_v(b["client_id"])
    now = ip.to_v(ip.alloc(pb.dict_content(ip, ip.CDB)))
    require(ip, z3.And(has(now, cid), isdict(get(now, cid))))
    if ip.branch(z3.Bool(ip.fresh_name("registration_refused"))):
        return ip.alloc(HObj(ResponseMessage, {"error": "invalid"}, "refusal", False))
    r = ip.fresh_v("client_information", DictS({"client_id": StrS(), "client_salt": StrS()}))
    keep = lambda n: z3.And(has(r.t, S(n)) == z3.Or(has(req, S(n)), has(get(now, cid), S(n))), z3.Implies(has(r.t, S(n)), get(r.t, S(n)) == z3.If(has(req, S(n)), get(req, S(n)), get(get(now, cid), S(n)))))
    ip.fact(z3.And(isdict(r.t), keep("client_id"), keep("client_salt"), keep("client_secret")))
    record(ip, "info", r, b["client_id"], SV(req))
    return r


def setup_setup(ip):
    recorder(ip)
    d = ip.fresh_v("clients", DictS({}, DictS()))
    ip.fact(z3.And(isdict(d.t), FA([x], z3.Implies(has(d.t, x), isdict(get(d.t, x))), has(d.t, x), get(d.t, x))))
    ip.CDB = ip.alloc(DDict(d.t, (), d.shape))
    ctx = obj(ip, None, {"cdb": ip.CDB}, "context")
    kj = obj(ip, GhostKeyJar, {}, "keyjar")

    def up(ip, a, k):
        return ctx if list(a) == ["context"] else kj
    params = ip.fresh_v("response_parameters", DictS())
    ip.fact(isdict(params.t))
    cls = obj(ip, GhostResponseClass, {"c_param": params}, "response_class")
    me = obj(ip, orr.Registration, {"upstream_get": Ext("upstream_get", up), "kwargs": ip.alloc(DDict(None, ())), "response_cls": cls}, "endpoint")
    q = ip.fresh_v("request", DictS({"client_id": StrS()}))
    ip.fact(z3.Implies(has(q.t, CID), V.is_s(get(q.t, CID))))
    new = SB(z3.Bool("new_id"))
    ip.input_names |= {"new_id", "generated_id", "set_secret"}
    ip.fact(V.is_s(NEWID))
    return [me, message(ip, q, cls=GhostRequest, verify=request_verify)], {"new_id": new, "set_secret": SB(z3.Bool("set_secret"))}, {"d": d.t, "q": q.t, "new": new.t}


def generate(ip, args, kw):
    record(ip, "generated", ip.to_set(kw.get("reserved")))
    return SV(NEWID, StrS())


def response_contract(ip, args, kw):
    if set(kw) - {"**"} or len(args) > 1:
        raise Unsupported("the response")
    d = kw.get("**", ip.alloc(DDict(None, ())))
    if isinstance(d, Ref) and not isinstance(ip.heap[d.id], DDict):
        d = msg_d(ip, d)
    record(ip, "response", d)
    return message(ip, ip.alloc(pb.dict_content(ip, d)))


def post_setup(ip, g, comp):
    info, resp, gen = recorded(ip, "info"), recorded(ip, "response"), recorded(ip, "generated")
    now = ip.to_v(ip.alloc(pb.dict_content(ip, ip.CDB)))
    cid = z3.If(g["new"], NEWID, get(g["q"], CID))
    rest = FA([x], z3.Implies(x != cid, z3.And(has(now, x) == has(g["d"], x), z3.Implies(has(now, x), get(now, x) == get(g["d"], x)))), has(now, x), has(g["d"], x))
    out = [("no other client is touched", rest), ("a new identifier is one that is not taken", z3.And(z3.BoolVal(len(gen) <= 1), z3.Implies(z3.BoolVal(not gen), z3.Or(z3.Not(g["new"]), FA([x], has(now, x) == has(g["d"], x), has(now, x))))))]
    if gen:
        out.append(("known identifiers are reserved", FA([x], z3.Implies(has(g["d"], x), mem(gen[0][0], x)), has(g["d"], x))))
    if comp[0] == "raise":
        return out + [("raises only without an identifier", z3.And(z3.BoolVal(issubclass(comp[1].cls, ValueError)), z3.Not(g["new"])))]
    if not resp:
        return out + [("refused: an error", z3.BoolVal(isinstance(comp[1], Ref) and ip.heap[comp[1].id].cls is ResponseMessage))]
    if len(info) != 1 or len(resp) != 1:
        return out + [("stored once", False)]
    r = info[0][0]
    return out + [("what the rules leave of the request is stored under the identifier", z3.And(has(now, cid), get(now, cid) == r, info[0][1] == cid)),
                  ("the client knows its identifier", z3.And(has(r, CID), get(r, CID) == cid)),
                  ("the registered request is what the server supports of it", z3.Implies(has(info[0][2], x), has(recorded(ip, "filtered")[0][0], x))),
                  ("the answer repeats what is stored", FA([x], z3.Implies(z3.And(has(resp[0][0], x), x != S("redirect_uris"), x != S("post_logout_redirect_uri"), x != S("request_uris")), z3.And(has(r, x), get(resp[0][0], x) == get(r, x))), has(resp[0][0], x)))]


def message_error(ip, args, kw):
    return ip.alloc(HObj(ResponseMessage, dict(kw), "refusal", False))


def secret_contract(ip, args, kw):
    b = bind(ip, orr.Registration.add_client_secret, args, kw)
    s = ip.fresh_v("secret", StrS())
    pb.setitem(ip, b["cinfo"], "client_secret", s)
    return s


def comb_contract(ip, args, kw):
    for n in ("redirect_uris", "post_logout_redirect_uri", "request_uris"):
        if ip.branch(ip.zb(ip.contains(n, args[0]))):
            pb.setitem(ip, args[0], n, ip.fresh_v("combined", None))
    return None


SC = {**MSG, **{"contracts.C18.GhostRequest." + n.rsplit(".", 1)[1]: f for n, f in MSG.items()}, "contracts.C18.GhostRequest.rm_blanks": nothing, OARM + ".filter_client_request": filter_contract, OARM + ".do_client_registration": store_contract,
      OARM + ".add_client_secret": secret_contract, "cryptojwt.utils.importer": lambda ip, a, k: Ext("cid_generator", generate),
      "idpyoidc.util.rndstr": lambda ip, a, k: ip.fresh_v("salt", StrS()), "cryptojwt.jwt.utc_time_sans_frac": lambda ip, a, k: SI(ip.fresh("now", I)),
      "idpyoidc.util.sanitize": nothing, "contracts.C18.GhostKeyJar.add_symmetric": nothing, "contracts.C18.GhostResponseClass.__call__": response_contract,
      "idpyoidc.server.oidc.registration.comb_uri": comb_contract, "idpyoidc.message.oauth2.ResponseMessage": message_error}

CONTRACTS = [
    Contract("Registration.process_request (oidc)", oir.__name__ + ":Registration.process_request", setup_process(oir.Registration), post_process(True), hooks=[hook_process],
             contracts=proc_contracts(oir.Registration, "non_fed_process_request")),
    Contract("Registration.process_request (oauth2)", orr.__name__ + ":Registration.process_request", setup_process(orr.Registration), post_process(False), hooks=[hook_process],
             contracts=proc_contracts(orr.Registration, "step2_process_request")),
    Contract("Registration.client_registration_setup (oauth2)", orr.__name__ + ":Registration.client_registration_setup", setup_setup, post_setup, contracts=SC),
]

from .selfsigned import SELF_SIGNED    # noqa: E402
CONTRACTS += SELF_SIGNED
