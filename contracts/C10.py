"""C10 - which trust marks are accepted.

Key jars are ghost state: sets of (issuer, key) pairs.  SIG(token, key): the signature verifies with the key."""
from .common import *
from cryptojwt.exception import BadSignature, MissingKey
from fedservice.entity.function import trust_mark_verifier as tmv
from fedservice.entity_statement.statement import TrustChain

x, y, p = z3.Consts("x y p", V)
j, i = z3.Ints("jj ii")
MOD = "fedservice.entity.function.trust_mark_verifier"
T = MOD + ".TrustMarkVerifier."
SUB, ISS, EXP, JWKS, ID, DEL = (S(a) for a in ("sub", "iss", "exp", "jwks", "id", "delegation"))
FEM = DictS({"trust_mark_issuers": DictS(), "trust_mark_owners": DictS({}, DictS({"jwks": DictS(), "sub": StrS()}, None, ["jwks", "sub"]))})
MARK = DictS({"metadata": DictS({"federation_entity": FEM}), "sub": StrS(), "iss": StrS(), "exp": IntS(), "id": StrS(), "delegation": StrS()})
NOW = z3.Int("now")
PAYLOAD = z3.Function("payload", V, V)
SIG = z3.Function("signature_verifies", V, V, B)
COMPLETE = z3.Function("has_what_a_trust_mark_must_have", V, B)
DELEGATED = z3.Function("delegation_verifies", V, V, B)
CHAINS = z3.Function("verified_trust_chains", V, V)
TC = ObjS(TrustChain, {"anchor": StrS(), "iss_path": ListS(StrS()), "verified_chain": ListS(DictS({"jwks": DictS(), "sub": StrS(), "iss": StrS()}, None, ["jwks", "sub", "iss"]))})
ANCHOR = lambda tc: attr(tc, z3.IntVal(intern(".anchor")))
PATH = lambda tc: attr(tc, z3.IntVal(intern(".iss_path")))
VC = lambda tc: attr(tc, z3.IntVal(intern(".verified_chain")))
PISS, PKEY = z3.Function("pair_issuer", V, V), z3.Function("pair_key", V, V)
PAIR = z3.Function("pair", V, V, V)
INJWKS = z3.Function("key_in_jwks", V, V, B)           # key, jwks


class GhostKeyJar:
    def get_jwt_verify_keys(self, jwt, **kw): pass


class GhostJWS:
    def verify_compact(self, jws=None, keys=None, **kw): pass


class GhostJWT:
    def payload(self): pass


class GhostUnpacker:
    def unpack(self, token, timestamp=None): pass


class GhostEntity:
    def get_attribute(self, name): pass


G = "contracts.C10.Ghost"


def pairs():
    return [FA([x, y], z3.And(PISS(PAIR(x, y)) == x, PKEY(PAIR(x, y)) == y), PAIR(x, y))]


def jar(ip, name, memf):
    return obj(ip, GhostKeyJar, {"trusted": ip.alloc(SSet(memf, None))}, name)


def trusted(ip, kj):
    return ip.heap[ip.heap[kj.id].fields["trusted"].id].memf


def jws_of(ip, s, shape=MARK):
    jwt = obj(ip, GhostJWT, {"s": SV(s, StrS()), "shape": shape}, "jwt")
    return obj(ip, GhostJWS, {"s": SV(s, StrS()), "jwt": jwt, "shape": shape}, "jws")


def factory_contract(ip, args, kw):
    s = ip.to_v(args[0])
    if not ip.branch(z3.Function("is_jws", V, B)(s)):
        return None
    return jws_of(ip, s)


def field(ip, o, name):
    return ip.heap[o.id].fields[name]


def pay(ip, s, shape):
    t = PAYLOAD(s)
    ip.fact(z3.And(isdict(t), z3.Implies(has(t, EXP), V.is_i(get(t, EXP))), *[z3.Implies(has(t, k), V.is_s(get(t, k))) for k in (SUB, ISS, ID, DEL)]))
    return SV(t, shape)


def jwt_payload(ip, args, kw):
    return pay(ip, field(ip, args[0], "s").t, field(ip, args[0], "shape"))


def verify_keys(ip, args, kw):
    s = field(ip, args[1], "s").t
    t = ip.fresh("keys", V)
    kj = trusted(ip, args[0])
    ip.fact(z3.And(islist(t), length(t) >= 0, FA([x], z3.Implies(mem(t, x), kj(PAIR(get(PAYLOAD(s), ISS), x))), mem(t, x))))
    ip.assumptions.add("KeyJar.get_jwt_verify_keys gives keys the key jar holds for the token's issuer only")
    return SV(t, ListS())


def verify_compact(ip, args, kw):
    b = bind(ip, GhostJWS.verify_compact, args, kw)
    s = field(ip, b["self"], "s").t
    if b["jws"] is not None:
        require(ip, ip.to_v(b["jws"]) == s)
    if b["keys"] is None:
        raise Unsupported("verify_compact without keys")
    k = ip.fresh("verifying_key", V)
    ks = ip.to_v(b["keys"])
    if not ip.branch(z3.Bool(ip.fresh_name("signature_ok"))):
        raise PyRaise(ExcVal(BadSignature))
    ip.fact(z3.And(mem(ks, k), SIG(s, k)))
    ip.assumptions.add("verify_compact returns the content only if the signature verifies with one of the keys given, else raises")
    return pay(ip, s, field(ip, b["self"], "shape"))


def import_jwks(ip, args, kw):
    kj, jwks, iss = args
    r = ip.heap[kj.id].fields["trusted"]
    old, jt, it = ip.heap[r.id].memf, ip.to_v(jwks), ip.to_v(iss)
    ip.heap[r.id] = SSet(lambda q: z3.Or(old(q), z3.And(PISS(q) == it, INJWKS(PKEY(q), jt))), None)
    ip.assumptions.add("import_jwks adds the keys of the JWKS for the issuer, and gives the key jar back")
    return kj


def mark_verify(ip, args, kw):
    if kw:
        raise Unsupported("verify of a trust mark with arguments")
    d = ip.to_v(msg_d(ip, args[0]))
    if not ip.branch(COMPLETE(d)):
        raise PyRaise(ExcVal(ValueError))
    ip.fact(z3.And(*[z3.And(has(d, k), V.is_s(get(d, k))) for k in (SUB, ISS, ID)]))
    return True


def delegation_contract(ip, args, kw):
    b = bind(ip, tmv.TrustMarkVerifier.verify_delegation, args, kw)
    m = b["trust_mark"]
    d = ip.to_v(msg_d(ip, m) if isinstance(m, Ref) and isinstance(ip.heap[m.id], HObj) else m)
    if ip.branch(z3.Bool(ip.fresh_name("delegation_raises"))):
        raise PyRaise(ExcVal(BadSignature))
    if not ip.branch(DELEGATED(d, ip.to_v(b["trust_anchor_id"]))):
        return None
    t = ip.fresh("delegation_info", V)
    ip.fact(z3.And(isdict(t), length(t) > 0))
    return SV(t, DictS())


def chains_contract(ip, args, kw):
    from fedservice.entity import function as fn
    b = bind(ip, fn.get_verified_trust_chains, args, kw)
    e = ip.to_v(b["entity_id"])
    t = CHAINS(e)
    tc = at(t, j)
    if ip.branch(z3.Bool(ip.fresh_name("collection_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    # by the contracts of C03 and C08: the chain ends with the entity itself
    ip.fact(z3.And(islist(t), length(t) >= 0, FA([j], z3.Implies(rng(j, length(t)), z3.And(
        V.is_ref(tc), kind(tc) == K_OBJ, length(PATH(tc)) > 0, at(PATH(tc), 0) == e, length(VC(tc)) > 0, islist(VC(tc)), islist(PATH(tc)),
        get(at(VC(tc), length(VC(tc)) - 1), SUB) == e, get(at(VC(tc), length(VC(tc)) - 1), ISS) == e)), at(t, j))))
    return SV(t, ListS(TC))


def policies_contract(ip, args, kw):
    if ip.branch(z3.Bool(ip.fresh_name("policies_refuse"))):
        raise PyRaise(ExcVal(MissingKey))
    return args[1]


def get_attribute(ip, args, kw):
    if list(args[1:]) == ["keyjar"]:
        return ip.KJ
    raise Unsupported("attribute of the federation entity")


def setup_mark(ip):
    s, ta = ip.fresh_v("trust_mark", StrS()), ip.fresh_v("trust_anchor", StrS())
    kj0 = z3.Function("initially_trusted", V, B)
    ip.KJ = jar(ip, "keyjar", lambda q: kj0(q))
    ip.FED = obj(ip, GhostEntity, {}, "federation_entity")
    # the federation's keys are those the key jar has, and those of verified chains (C03)
    return [obj(ip, tmv.TrustMarkVerifier, {}), s, ta], {}, {"s": s.t, "ta": ta.t, "kj0": kj0}


def federation_key(g, k):
    m = PAYLOAD(g["s"])
    cs = CHAINS(get(m, ISS))
    leaf = lambda q: at(VC(at(cs, q)), length(VC(at(cs, q))) - 1)
    return z3.Or(g["kj0"](PAIR(get(m, ISS), k)), EX([j], z3.And(rng(j, length(cs)), INJWKS(k, get(leaf(j), JWKS))), at(cs, j)))


def post_mark(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only what refuses the mark", not issubclass(comp[1].cls, CallPrecondition))]
    r = comp[1]
    if r is None:
        return []
    m = PAYLOAD(g["s"])
    cs = CHAINS(get(m, ISS))
    acc = truthy(ip, r)
    k = z3.Const("k", V)
    return [("what is reported is the mark's content", z3.Implies(acc, ip.to_v(r) == m)),
            ("it has all required claims", z3.Implies(acc, COMPLETE(m))),
            ("it has not expired", z3.Implies(z3.And(acc, has(m, EXP)), V.iv(get(m, EXP)) >= NOW)),
            ("its issuer has a verified chain to the anchor asked for", z3.Implies(acc, EX([j], z3.And(rng(j, length(cs)), ANCHOR(at(cs, j)) == g["ta"]), at(cs, j)))),
            ("its signature verifies with a federation key of the issuer", z3.Implies(acc, EX([k], z3.And(SIG(g["s"], k), federation_key(g, k)), SIG(g["s"], k)))),
            ("a delegation verifies", z3.Implies(z3.And(acc, has(m, DEL)), DELEGATED(m, g["ta"])))]


# ---- verify_delegation
CFG = z3.Function("collected_configuration", V, V)     # what the collector hands back as the signed entity configuration of an entity
TAEC = DictS({"metadata": DictS({"federation_entity": FEM}), "iss": StrS()})
META, FENT, OWNERS, ISSUERS = (S(a) for a in ("metadata", "federation_entity", "trust_mark_owners", "trust_mark_issuers"))


def collect_contract(ip, args, kw):
    from fedservice.entity import function as fn
    b = bind(ip, fn.collect_trust_chains, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("collection_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    cs = ip.fresh_v("chains", ListS(ListS(StrS())))
    e = ip.to_v(b["entity_id"])
    return (cs, SV(CFG(e), OptS(StrS())))


def jwt_contract(ip, args, kw):
    if args or set(kw) != {"key_jar"}:
        raise Unsupported("JWT with other arguments")
    return obj(ip, GhostUnpacker, {"kj": kw["key_jar"]}, "unpacker")


def unpack(ip, args, kw):
    s = ip.to_v(args[1])
    if not ip.branch(z3.Bool(ip.fresh_name("unpacks"))):
        raise PyRaise(ExcVal(BadSignature))
    k = ip.fresh("unpacking_key", V)
    kj = trusted(ip, field(ip, args[0], "kj"))
    ip.fact(z3.And(V.is_s(s), SIG(s, k), kj(PAIR(get(PAYLOAD(s), ISS), k))))
    ip.assumptions.add("JWT(key_jar).unpack returns the content only if the signature verifies with a key the key jar holds for its issuer, else raises")
    t = PAYLOAD(s)
    ip.fact(isdict(t))
    return SV(t, TAEC)


def keyjar_new(ip, args, kw):
    if args or kw:
        raise Unsupported("KeyJar with arguments")
    return jar(ip, "new keyjar", lambda q: z3.BoolVal(False))


def setup_delegation(ip):
    m, ta = ip.fresh_v("trust_mark", MARK), ip.fresh_v("trust_anchor", StrS())
    kj0 = z3.Function("initially_trusted", V, B)
    ip.KJ = jar(ip, "keyjar", lambda q: kj0(q))
    ip.FED = obj(ip, GhostEntity, {}, "federation_entity")
    d = get(m.t, DEL)
    ip.fact(z3.And(isdict(m.t), *[z3.And(has(m.t, k), V.is_s(get(m.t, k))) for k in (SUB, ISS, ID, DEL)], isdict(PAYLOAD(d))))
    return [obj(ip, tmv.TrustMarkVerifier, {}), m, ta], {}, {"m": m.t, "ta": ta.t, "kj0": kj0, "d": d}


def post_delegation(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only what refuses the delegation", not issubclass(comp[1].cls, CallPrecondition))]
    r = comp[1]
    if r is None:
        return []
    acc, m, d = truthy(ip, r), g["m"], PAYLOAD(g["d"])
    k = z3.Const("k", V)
    conf = PAYLOAD(CFG(g["ta"]))
    owners = get(get(get(conf, META), FENT), OWNERS)
    owner = get(owners, get(m, ID))
    return [("what the trust anchor has signed with a key it is known by", z3.Implies(acc, EX([k], z3.And(SIG(CFG(g["ta"]), k), g["kj0"](PAIR(get(conf, ISS), k))), SIG(CFG(g["ta"]), k)))),
            ("the trust anchor names an owner of the mark", z3.Implies(acc, has(owners, get(m, ID)))),
            ("the trust anchor allows issuers of the mark", z3.Implies(acc, has(get(get(get(conf, META), FENT), ISSUERS), get(m, ID)))),
            ("it names the mark", z3.Implies(acc, get(d, ID) == get(m, ID))),
            ("it names the mark's issuer", z3.Implies(acc, get(d, SUB) == get(m, ISS))),
            ("it is issued by the owner", z3.Implies(acc, get(d, ISS) == get(owner, SUB))),
            ("and signed with the owner's key as the trust anchor declares it", z3.Implies(acc, EX([k], z3.And(SIG(g["d"], k), INJWKS(k, get(owner, JWKS))), SIG(g["d"], k)))),
            ("what is reported is the delegation", z3.Implies(acc, ip.to_v(r) == d))]


# ---- FederationEntity.verify_trust_mark: asking the issuer
ENTITY = "fedservice.entity"
VALID = z3.Function("trust_mark_verifies", V, V, B)    # TrustMarkVerifier.__call__ accepts it for an anchor
TCHAINS = z3.Function("trust_chains_of", V, V)
METADATA = lambda tc: attr(tc, z3.IntVal(intern(".metadata")))
TCM = ObjS(TrustChain, {"anchor": StrS(), "metadata": DictS({"federation_entity": DictS({"federation_trust_mark_status_endpoint": StrS()})})})
STATUS = S("federation_trust_mark_status_endpoint")


class GhostVerifier:
    def __call__(self, trust_mark, trust_anchor, check_status=False, entity_id=""): pass


def verifier_contract(ip, args, kw):
    b = bind(ip, tmv.TrustMarkVerifier.__call__, args, kw)
    s, ta = ip.to_v(b["trust_mark"]), ip.to_v(b["trust_anchor"])
    if ip.branch(z3.Bool(ip.fresh_name("verification_raises"))):
        raise PyRaise(ExcVal(BadSignature))
    if not ip.branch(VALID(s, ta)):
        return None
    m = PAYLOAD(s)
    ip.fact(z3.And(isdict(m), length(m) > 0, *[z3.And(has(m, k), V.is_s(get(m, k))) for k in (SUB, ISS, ID)]))
    return SV(m, MARK)


def trust_chains_contract(ip, args, kw):
    if len(args) != 2 or kw:
        raise Unsupported("get_trust_chains")
    t = TCHAINS(ip.to_v(args[1]))
    tc = at(t, j)
    ip.fact(z3.And(islist(t), length(t) >= 0, FA([j], z3.Implies(rng(j, length(t)), z3.And(V.is_ref(tc), kind(tc) == K_OBJ)), at(t, j))))
    return SV(t, ListS(TCM))


def request_contract(ip, args, kw):
    if len(args) != 2 or set(kw) - {"request_args", "fetch_endpoint"}:
        raise Unsupported("do_request with other arguments")
    ra = kw["request_args"]
    record(ip, "request", args[1], pb.getitem(ip, ra, "sub"), pb.getitem(ip, ra, "trust_mark_id"), kw["fetch_endpoint"])
    if ip.branch(z3.Bool(ip.fresh_name("request_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    r = ip.fresh_v("response", DictS({"active": BoolS()}))
    ip.fact(z3.And(isdict(r.t), z3.Implies(has(r.t, S("active")), V.is_b(get(r.t, S("active"))))))
    record(ip, "response", r)
    return r


def setup_entity(ip):
    from fedservice.entity import FederationEntity
    recorder(ip)
    s = ip.fresh_v("trust_mark", StrS())
    ip.fact(z3.And(z3.Function("is_jws", V, B)(s.t), has(PAYLOAD(s.t), ISS)))
    check = SB(z3.Bool("check_with_issuer"))
    ip.input_names |= {"check_with_issuer"}
    ver = obj(ip, GhostVerifier, {}, "verifier")
    me = obj(ip, FederationEntity, {"function": obj(ip, None, {"trust_mark_verifier": ver}, "function")}, "federation_entity")
    return [me, s, check], {}, {"s": s.t, "check": check.t}


def post_entity(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only what refuses the mark", not issubclass(comp[1].cls, CallPrecondition))]
    r = comp[1]
    if r is None:
        return []
    acc, m = truthy(ip, r), PAYLOAD(g["s"])
    cs = TCHAINS(get(m, ISS))
    req, rsp = recorded(ip, "request"), recorded(ip, "response")
    yes = z3.Or([z3.And(q[0] == S("trust_mark_status"), q[1] == get(m, SUB), q[2] == get(m, ID), has(r_[0], S("active")), get(r_[0], S("active")) == S(True),
                        EX([j], z3.And(rng(j, length(cs)), q[3] == get(get(METADATA(at(cs, j)), FENT), STATUS)), at(cs, j))) for q, r_ in zip(req, rsp)])
    return [("verified for the anchor of a trust chain of its issuer", z3.Implies(acc, EX([j], z3.And(rng(j, length(cs)), VALID(g["s"], ANCHOR(at(cs, j)))), at(cs, j)))),
            ("what is reported is the mark's content", z3.Implies(acc, ip.to_v(r) == m)),
            ("when the issuer is asked, it says the mark is active", z3.Implies(z3.And(acc, g["check"]), yes))]


# ---- FederationEntity.get_trust_chains: what is kept for an entity was verified for that entity
VERIFIEDFOR = z3.Function("verified_trust_chains_of", V, V, B)


def get_verified_contract(ip, args, kw):
    from fedservice.entity import function as fn
    b = bind(ip, fn.get_verified_trust_chains, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("collection_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    t = ip.fresh("trust_chains", V)
    ip.fact(z3.And(islist(t), length(t) >= 0, VERIFIEDFOR(t, ip.to_v(b["entity_id"]))))
    return SV(t, ListS(TCM))


def setup_kept(ip):
    from fedservice.entity import FederationEntity
    d = ip.fresh_v("trust_chain", DictS({}, ListS(TCM)))
    ip.fact(FA([x], z3.Implies(has(d.t, x), z3.And(islist(get(d.t, x)), VERIFIEDFOR(get(d.t, x), x))), has(d.t, x)))
    me = obj(ip, FederationEntity, {"trust_chain": ip.alloc(DDict(d.t, (), d.shape))}, "federation_entity")
    e = ip.fresh_v("entity_id", StrS())
    return [me, e], {}, {"me": me, "e": e.t, "d": d.t}


def post_kept(ip, g, comp):
    d = ip.to_v(ip.heap[g["me"].id].fields["trust_chain"])
    kept = ("what is kept for an entity was verified for that entity", FA([x], z3.Implies(has(d, x), VERIFIEDFOR(get(d, x), x)), has(d, x)))
    rest = ("what is kept for others stays", FA([x], z3.Implies(z3.And(x != g["e"], has(g["d"], x)), z3.And(has(d, x), get(d, x) == get(g["d"], x))), has(g["d"], x)))
    if comp[0] == "raise":
        return [("raises only what the collection raises", issubclass(comp[1].cls, MissingKey)), kept, rest]
    r = ip.to_v(comp[1])
    return [("verified trust chains of the entity, or none", z3.Or(length(r) == 0, VERIFIEDFOR(r, g["e"]))), kept, rest]


FE = {m_ + ".get_federation_entity": lambda ip, a, k: ip.FED for m_ in (MOD, "fedservice.entity.utils")}
COMMON = {"cryptojwt.utils.as_unicode": lambda ip, a, kw: a[0], **MSG, **FE, "cryptojwt.jws.jws.factory": factory_contract, G + "JWT.payload": jwt_payload, G + "KeyJar.get_jwt_verify_keys": verify_keys,
          G + "JWS.verify_compact": verify_compact, "idpyoidc.key_import.import_jwks": import_jwks, "sitecustomize.import_jwks": import_jwks, G + "Entity.get_attribute": get_attribute,
          "cryptojwt.jwt.utc_time_sans_frac": lambda ip, a, kw: SI(NOW), "time.time": lambda ip, a, kw: SI(NOW)}
MARKS = {**COMMON, "fedservice.message.TrustMark": message_class(verify=mark_verify, shape=MARK), T + "verify_delegation": delegation_contract,
         "fedservice.entity.function.get_verified_trust_chains": chains_contract, "fedservice.entity.function.apply_policies": policies_contract}
DELEGATIONS = {**COMMON, "fedservice.entity.function.collect_trust_chains": collect_contract, "cryptojwt.jwt.JWT": jwt_contract, G + "Unpacker.unpack": unpack,
               "cryptojwt.key_jar.KeyJar": keyjar_new}
ASK = {**COMMON, G + "Verifier.__call__": verifier_contract, ENTITY + ".FederationEntity.get_trust_chains": trust_chains_contract,
       ENTITY + ".FederationEntity.do_request": request_contract}

CONTRACTS = [
    Contract("TrustMarkVerifier.__call__", MOD + ":TrustMarkVerifier.__call__", setup_mark, post_mark, contracts=MARKS, axioms=pairs),
    Contract("TrustMarkVerifier.verify_delegation", MOD + ":TrustMarkVerifier.verify_delegation", setup_delegation, post_delegation, contracts=DELEGATIONS, axioms=pairs),
    Contract("FederationEntity.verify_trust_mark", ENTITY + ":FederationEntity.verify_trust_mark", setup_entity, post_entity, contracts=ASK),
    Contract("FederationEntity.get_trust_chains", ENTITY + ":FederationEntity.get_trust_chains", setup_kept, post_kept,
             contracts={"fedservice.entity.function.get_verified_trust_chains": get_verified_contract}),
]

from . import C15 as _c15                                                            # noqa: E402
CONTRACTS += [c for c in _c15.CONTRACTS if c.name == "TrustMark.verify"]
