"""verify_self_signed_signature (both copies): what C18 and C19 rely on."""
from .C10 import *
from . import C10

VAL = DictS({"iss": StrS(), "sub": StrS(), "jwks": DictS()})
IN = z3.Function("jar_knows", V, B)


class GhostJar:
    def __contains__(self, iss): pass


def new_jar(ip, args, kw):
    if args or kw:
        raise Unsupported("KeyJar with arguments")
    return obj(ip, GhostJar, {"trusted": ip.alloc(SSet(lambda q: z3.BoolVal(False), None))}, "new keyjar")


def jar_contains(ip, args, kw):
    # an issuer without keys is not in the key jar
    return bool(ip.branch(EX([x], trusted(ip, args[0])(PAIR(ip.to_v(args[1]), x)))))


def unpack_self(ip, args, kw):
    s = ip.to_v(args[1])
    if not ip.branch(z3.Bool(ip.fresh_name("unpacks"))):
        raise PyRaise(ExcVal(BadSignature))
    k = ip.fresh("unpacking_key", V)
    kj = trusted(ip, field(ip, args[0], "kj"))
    ip.fact(z3.And(SIG(s, k), kj(PAIR(get(PAYLOAD(s), ISS), k))))
    ip.assumptions.add("JWT(key_jar).unpack returns the content only if the signature verifies with a key the key jar holds for its issuer, else raises")
    return ip.alloc(DDict(PAYLOAD(s), (), VAL))


def setup(ip):
    s = ip.fresh_v("statement", StrS())
    t = PAYLOAD(s.t)
    ip.fact(z3.And(V.is_s(s.t), isdict(t), *[z3.Implies(has(t, k), V.is_s(get(t, k))) for k in (SUB, ISS)]))
    return [s], {}, {"s": s.t}


def post(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only what refuses the statement", not issubclass(comp[1].cls, CallPrecondition))]
    k = z3.Const("k", V)
    p = PAYLOAD(g["s"])
    h, gt = ip.dict_fns(ip.heap[comp[1].id]) if isinstance(comp[1], Ref) else (lambda q: has(ip.to_v(comp[1]), q), lambda q: get(ip.to_v(comp[1]), q))
    return [("what is returned is the statement's content", FA([x], z3.Implies(x != S("_jws"), z3.And(h(x) == has(p, x), z3.Implies(has(p, x), gt(x) == get(p, x)))))),
            ("and possibly the statement itself", z3.Implies(h(S("_jws")), z3.Or(gt(S("_jws")) == g["s"], z3.And(has(p, S("_jws")), gt(S("_jws")) == get(p, S("_jws")))))),
            ("it is signed with one of the keys it states itself", EX([k], z3.And(SIG(g["s"], k), INJWKS(k, get(p, JWKS))), SIG(g["s"], k)))]


def payload_contract(ip, args, kw):
    d = jwt_payload(ip, args, kw)
    return ip.alloc(DDict(d.t, (), VAL))


W = {**COMMON, G + "JWT.payload": payload_contract, "cryptojwt.jwt.JWT": jwt_contract, G + "Unpacker.unpack": unpack_self, "cryptojwt.key_jar.KeyJar": new_jar,
     "contracts.selfsigned.GhostJar.__contains__": jar_contains}
FUN = "fedservice.entity.function"
SELF_SIGNED = [Contract(f"verify_self_signed_signature ({n})", m + ":verify_self_signed_signature", setup, post, contracts=W, axioms=pairs)
               for n, m in (("function", FUN), ("collector", FUN + ".trust_chain_collector"))]
