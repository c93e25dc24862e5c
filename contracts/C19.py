"""C19 - an explicit registration response: who may have sent it, and what the client takes from it."""
from .common import *
from cryptojwt.exception import BadSignature, MissingKey
from fedservice.appclient.oauth2 import registration as cl2
from fedservice.appclient.oidc import registration as clo
from fedservice.entity import function as fn
from fedservice.entity.function import PolicyError
from fedservice.entity_statement.statement import TrustChain
from idpyoidc.client.exception import ResponseError

c = z3.Const("c", V)
j = z3.Int("jj")
ANCHOR = lambda tc: attr(tc, z3.IntVal(intern(".anchor")))
TCS = ObjS(TrustChain, {"anchor": StrS()})
COL, LEAF = z3.Function("collected_chains", V, V, V), z3.Function("leaf_configuration", V, V, V)
ABOUT = z3.Function("verified_trust_chain_about", V, V, B)
APPLIED = z3.Function("metadata_held_to_the_policies_of", V, V, V)
TA, META, ISS = S("trust_anchor_id"), S("metadata"), S("iss")
NONE = S(None)
CLIENTS = [("oidc", clo, "openid_relying_party"), ("oauth2", cl2, None)]


class GhostFed:
    def get_function(self, name): pass
    def get_attribute(self, name): pass


class GhostJWT:
    def unpack(self, token): pass


class GhostKeyJar:
    pass


def fails(ip, what, exc):
    if ip.branch(z3.Bool(ip.fresh_name(what))):
        raise PyRaise(ExcVal(exc))


def stop(ip, b):
    return ip.to_v(b["stop_at"]) if b["stop_at"] is not None else S("")


def collect_contract(ip, args, kw):
    b = bind(ip, fn.collect_trust_chains, args, kw)
    require(ip, z3.BoolVal(b["authority_hints"] is None and b["signed_entity_configuration"] == ""))
    fails(ip, "collection_fails", MissingKey)
    e, a = ip.to_v(b["entity_id"]), stop(ip, b)
    t = COL(e, a)
    ip.fact(z3.And(islist(t), length(t) >= 0))
    return (SV(t, ListS(ListS(StrS()))), SV(LEAF(e, a), OptS(StrS())))


def chain_list(ip, fact):
    t = ip.fresh("verified", V)
    tc = at(t, j)
    ip.fact(z3.And(islist(t), length(t) >= 0, FA([j], z3.Implies(rng(j, length(t)), z3.And(V.is_ref(tc), kind(tc) == K_OBJ, V.is_s(ANCHOR(tc)), fact(tc))), at(t, j))))
    return SV(t, ListS(TCS))


# ---- does the issuer have a verified chain to the anchor
def verify_issuer_contract(ip, args, kw):
    """C03: the chains, among those collected for an entity, that verify"""
    if kw or len(args) != 2:
        raise Unsupported("verify_trust_chains")
    require(ip, z3.BoolVal(args[0].id == ip.FED.id))
    fails(ip, "verification_fails", MissingKey)
    ch = ip.to_v(args[1])
    e, a = ip.WHO
    return chain_list(ip, lambda tc: z3.Implies(z3.Or(ch == COL(e, a), ch == COL(e, S(""))), ABOUT(tc, e)))


def setup_signature(mod):
    def setup(ip):
        e, a = ip.fresh_v("issuer", StrS()), ip.fresh_v("anchor", StrS())
        ip.WHO = (e.t, a.t)
        ip.FED = fed = obj(ip, GhostFed, {}, "federation_entity")
        unit = obj(ip, None, {}, "unit")
        me = obj(ip, mod.Registration, {"upstream_get": Ext("upstream_get", lambda ip, a, k: unit)}, "service")
        return [me, e, a, fed], {}, {"e": e.t, "a": a.t}
    return setup


def post_signature(ip, g, comp):
    if comp[0] == "raise":
        return [("refused", not issubclass(comp[1].cls, CallPrecondition))]
    return [("an issuer passes only with a verified trust chain of its own to the anchor",
             z3.Implies(truthy(ip, comp[1]), EX([c], z3.And(ABOUT(c, g["e"]), ANCHOR(c) == g["a"]), ANCHOR(c))))]


# ---- the response
def self_signed_contract(ip, args, kw):
    """C01: the payload, if the statement is signed with a key it carries itself"""
    fails(ip, "not_self_signed", BadSignature)
    record(ip, "payload", args[0])
    return ip.PAYLOAD


def issuer_contract(ip, args, kw):
    b = bind(ip, clo.Registration._signature_verifies, args, kw)
    fails(ip, "issuer_collection_fails", MissingKey)
    ok = z3.Bool(ip.fresh_name("issuer_verifies"))
    record(ip, "issuer", b["entity_id"], b["trust_anchor"], SB(ok))
    return SB(ok)


def one_chain(ip, leaf_metadata, applied):
    """a chain of mine: the statements above, and the leaf"""
    up = ip.fresh("statements_above", V)
    ip.fact(z3.And(islist(up), length(up) >= 1))
    leaf = ip.fresh_v("leaf", DictS({"metadata": DictS()}))
    ip.fact(z3.And(isdict(leaf.t), has(leaf.t, META), get(leaf.t, META) == leaf_metadata))
    lf = ip.alloc(DDict(leaf.t, (), leaf.shape))
    base = Seq(length(up), lambda i: SV(at(up, i), DictS()))
    vc = ip.alloc(LList(base, (lf,)))
    md = SV(APPLIED(up, leaf_metadata), DictS({}, DictS())) if applied else None
    tc = obj(ip, TrustChain, {"verified_chain": vc, "metadata": md, "anchor": ip.fresh_v("my_anchor", StrS()), "_one": (vc, base, lf, up)}, "my_chain")
    record(ip, "chain", tc, SV(up), SV(leaf_metadata))
    return tc


def chains(ip, leaf_metadata, applied):
    if ip.branch(z3.Bool(ip.fresh_name("no_chain"))):
        return ip.listref([])
    if ip.branch(z3.Bool(ip.fresh_name("several_chains"))):
        v = chain_list(ip, lambda tc: z3.BoolVal(True))
        ip.fact(length(v.t) >= 2)
        return v
    return ip.listref([one_chain(ip, leaf_metadata, applied)])


def verify_mine_contract(ip, args, kw):
    if kw or len(args) not in (2, 3):
        raise Unsupported("verify_trust_chains")
    fails(ip, "verification_fails", MissingKey)
    mine = z3.Or(*[ip.to_v(args[1]) == COL(ip.ME, a) for a in (ip.ANCHOR, S(""))])
    require(ip, mine)
    if len(args) == 3:
        record(ip, "vouched", args[2])
        m = get(ip.P, META)
    else:
        m = ip.fresh("metadata_of_mine", V)
    return chains(ip, m, False)


def get_verified_contract(ip, args, kw):
    b = bind(ip, fn.get_verified_trust_chains, args, kw)
    fails(ip, "verification_fails", MissingKey)
    require(ip, ip.to_v(b["entity_id"]) == ip.ME)
    return chains(ip, ip.fresh("metadata_of_mine", V), True)


def apply_contract(ip, args, kw):
    b = bind(ip, fn.apply_policies, args, kw)
    l = b["trust_chains"]
    content = ip.heap[l.id] if isinstance(l, Ref) else None
    if content is None or content.base is not None or len(content.suffix) != 1:
        raise Unsupported("policies are applied to other chains")
    tc = content.suffix[0]
    o = ip.heap[tc.id]
    vc, base, lf, up = o.fields["_one"]
    lst = ip.heap[vc.id]
    require(ip, z3.BoolVal(o.fields["verified_chain"].id == vc.id and lst.base is base and [getattr(x, "id", None) for x in lst.suffix] == [lf.id]))
    fails(ip, "policies_refuse", PolicyError)
    p, m = ip.dlookup_content(ip.heap[lf.id], "metadata")
    require(ip, ip.zb(p) if not isinstance(p, bool) else z3.BoolVal(p))
    md = APPLIED(up, ip.to_v(m))
    ip.fact(isdict(md))
    ip.heap[tc.id] = HObj(o.cls, {**o.fields, "metadata": SV(md, DictS({}, DictS()))}, o.name, o.strict)
    return ip.listref([tc])


def unpack_contract(ip, args, kw):
    fails(ip, "bad_signature", BadSignature)
    if ip.heap[args[0].id].fields["kj"].id == ip.KEYJAR.id:
        record(ip, "vouched", args[1])
    return ip.fresh_v("unpacked", DictS())


def jwt_contract(ip, args, kw):
    return obj(ip, GhostJWT, {"kj": kw.get("key_jar", args[0] if args else None)}, "jwt")


def setup_parse(mod):
    def setup(ip):
        recorder(ip)
        resp = ip.fresh_v("response", StrS())
        p = ip.fresh_v("payload", DictS({"iss": StrS(), "trust_anchor_id": StrS(), "metadata": DictS({}, DictS())}))
        ta = ip.fresh_v("trust_anchors", DictS({}, DictS()))
        own = ip.fresh_v("entity_id", StrS())
        ip.fact(z3.And(isdict(p.t), isdict(ta.t), z3.Implies(has(p.t, META), isdict(get(p.t, META)))))
        ip.PAYLOAD, ip.P, ip.ME, ip.ANCHOR = p, p.t, own.t, get(p.t, TA)
        ip.KEYJAR = obj(ip, GhostKeyJar, {}, "keyjar")
        tcc = obj(ip, None, {"trust_anchors": ta}, "collector")
        fed = obj(ip, GhostFed, {"function": obj(ip, None, {"trust_chain_collector": tcc}, "function")}, "federation_entity")
        ip.FED = fed
        verifier = z3.Bool("has_metadata_verifier")
        ip.input_names |= {"has_metadata_verifier"}
        ip.HASVERIFIER = verifier
        ctx = obj(ip, None, {"registration_response": None}, "context")
        unit = obj(ip, None, {}, "unit")

        def up(ip, a, k):
            if list(a) == ["context"]:
                return ctx
            if list(a) == ["unit"]:
                return unit
            if list(a) == ["attribute", "entity_id"]:
                return own
            raise Unsupported("upstream_get")
        me = obj(ip, mod.Registration, {"upstream_get": Ext("upstream_get", up)}, "service")
        return [me, resp], {}, {"r": resp.t, "p": p.t, "ta": ta.t, "ctx": ctx, "v": verifier}
    return setup


def get_function(ip, args, kw):
    if args[1] != "metadata_verifier" or not ip.branch(ip.HASVERIFIER):
        return None

    def f(ip, a, k):
        r = ip.fresh_v("verified_elsewhere", OptS(DictS()))
        record(ip, "elsewhere", a[0], r)
        return r
    return Ext("metadata_verifier", f)


def post_parse(etype):
    def post(ip, g, comp):
        stored = ip.heap[g["ctx"].id].fields["registration_response"]
        if comp[0] == "raise":
            return [("refused: nothing is stored", stored is None and not issubclass(comp[1].cls, CallPrecondition))]
        pl, iss, v, el, ch = (recorded(ip, n) for n in ("payload", "issuer", "vouched", "elsewhere", "chain"))
        r, p = ip.to_v(comp[1]), g["p"]
        out = [("signed with the keys it states", z3.Or(*[x[0] == g["r"] for x in pl])),
               ("names a trusted anchor", z3.And(has(p, TA), has(g["ta"], get(p, TA))))]
        if el:
            return out + [("left to the metadata verifier", z3.And(g["v"], el[0][0] == g["r"], z3.Implies(truthy(ip, comp[1]), r == el[0][1])))]
        out += [("the issuer has a verified chain to that anchor", z3.Or(*[z3.And(x[0] == get(p, ISS), x[1] == get(p, TA), x[2] == S(True)) for x in iss])),
                ("signed with a key that was vouched for", z3.Or(*[x[0] == g["r"] for x in v]))]
        if len(ch) != 1:
            return out + [("one chain of my own", False)]
        up, before = ch[0][1], ch[0][2]
        md = z3.If(z3.And(has(p, META), truthy(ip, SV(get(p, META), DictS()))), get(p, META), before)
        res = APPLIED(up, md)
        return out + [("the stated metadata, held to the policies of the superiors", r == (get(res, S(etype)) if etype else res)),
                      ("that is what is stored", z3.BoolVal(stored is not None) if stored is None else ip.to_v(stored) == r)]
    return post


# ---- parse_response
def setup_response(mod):
    def setup(ip):
        recorder(ip)
        me = obj(ip, mod.Registration, {}, "service")
        return [me, ip.fresh_v("response", StrS())], {}, {}
    return setup


def parse_contract(ip, args, kw):
    fails(ip, "refused", ValueError)
    r = ip.fresh_v("parsed", OptS(DictS()))
    record(ip, "parsed", args[1], r)
    return r


def post_response(ip, g, comp):
    ps = recorded(ip, "parsed")
    if comp[0] == "raise":
        return [("refused", not issubclass(comp[1].cls, CallPrecondition))]
    return [("what came out of the response that was received", z3.And(z3.BoolVal(len(ps) == 1), ip.to_v(comp[1]) == ps[0][1], truthy(ip, SV(ps[0][1], OptS(DictS())))) if ps else z3.BoolVal(False))]


CONTRACTS = []
for n, mod, etype in CLIENTS:
    M = mod.__name__
    R = M + ".Registration"
    FE = {M + ".get_federation_entity": lambda ip, a, k: ip.FED, "fedservice.entity.utils.get_federation_entity": lambda ip, a, k: ip.FED}
    CONTRACTS += [
        Contract(f"_signature_verifies ({n})", M + ":Registration._signature_verifies", setup_signature(mod), post_signature,
                 contracts={"fedservice.entity.function.collect_trust_chains": collect_contract, "fedservice.entity.function.verify_trust_chains": verify_issuer_contract}),
        Contract(f"parse_federation_registration_response ({n})", M + ":Registration.parse_federation_registration_response", setup_parse(mod), post_parse(etype),
                 contracts={**FE, "fedservice.entity.function.collect_trust_chains": collect_contract, "fedservice.entity.function.verify_trust_chains": verify_mine_contract,
                            "fedservice.entity.function.get_verified_trust_chains": get_verified_contract, "fedservice.entity.function.apply_policies": apply_contract,
                            "fedservice.entity.function.trust_chain_collector.verify_self_signed_signature": self_signed_contract, "fedservice.entity.function.verify_self_signed_signature": self_signed_contract,
                            R + "._signature_verifies": issuer_contract, "contracts.C19.GhostFed.get_function": get_function,
                            "contracts.C19.GhostFed.get_attribute": lambda ip, a, k: ip.KEYJAR if a[1] == "keyjar" else None,
                            "cryptojwt.jwt.JWT": jwt_contract, "contracts.C19.GhostJWT.unpack": unpack_contract}),
        Contract(f"parse_response ({n})", M + ":Registration.parse_response", setup_response(mod), post_response, contracts={R + ".parse_federation_registration_response": parse_contract}),
    ]

from .selfsigned import SELF_SIGNED    # noqa: E402
CONTRACTS += SELF_SIGNED
