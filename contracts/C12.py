"""C12 - what an issued trust mark says, and what the status and listing endpoints answer, by the contracts of the database (C11)."""
from .common import *
from cryptojwt.exception import BadSignature
from fedservice.trust_mark_entity import entity as tme
from fedservice.trust_mark_entity.server import trust_mark as tm_ep
from fedservice.trust_mark_entity.server import trust_mark_list, trust_mark_status

x, y = z3.Consts("x y", V)
ENT = "fedservice.trust_mark_entity.entity"
SRV = "fedservice.trust_mark_entity.server."
T = ENT + ".TrustMarkEntity."
NOW = z3.Int("now")
ID, SUB, ISS, IAT, EXP = (S(a) for a in ("id", "sub", "iss", "iat", "exp"))
FOUND = z3.Function("mark_in_force", V, V, B)          # C11: recorded as issued, the latest one not expired
SUBJECTS = z3.Function("subjects_with_mark", V, V)     # C11: listing of the database
PACKED = z3.Function("signed", V, V, V)                # issuer, content
JSON = z3.Function("json_of", V, V)
CLOCK = {"cryptojwt.jwt.utc_time_sans_frac": lambda ip, a, kw: SI(NOW), "time.time": lambda ip, a, kw: SI(NOW)}


class GhostDB:
    def add(self, tm_info): pass
    def find(self, trust_mark_id, sub, iat=0): pass
    def list(self, trust_mark_id): pass


class GhostPacker:
    def pack(self, payload=None, **kw): pass
    def unpack(self, token): pass


G = "contracts.C12.Ghost"


def db_add(ip, args, kw):
    b = bind(ip, GhostDB.add, args, kw)
    record(ip, "issued", b["tm_info"])


def db_find(ip, args, kw):
    b = bind(ip, GhostDB.find, args, kw)
    require(ip, ip.to_v(b["iat"]) == S(0))
    return SB(FOUND(ip.to_v(b["trust_mark_id"]), ip.to_v(b["sub"])))


def db_list(ip, args, kw):
    b = bind(ip, GhostDB.list, args, kw)
    t = SUBJECTS(ip.to_v(b["trust_mark_id"]))
    ip.fact(z3.And(islist(t), length(t) >= 0))
    return SV(t, ListS(StrS()))


def jwt_contract(ip, args, kw):
    if args or set(kw) - {"key_jar", "iss", "msg_cls", "allowed_sign_algs"}:
        raise Unsupported("JWT with other arguments")
    return obj(ip, GhostPacker, {"iss": kw.get("iss"), "kj": kw["key_jar"]}, "packer")


def pack(ip, args, kw):
    b = bind(ip, GhostPacker.pack, args, kw)
    f = ip.heap[args[0].id].fields
    if b["extra"]:
        raise Unsupported("pack with other arguments")
    require(ip, z3.BoolVal(f["kj"] is ip.KJ))
    record(ip, "signed", f["iss"], b["payload"])
    ip.assumptions.add("JWT(key_jar, iss).pack gives a mark with the payload, in the issuer's name, signed with the issuer's key")
    return SV(PACKED(ip.to_v(f["iss"]), ip.to_v(b["payload"])), StrS())


def entity(ip, fields=None):
    e = ip.fresh_v("entity_id", StrS())
    ip.KJ = obj(ip, None, {}, "keyjar")
    ip.FED = obj(ip, None, {"keyjar": ip.KJ, "entity_id": e}, "federation_entity")

    def up(ip, args, kw):
        if list(args) == ["attribute", "entity_id"]:
            return e
        if list(args) == ["attribute", "keyjar"]:
            return ip.KJ
        if list(args) == ["unit"]:
            return ip.FED
        raise Unsupported("upstream_get")
    me = obj(ip, tme.TrustMarkEntity, {"issued": obj(ip, GhostDB, {}, "issued"), "entity_id": e, "upstream_get": Ext("upstream_get", up), **(fields or {})}, "trust_mark_entity")
    return me, e.t


# ---- issuing
def setup_create(own):
    def f(ip):
        recorder(ip)
        spec = ip.fresh_v("specification", DictS({}, DictS()))
        life = ip.fresh_v("lifetimes", DictS({}, IntS()))
        id_, sub, more = ip.fresh_v("id", StrS()), ip.fresh_v("sub", StrS()), ip.fresh_v("claims", DictS())
        ip.fact(z3.And(*[z3.Not(has(more.t, k)) for k in (ID, SUB, IAT, EXP, ISS)]))
        ip.fact(FA([x], z3.Implies(has(spec.t, x), z3.And(isdict(get(spec.t, x)), z3.Not(has(get(spec.t, x), EXP)))), has(spec.t, x)))
        ip.fact(FA([x], z3.Implies(has(life.t, x), V.is_i(get(life.t, x))), has(life.t, x)))
        if own:
            marks = ip.alloc(LList(None, []))
            me, e = entity(ip)
            lt = SI(z3.Int("lifetime"))
            ip.input_names |= {"lifetime"}
            h = ip.heap[me.id].fields
            ip.heap[ip.FED.id] = HObj(None, {**ip.heap[ip.FED.id].fields, "context": obj(ip, None, {"trust_marks": marks}, "context")}, "federation_entity", False)
            me = obj(ip, tme.SelfSignedTrustMarkEntity, {"trust_mark_specification": spec, "tm_lifetime": lt, "issued": ip.alloc(LList(None, [])), "entity_id": h["entity_id"],
                                                          "upstream_get": h["upstream_get"]}, "self_signed")
            return [me, id_], {"**": more}, {"spec": spec.t, "id": id_.t, "sub": e, "more": more.t, "iss": e, "life": (z3.BoolVal(True), lt.t), "marks": marks}
        me, e = entity(ip, {"trust_mark_specification": spec, "tm_lifetime": life})
        return [me, id_, sub], {"**": more}, {"spec": spec.t, "id": id_.t, "sub": sub.t, "more": more.t, "iss": e, "life": (has(life.t, id_.t), V.iv(get(life.t, id_.t)))}
    return f


def post_create(own):
    def f(ip, g, comp):
        iss, sig = recorded(ip, "issued"), recorded(ip, "signed")
        known = has(g["spec"], g["id"])
        if comp[0] == "raise":
            return [("refused exactly when there is no specification", z3.And(z3.BoolVal(issubclass(comp[1].cls, ValueError)), z3.Not(known))),
                    ("nothing is issued when refused", not iss and not sig)]
        r = ip.to_v(comp[1])
        out = [("only issued with a specification", known), ("issued once", len(sig) == 1 and (own or len(iss) == 1))]
        if len(sig) != 1 or len(iss) != (0 if own else 1):
            return out
        c = sig[0][1]
        h, v = g["life"]
        spec = get(g["spec"], g["id"])
        out += [("what is handed out is the signed mark", r == PACKED(g["iss"], c)), ("issued in the issuer's own name", sig[0][0] == g["iss"]),
                ("names the identifier", z3.And(has(c, ID), get(c, ID) == g["id"])), ("names the subject", z3.And(has(c, SUB), get(c, SUB) == g["sub"])),
                ("stamped with the time", z3.And(has(c, IAT), get(c, IAT) == V.i(NOW))),
                ("expires exactly when a lifetime is configured", z3.If(z3.And(h, v != 0), z3.And(has(c, EXP), get(c, EXP) == V.i(NOW + v)), z3.Not(has(c, EXP)))),
                ("carries the specification's claims, and the extra ones", FA([x], z3.Implies(z3.And(*[x != k for k in (ID, SUB, IAT, EXP)]), z3.And(
                    has(c, x) == z3.Or(has(g["more"], x), has(spec, x)), z3.Implies(has(c, x), get(c, x) == z3.If(has(g["more"], x), get(g["more"], x), get(spec, x))))), has(c, x)))]
        if not own:
            out.append(("what is recorded as issued is the mark", FA([x], z3.And(has(iss[0][0], x) == has(c, x), z3.Implies(has(c, x), get(iss[0][0], x) == get(c, x))), has(iss[0][0], x))))
        else:
            m = ip.to_v(g["marks"])
            out.append(("the entity carries the mark from now on", mem(m, r)))
        return out
    return f


# ---- a mark an entity gives itself, or another
def setup_self(ip):
    recorder(ip)
    me, e = entity(ip)
    more = ip.fresh_v("claims", DictS())
    ip.fact(z3.Not(has(more.t, S("self"))))
    return [me], {"**": more}, {"e": e, "more": more.t}


def post_self(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    sig = recorded(ip, "signed")
    out = [("one mark", len(sig) == 1)]
    if len(sig) == 1:
        c, more = sig[0][1], g["more"]
        out += [("what is handed out is the signed mark", ip.to_v(comp[1]) == PACKED(g["e"], c)), ("issued in the entity's own name", sig[0][0] == g["e"]),
                ("about the given subject, or the entity itself", z3.And(has(c, SUB), get(c, SUB) == z3.If(has(more, SUB), get(more, SUB), g["e"]))),
                ("the given claims and nothing else", FA([x], z3.Implies(x != SUB, z3.And(has(c, x) == has(more, x), z3.Implies(has(c, x), get(c, x) == get(more, x)))), has(c, x)))]
    return out


# ---- the entity's own questions
def setup_find(ip):
    me, e = entity(ip)
    a, b = ip.fresh_v("trust_mark_id", StrS()), ip.fresh_v("sub", StrS())
    return [me, a, b], {}, {"id": a.t, "sub": b.t}


def post_find(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    return [("found exactly when a mark in force is recorded", truthy(ip, comp[1]) == FOUND(g["id"], g["sub"]))]


def post_list(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    one = g["sub"] != S("")
    r = ip.to_v(comp[1])
    none = V.is_none(r)
    return [("nothing only when the subject has none", z3.Implies(none, z3.And(one, z3.Not(FOUND(g["id"], g["sub"]))))),
            ("the subjects with a recorded mark", z3.Implies(z3.Not(one), r == SUBJECTS(g["id"]))),
            ("or the one asked about", z3.Implies(z3.And(one, z3.Not(none)), z3.And(FOUND(g["id"], g["sub"]), length(r) == 1, at(r, 0) == g["sub"])))]


# ---- unpack_trust_mark
PAYLOAD = z3.Function("payload", V, V)
OKSIG = z3.Function("signed_by_known_key", V, B)
OKMARK = z3.Function("complete_mark", V, V, B)          # content, the entity it must be about ("" = any)
MARK = DictS({"sub": StrS(), "iss": StrS(), "id": StrS()}, None, ["sub", "iss", "id"])


def mark_verify(ip, args, kw):
    if set(kw) - {"entity_id"}:
        raise Unsupported("verify of a trust mark with other arguments")
    e = ip.to_v(kw.get("entity_id", ""))
    d = ip.to_v(msg_d(ip, args[0]))
    record(ip, "checked", args[0], kw.get("entity_id", ""))
    if not ip.branch(OKMARK(d, e)):
        raise PyRaise(ExcVal(ValueError))
    return True


def unpack(ip, args, kw):
    s = ip.to_v(args[1])
    require(ip, z3.BoolVal(ip.heap[args[0].id].fields["kj"] is ip.KJ))
    if not ip.branch(OKSIG(s)):
        raise PyRaise(ExcVal(BadSignature))
    ip.assumptions.add("JWT(key_jar).unpack returns the content only if the signature verifies with a key of its issuer in the key jar, else raises")
    ip.fact(z3.And(isdict(PAYLOAD(s)), *[z3.And(has(PAYLOAD(s), k), V.is_s(get(PAYLOAD(s), k))) for k in (SUB, ISS, ID)]))
    ip.MARK = message(ip, SV(PAYLOAD(s), MARK), verify=mark_verify)
    return ip.MARK


def setup_unpack(ip):
    recorder(ip)
    me, e = entity(ip)
    s, ent = ip.fresh_v("token", StrS()), ip.fresh_v("about", StrS())
    return [me, s, ent], {}, {"s": s.t, "e": ent.t}


def post_unpack(ip, g, comp):
    ok = z3.And(OKSIG(g["s"]), OKMARK(PAYLOAD(g["s"]), g["e"]))
    if comp[0] == "raise":
        return [("refused only when it does not verify", z3.And(z3.BoolVal(not issubclass(comp[1].cls, CallPrecondition)), z3.Not(ok)))]
    return [("only what verifies, about the entity asked about", ok), ("it is the content", ip.to_v(msg_d(ip, comp[1])) == PAYLOAD(g["s"]))]


# ---- endpoints
ERR = z3.Const("error_response", V)


def find_contract(ip, args, kw):
    b = bind(ip, tme.TrustMarkEntity.find, args, kw)
    require(ip, ip.to_v(b["iat"]) == S(0))
    return SB(FOUND(ip.to_v(b["trust_mark_id"]), ip.to_v(b["sub"])))


def list_contract(ip, args, kw):
    b = bind(ip, tme.TrustMarkEntity.list, args, kw)
    require(ip, ip.to_v(b["sub"]) == S(""))
    t = SUBJECTS(ip.to_v(b["trust_mark_id"]))
    ip.fact(z3.And(islist(t), length(t) >= 0))
    return SV(t, ListS(StrS()))


def unpack_contract(ip, args, kw):
    b = bind(ip, tme.TrustMarkEntity.unpack_trust_mark, args, kw)
    require(ip, ip.to_v(b["entity_id"]) == S(""))
    s = ip.to_v(b["token"])
    ok = z3.And(OKSIG(s), OKMARK(PAYLOAD(s), S("")))
    if not ip.branch(ok):
        raise PyRaise(ExcVal(BadSignature))
    ip.fact(z3.And(isdict(PAYLOAD(s)), *[z3.And(has(PAYLOAD(s), k), V.is_s(get(PAYLOAD(s), k))) for k in (SUB, ISS, ID)]))
    return message(ip, SV(PAYLOAD(s), MARK))


def create_contract(ip, args, kw):
    b = bind(ip, tme.TrustMarkEntity.create_trust_mark, args, kw)
    if b.get("**") is not None or b["extra"]:
        raise Unsupported("extra claims")
    if ip.branch(z3.Bool(ip.fresh_name("no_specification"))):
        raise PyRaise(ExcVal(ValueError))
    return SV(z3.Function("issued_mark", V, V, V)(ip.to_v(b["id"]), ip.to_v(b["sub"])), StrS())


REQUEST = DictS({"trust_mark": StrS(), "sub": StrS(), "trust_mark_id": StrS(), "id": StrS()})


def setup_endpoint(cls):
    def f(ip):
        me, e = entity(ip)
        q = ip.fresh_v("request", REQUEST)
        ip.fact(z3.And(*[z3.Implies(has(q.t, S(k)), V.is_s(get(q.t, S(k)))) for k in REQUEST.fields]))

        def up(ip, args, kw):
            if list(args) == ["unit"]:
                return me
            raise Unsupported("upstream_get")
        ep = obj(ip, cls, {"upstream_get": Ext("upstream_get", up), "error_cls": Ext("error_cls", lambda ip, a, kw: SV(ERR, ObjS(None, {})))}, "endpoint")
        return [ep, message(ip, q)], {}, {"q": q.t, "e": e}
    return f


def isactive(ip, r):
    if isinstance(r, SV):
        return False
    ra = pb.getitem(ip, r, "response_args")
    return ip.to_v(pb.getitem(ip, ra, "active")) == S(True)


def post_status(ip, g, comp):
    q = g["q"]
    h = lambda k: has(q, S(k))
    v = lambda k: get(q, S(k))
    m = PAYLOAD(v("trust_mark"))
    okm = z3.And(OKSIG(v("trust_mark")), OKMARK(m, S("")))
    if comp[0] == "raise":
        return [("raises only for a mark that does not verify", z3.And(z3.BoolVal(not issubclass(comp[1].cls, CallPrecondition)), h("trust_mark"), z3.Not(okm)))]
    ident = z3.If(h("trust_mark_id"), v("trust_mark_id"), v("id"))
    should = z3.If(h("trust_mark"), z3.And(okm, get(m, ISS) == g["e"], FOUND(get(m, ID), get(m, SUB))),
                   z3.And(h("sub"), z3.Or(h("trust_mark_id"), h("id")), FOUND(ident, v("sub"))))
    r = comp[1]
    if isinstance(r, SV):
        return [("not active is answered only when no mark in force is recorded", z3.Not(z3.And(should, z3.Or(h("trust_mark"), ident != S("")))))]
    return [("active is answered only when a mark in force is recorded", z3.And(should, isactive(ip, r)))]


def post_listing(ip, g, comp):
    q = g["q"]
    h = lambda k: has(q, S(k))
    v = lambda k: get(q, S(k))
    if comp[0] == "raise":
        return [("no exception", False)]
    r = comp[1]
    one = z3.And(h("sub"), h("trust_mark_id"))
    some = z3.If(one, FOUND(v("trust_mark_id"), v("sub")), z3.And(h("trust_mark_id"), length(SUBJECTS(v("trust_mark_id"))) > 0))
    if isinstance(r, SV):
        return [("nothing is answered only when there is nothing", z3.Not(some))]
    rm = ip.to_v(pb.getitem(ip, r, "response_msg"))
    l = z3.Function("list_in", V, V)(rm)
    return [("only when there is something", some),
            ("all subjects with a recorded mark", z3.Implies(z3.Not(one), l == SUBJECTS(v("trust_mark_id")))),
            ("or the subject asked about", z3.Implies(one, z3.And(length(l) == 1, at(l, 0) == v("sub"))))]


def dumps(ip, args, kw):
    t = ip.to_v(args[0])
    ip.fact(z3.Function("list_in", V, V)(JSON(t)) == t)
    return SV(JSON(t), StrS())


def post_mark(ip, g, comp):
    q = g["q"]
    if comp[0] == "raise":
        return [("refused only when there is no specification", issubclass(comp[1].cls, ValueError))]
    r = ip.to_v(pb.getitem(ip, comp[1], "http_response"))
    v = lambda k: z3.If(has(q, S(k)), get(q, S(k)), V.none)
    return [("the mark issued for the identifier and subject asked for", r == z3.Function("issued_mark", V, V, V)(v("trust_mark_id"), v("sub")))]


FE = {m + ".get_federation_entity": lambda ip, a, k: ip.FED for m in (ENT, "fedservice.entity.utils")}
EC = {**MSG, **CLOCK, **FE, G + "DB.add": db_add, G + "DB.find": db_find, G + "DB.list": db_list, G + "Packer.pack": pack, G + "Packer.unpack": unpack,
      "cryptojwt.jwt.JWT": jwt_contract}
SC = {**MSG, T + "find": find_contract, T + "list": list_contract, T + "unpack_trust_mark": unpack_contract, T + "create_trust_mark": create_contract,
      "json.dumps": dumps}

CONTRACTS = [
    Contract("TrustMarkEntity.create_trust_mark", ENT + ":TrustMarkEntity.create_trust_mark", setup_create(False), post_create(False), contracts=EC),
    Contract("SelfSignedTrustMarkEntity.__call__", ENT + ":SelfSignedTrustMarkEntity.__call__", setup_create(True), post_create(True), contracts=EC),
    Contract("TrustMarkEntity.self_signed_trust_mark", ENT + ":TrustMarkEntity.self_signed_trust_mark", setup_self, post_self, contracts=EC),
    Contract("TrustMarkEntity.find", ENT + ":TrustMarkEntity.find", setup_find, post_find, contracts=EC),
    Contract("TrustMarkEntity.list", ENT + ":TrustMarkEntity.list", setup_find, post_list, contracts={**EC, T + "find": find_contract}),
    Contract("TrustMarkEntity.unpack_trust_mark", ENT + ":TrustMarkEntity.unpack_trust_mark", setup_unpack, post_unpack, contracts=EC),
    Contract("TrustMarkStatus.process_request", SRV + "trust_mark_status:TrustMarkStatus.process_request", setup_endpoint(trust_mark_status.TrustMarkStatus), post_status, contracts=SC),
    Contract("TrustMarkList.process_request", SRV + "trust_mark_list:TrustMarkList.process_request", setup_endpoint(trust_mark_list.TrustMarkList), post_listing, contracts=SC),
    Contract("TrustMark.process_request", SRV + "trust_mark:TrustMark.process_request", setup_endpoint(tm_ep.TrustMark), post_mark, contracts=SC),
]
