"""C22 - what a created entity statement states.  Signing (cryptojwt's JWT) is a contract that records what it was given."""
import cryptojwt.jwt

from .common import *
from fedservice.entity.context import FederationContext
from fedservice.entity_statement import create

x = z3.Const("x", V)
CLAIMS = ["metadata", "metadata_policy", "authority_hints", "aud", "constraints"]
NAMED = ["iss", "sub", "key_jar", "lifetime", "include_jwks"] + CLAIMS
PUB, PRIV = z3.Const("public_keys", V), z3.Const("private_keys", V)


def jwt_contract(ip, args, kw):
    """JWT(key_jar=, iss=, lifetime=).pack(payload=) signs exactly the payload it is given"""
    ip.assumptions.add("cryptojwt.jwt.JWT.pack signs the payload it is given with iss and lifetime of the packer")
    b = bind(ip, cryptojwt.jwt.JWT.__init__, [None] + list(args), kw)

    def pack(ip, args, kw):
        p = bind(ip, cryptojwt.jwt.JWT.pack, [None] + list(args), kw)
        for k, v in p.items():
            if k not in ("self", "payload", "extra") and v not in (None, ""):
                raise Unsupported("pack with other arguments")
        if p.get("extra"):
            raise Unsupported("pack with other arguments")
        return SV(ip.freeze_seq(K_TUPLE, [b["iss"], b["lifetime"], b["key_jar"], p["payload"]]))
    for k, v in b.items():
        if k not in ("self", "iss", "lifetime", "key_jar") and is_atom(v) and v not in (None, "", 0, False):
            if k not in ("sign", "sign_alg", "alg"):
                pass
    return obj(ip, None, {"pack": Ext("pack", pack)}, "packer")


def keyjar(ip):
    def export(ip, args, kw):
        b = bind(ip, KeyJar.export_jwks, [None] + list(args), kw)
        if not isinstance(b["private"], bool):
            raise Unsupported("export_jwks of unknown kind")
        return SV(PRIV if b["private"] else PUB)
    return obj(ip, None, {"export_jwks": Ext("export_jwks", export)}, "keyjar")


from cryptojwt.key_jar import KeyJar                                            # noqa: E402


def truthy_v(ip, t):
    return ip.zb(ip.truth(SV(t)))


SHAPES = {"metadata": OptS(DictS()), "metadata_policy": OptS(DictS()), "authority_hints": OptS(ListS()), "aud": OneOfS(StrS(), ListS()),
          "constraints": OptS(DictS())}


def is_empty(t):
    """a value that counts as not given"""
    return z3.Or(V.is_none(t), t == S(""), z3.And(V.is_ref(t), kind(t) == K_LIST, length(t) <= 0),
                 z3.And(isdict(t), FA([x], z3.Not(has(t, x)))))


def setup_create(include, hints_callable, with_kw, with_aud):
    def f(ip):
        iss, sub = ip.fresh_v("iss", StrS()), ip.fresh_v("sub", StrS())
        kj = keyjar(ip)
        g = {"iss": iss.t, "sub": sub.t, "kj": kj, "include": include}
        kw = {"include_jwks": include}
        for c in CLAIMS:
            if c == "aud" and not with_aud:
                g[c] = S("")
                continue
            v = ip.fresh_v(c, SHAPES[c])
            g[c] = v.t
            kw[c] = v
        if hints_callable:
            v = kw["authority_hints"]
            g["authority_hints!called"] = v.t
            kw["authority_hints"] = Ext("authority_hints", lambda ip, a, k: v)
        lt = ip.fresh_v("lifetime", IntS(0))
        kw["lifetime"] = lt
        g["lifetime"] = lt.t
        if with_kw:
            extra = ip.fresh_v("further_claims", DictS())
            for n in NAMED:
                ip.fact(z3.Not(has(extra.t, S(n))))
            kw["**"] = extra
            g["kw"] = extra.t
        return [iss, sub, kj], kw, g
    return f


def parts(ip, r):
    return [at(r, z3.IntVal(n)) for n in range(4)]


def post_create(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    r = ip.to_v(comp[1])
    iss, lt, kj, P = parts(ip, r)
    kw = g.get("kw")
    inkw = (lambda k: has(kw, k)) if kw is not None else (lambda k: z3.BoolVal(False))
    JW = S("jwks")
    out = [("what is returned is the signed statement", z3.And(V.is_ref(r), kind(r) == K_TUPLE, length(r) == 4)),
           ("issued by the given issuer", iss == g["iss"]), ("lives for the given lifetime", lt == g["lifetime"]),
           ("signed with the given keys", kj == ip.to_v(g["kj"])),
           ("about the given subject", z3.And(isdict(P), has(P, S("sub")), get(P, S("sub")) == g["sub"]))]
    for c in CLAIMS:
        k, v = S(c), g[c]
        called = g.get(c + "!called")
        if called is not None:
            out.append((f"{c} comes from the callable", z3.Implies(z3.Not(is_empty(called)), z3.And(has(P, k), get(P, k) == called))))
            continue
        out.append((f"{c} is stated when it is given", z3.Implies(z3.Not(is_empty(v)), z3.And(has(P, k), get(P, k) == v))))
        out.append((f"{c} is not stated when it is not given", z3.Implies(z3.And(is_empty(v), has(P, k)), z3.And(get(P, k) == v, z3.Not(V.is_none(v)), v != S("")))))
    if kw is not None:
        out.append(("every further claim is stated", FA([x], z3.Implies(inkw(x), z3.And(has(P, x), get(P, x) == get(kw, x))))))
    if g["include"]:
        out.append(("the public keys of the issuer when no keys are given", z3.Implies(z3.Not(inkw(JW)), z3.And(has(P, JW), get(P, JW) == PUB))))
    else:
        out.append(("no keys when they are not asked for", z3.Implies(z3.Not(inkw(JW)), z3.Not(has(P, JW)))))
    known = z3.Or(*[x == S(n) for n in ["sub", "jwks"] + CLAIMS])
    out.append(("nothing else is stated", FA([x], z3.Implies(has(P, x), z3.Or(known, inkw(x))))))
    return out


# ---- FederationContext.create_entity_statement: by the contract of create_entity_statement
def record_create(ip, args, kw):
    b = bind(ip, create.create_entity_statement, args, kw)
    ex = extras(ip, b)
    names = ["iss", "sub", "key_jar", "metadata", "metadata_policy", "authority_hints", "lifetime", "aud", "include_jwks", "constraints"]
    return SV(ip.freeze_seq(K_TUPLE, [b[n] for n in names] + [ex]))


REC = {"fedservice.entity_statement.create.create_entity_statement": record_create}


def setup_ctx(ip):
    iss, sub = ip.fresh_v("iss", StrS()), ip.fresh_v("sub", StrS())
    kj, own = keyjar(ip), keyjar(ip)
    marks, hints = ip.fresh_v("own_trust_marks", ListS()), ip.fresh_v("own_hints", ListS())
    lt0 = ip.fresh_v("default_lifetime", IntS(0))

    def up(ip, args, kw):
        if args == ["attribute", "keyjar"] or list(args) == ["attribute", "keyjar"]:
            return own
        raise Unsupported("upstream_get")
    me = obj(ip, FederationContext, {"upstream_get": Ext("upstream_get", up), "authority_hints": hints, "default_lifetime": lt0, "trust_marks": marks})
    g = {"iss": iss.t, "sub": sub.t, "kj": kj, "own_hints": hints.t, "own_marks": marks.t, "lt0": lt0.t}
    kw = {"key_jar": kj}
    for n, sh in [("metadata", OptS(DictS())), ("metadata_policy", OptS(DictS())), ("authority_hints", OptS(ListS())), ("lifetime", IntS(0)),
                  ("jwks", OptS(DictS()))]:
        v = ip.fresh_v(n, sh)
        kw[n] = v
        g[n] = v.t
    ex = ip.fresh_v("further_claims", DictS({"keys": ListS(), "trust_marks": ListS()}))
    for n in ["iss", "sub", "key_jar", "metadata", "metadata_policy", "authority_hints", "lifetime", "jwks", "self", "aud", "include_jwks", "constraints"]:
        ip.fact(z3.Not(has(ex.t, S(n))))
    kw["**"] = ex
    g["kw"] = ex.t
    return [me, iss, sub], kw, g


def post_ctx(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    r = ip.to_v(comp[1])
    a = [at(r, z3.IntVal(n)) for n in range(11)]
    ex, kw = a[10], g["kw"]
    JW, TM, KEYS = S("jwks"), S("trust_marks"), S("keys")
    n0 = lambda t: z3.Not(is_empty(t))
    tm = get(kw, TM)
    given_tm = z3.And(has(kw, TM), n0(tm))
    return [("a created statement", z3.And(V.is_ref(r), kind(r) == K_TUPLE, length(r) == 11)),
            ("given issuer and subject", z3.And(a[0] == g["iss"], a[1] == g["sub"])), ("given keys", a[2] == ip.to_v(g["kj"])),
            ("given metadata and policy", z3.And(a[3] == g["metadata"], a[4] == g["metadata_policy"])),
            ("given hints, or the entity's own", z3.And(z3.Implies(n0(g["authority_hints"]), a[5] == g["authority_hints"]),
                                                       z3.Implies(is_empty(g["authority_hints"]), a[5] == g["own_hints"]))),
            ("given lifetime, or the default", a[6] == z3.If(V.iv(g["lifetime"]) == 0, g["lt0"], g["lifetime"])),
            ("given subject keys", z3.Implies(n0(g["jwks"]), z3.And(has(ex, JW), get(ex, JW) == g["jwks"]))),
            ("given keys become the key set", z3.Implies(z3.And(is_empty(g["jwks"]), has(kw, KEYS)), z3.And(
                has(ex, JW), isdict(get(ex, JW)), has(get(ex, JW), KEYS), get(get(ex, JW), KEYS) == get(kw, KEYS)))),
            ("given trust marks, or the entity's own", z3.And(
                z3.Implies(given_tm, z3.And(has(ex, TM), get(ex, TM) == tm)),
                z3.Implies(z3.And(z3.Not(given_tm), n0(g["own_marks"])), z3.And(has(ex, TM), get(ex, TM) == g["own_marks"])))),
            ("every further claim", FA([x], z3.Implies(z3.And(has(kw, x), x != JW, x != TM, x != KEYS), z3.And(has(ex, x), get(ex, x) == get(kw, x))))),
            ("nothing else", FA([x], z3.Implies(has(ex, x), z3.Or(has(kw, x), x == JW, x == TM))))]


# ---- the entity configuration endpoint
def setup_ec(own_metadata, marks_kind):
    def f(ip):
        eid = ip.fresh_v("entity_id", StrS())
        md, hints = ip.fresh_v("metadata", DictS()), ip.fresh_v("hints", ListS())
        marks = ip.fresh_v("trust_marks", ListS())
        kj = keyjar(ip)

        def attribute(ip, args, kw):
            return {"entity_id": eid, "keyjar": kj}[args[0]]

        def fed_up(ip, args, kw):
            if list(args) == ["metadata"]:
                return md
            raise Unsupported("upstream_get")

        def srv_up(ip, args, kw):
            if list(args) == ["authority_hints"]:
                return hints
            raise Unsupported("upstream_get")
        if marks_kind == "file":
            tm = ip.fresh_v("file_name", StrS())
            ip.fact(tm.t != S(""))
            marks = SV(LOADED(CONTENT(tm.t)), ListS())
            ip.fact(z3.And(V.is_ref(marks.t), kind(marks.t) == K_LIST, length(marks.t) >= 0))
        else:
            tm = marks if marks_kind == "list" else Ext("trust_marks", lambda ip, a, k: marks)
        ctx = obj(ip, FederationContext, {"trust_marks": tm})
        fed = obj(ip, None, {"get_attribute": Ext("get_attribute", attribute), "upstream_get": None if own_metadata else Ext("up", fed_up),
                             "get_metadata": Ext("get_metadata", lambda ip, a, k: md), "context": ctx}, "federation_entity")
        srv = obj(ip, None, {"upstream_get": Ext("up", srv_up)}, "server")
        me = obj(ip, EntityConfiguration, {"upstream_get": Ext("up", lambda ip, a, k: srv)})
        ip.fed = fed
        return [me], {}, {"eid": eid.t, "md": md.t, "hints": hints.t, "marks": marks.t, "kj": kj}
    return f


from fedservice.entity.server.entity_configuration import EntityConfiguration       # noqa: E402


def post_ec(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    r = ip.to_v(comp[1])
    st = get(r, S("response"))
    a = [at(st, z3.IntVal(n)) for n in range(11)]
    TM = S("trust_marks")
    return [("the response is the created statement", z3.And(isdict(r), has(r, S("response")), V.is_ref(st), kind(st) == K_TUPLE, length(st) == 11)),
            ("the entity is issuer and subject", z3.And(a[0] == g["eid"], a[1] == g["eid"])), ("signed by the entity", a[2] == ip.to_v(g["kj"])),
            ("the entity's metadata", a[3] == g["md"]), ("no metadata policy", is_empty(a[4])), ("the entity's authority hints", a[5] == g["hints"]),
            ("with its keys", a[8] == S(True)), ("no constraints", is_empty(a[9])), ("no audience", is_empty(a[7])),
            ("the entity's trust marks", z3.Implies(length(g["marks"]) > 0, z3.And(has(a[10], TM), get(a[10], TM) == g["marks"]))),
            ("nothing else", FA([x], z3.Implies(has(a[10], x), x == TM)))]


FED = {"fedservice.entity.utils.get_federation_entity": lambda ip, a, k: ip.fed}
JWTC = {"cryptojwt.jwt.JWT": jwt_contract}
T = "fedservice.entity_statement.create:create_entity_statement"
CONTRACTS = [
    Contract("create_entity_statement (keys included, further claims)", T, setup_create(True, False, True, True), post_create, contracts=JWTC),
    Contract("create_entity_statement (keys included, no further claims)", T, setup_create(True, False, False, False), post_create, contracts=JWTC),
    Contract("create_entity_statement (hints from a callable)", T, setup_create(True, True, True, True), post_create, contracts=JWTC),
    Contract("create_entity_statement (without keys)", T, setup_create(False, False, True, True), post_create, contracts=JWTC),
    Contract("FederationContext.create_entity_statement", "fedservice.entity.context:FederationContext.create_entity_statement", setup_ctx, post_ctx, contracts=REC),
    Contract("EntityConfiguration.process_request (combined entity)", "fedservice.entity.server.entity_configuration:EntityConfiguration.process_request",
             setup_ec(False, "list"), post_ec, contracts={**REC, **FED}),
    Contract("EntityConfiguration.process_request (federation entity, marks from a callable)",
             "fedservice.entity.server.entity_configuration:EntityConfiguration.process_request", setup_ec(True, "callable"), post_ec, contracts={**REC, **FED}),
]


# ---- where the entity's own hints and trust marks come from: a value, a file of JSON, or a callable
class GhostFile:
    def read(self): pass
    def close(self): pass
    def __enter__(self): pass
    def __exit__(self, *a): pass


CONTENT, LOADED = z3.Function("content", V, V), z3.Function("json_loads", V, V)


def open_contract(ip, args, kw):
    b = dict(zip(["file", "mode"], args), **kw)
    if set(b) - {"file", "mode", "encoding"} or b.get("mode", "r") not in ("r", "rt"):
        raise Unsupported("open in another way")
    ip.assumptions.add("open(path).read() gives the content of the file at that path (a file that is there and can be read)")
    return obj(ip, GhostFile, {"path": b["file"]}, "file")


def loads_contract(ip, args, kw):
    ip.assumptions.add("json.loads/json.load give the value of the JSON text they are given")
    return ip.sv(LOADED(ip.to_v(args[0])), None)


FILES = {"io.open": open_contract, "_io.open": open_contract, "builtins.open": open_contract, "json.loads": loads_contract,
         "json.load": lambda ip, a, k: ip.sv(LOADED(CONTENT(ip.to_v(ip.heap[a[0].id].fields["path"]))), None),
         "contracts.C22.GhostFile.read": lambda ip, a, k: ip.sv(CONTENT(ip.to_v(ip.heap[a[0].id].fields["path"])), None),
         "contracts.C22.GhostFile.close": lambda ip, a, k: None, "contracts.C22.GhostFile.__enter__": lambda ip, a, k: a[0],
         "contracts.C22.GhostFile.__exit__": lambda ip, a, k: False}


def setup_source(attr, how):
    def f(ip):
        shape = {"value": ListS(), "file": StrS(), "callable": AnyS()}.get(how)
        v = None if how == "none" else ip.fresh_v("source", shape)
        if how == "file":
            ip.fact(v.t != S(""))
        src = Ext("source", lambda ip, a, k: v) if how == "callable" else v
        return [obj(ip, FederationContext, {attr: src}, "context")], {}, {"v": None if v is None else v.t, "how": how, "attr": attr}
    return f


def post_source(ip, g, comp):
    how = g["how"]
    if comp[0] != "return":
        return [("no exception", False)]
    r = ip.to_v(comp[1])
    if how == "none":
        return [("nothing configured is nothing", z3.And(V.is_ref(r), z3.Or(z3.And(kind(r) == K_LIST, length(r) == 0), z3.And(isdict(r), FA([x], z3.Not(has(r, x)))))))]
    if how == "file":
        return [("what the named file says", r == LOADED(CONTENT(g["v"])))]
    return [("what is configured" if how == "value" else "what the callable gives", z3.Or(r == g["v"], z3.And(V.is_ref(r), V.is_ref(g["v"]), kind(r) == K_LIST, kind(g["v"]) == K_LIST, length(r) == 0, length(g["v"]) == 0)))]


# ---- the entity configuration a client sends as its registration request
def record_ctx_create(ip, args, kw):
    b = bind(ip, FederationContext.create_entity_statement, args, kw)
    ex = extras(ip, b)
    names = ["iss", "sub", "key_jar", "metadata", "metadata_policy", "authority_hints", "lifetime", "jwks"]
    return SV(ip.freeze_seq(K_TUPLE, [b[n] for n in names] + [ex]))


def setup_request(cls, marks_kind):
    def f(ip):
        args, _, g = setup_ec(False, marks_kind)(ip)
        h = ip.heap[ip.fed.id].fields
        md = h["upstream_get"]

        def metadata(ip, a, kw):
            if a or any(v is not None for v in kw.values()):
                raise Unsupported("metadata of one client")
            return SV(g["md"], DictS())
        combo = obj(ip, None, {"get_metadata": Ext("get_metadata", metadata)}, "combo")
        eid = SV(g["eid"], StrS())

        def up(ip, a, kw):
            if list(a) == ["unit"]:
                return combo
            if list(a) == ["attribute", "entity_id"]:
                return eid
            raise Unsupported("upstream_get")
        hints = SV(g["hints"], ListS())
        # own hints by the contract of get_authority_hints
        g["hints_list"] = marks_kind == "list"
        ip.fed = obj(ip, None, {"get_attribute": h["get_attribute"], "upstream_get": Ext("upstream_get", up), "context": h["context"],
                                "get_context": Ext("get_context", lambda ip, a, k: h["context"]),
                                "get_authority_hints": Ext("get_authority_hints", lambda ip, a, k: hints), "entity_configuration": None}, "federation_entity")
        return [obj(ip, cls, {}, "service")], {}, g
    return f


def post_request(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    st = ip.to_v(comp[1])
    a = [at(st, z3.IntVal(n)) for n in range(9)]
    TM = S("trust_marks")
    return [("the created statement", z3.And(V.is_ref(st), kind(st) == K_TUPLE, length(st) == 9)),
            ("the entity is issuer and subject", z3.And(a[0] == g["eid"], a[1] == g["eid"])), ("signed by the entity", a[2] == ip.to_v(g["kj"])),
            ("the entity's metadata", a[3] == g["md"]), ("no metadata policy", is_empty(a[4])), # a list of hints need not be handed over: the context states its own
            ("the entity's authority hints", z3.Or(a[5] == g["hints"], z3.And(g["hints_list"], is_empty(a[5])))),
            ("no other keys", is_empty(a[7])),
            ("the entity's trust marks", z3.Implies(length(g["marks"]) > 0, z3.Or(z3.Not(has(a[8], TM)), get(a[8], TM) == g["marks"]))),
            ("nothing else", FA([x], z3.Implies(has(a[8], x), x == TM)))]


from fedservice.appclient.oauth2 import registration as oauth2_rp                   # noqa: E402
from fedservice.appclient.oidc import registration as oidc_rp                       # noqa: E402
for _mod in (oauth2_rp, oidc_rp):
    for _h in ("list", "callable", "file"):
        CONTRACTS.append(Contract(f"{_mod.__name__[11:]}.create_entity_statement (marks: {_h})", _mod.__name__ + ":Registration.create_entity_statement", setup_request(_mod.Registration, _h), post_request,
                                  contracts={**FED, **FILES, "fedservice.entity.context.FederationContext.create_entity_statement": record_ctx_create}))
CONTRACTS.append(Contract("EntityConfiguration.process_request (marks from a file)", "fedservice.entity.server.entity_configuration:EntityConfiguration.process_request",
                          setup_ec(False, "file"), post_ec, contracts={**REC, **FED, **FILES}))

for _m, _a, _hows in (("get_authority_hints", "authority_hints", ("value", "file", "callable")),
                      ("get_trust_marks", "trust_marks", ("value", "file", "callable", "none"))):
    for _h in _hows:
        CONTRACTS.append(Contract(f"FederationContext.{_m} ({_h})", f"fedservice.entity.context:FederationContext.{_m}", setup_source(_a, _h), post_source, contracts=FILES))
