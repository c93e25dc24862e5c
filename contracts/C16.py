"""C16 - redirect URIs and requested capabilities in a registration.

A URI's parts are uninterpreted functions of it, the same for every function that takes it apart."""
from .common import *
from fedservice.appserver.oauth2 import registration as reg
from idpyoidc.server.exception import CapabilitiesMisMatch, InvalidRedirectURIError

x, y = z3.Consts("x y", V)
j, i = z3.Ints("jj ii")
MOD = "fedservice.appserver.oauth2.registration"
R = MOD + ".Registration."
SCHEME, HOST, FRAG, BASE, QUERY = (z3.Function("uri_" + n, V, V) for n in ("scheme", "hostname", "fragment", "base", "query"))
QSTR = z3.Function("uri_query_string", V, V)
PARTS = {"query": (QSTR, StrS()), "scheme": (SCHEME, StrS()), "hostname": (HOST, OptS(StrS())), "fragment": (FRAG, StrS())}
HTTP, HTTPS, TYPE, RTYPES, URIS = (S(a) for a in ("http", "https", "application_type", "response_types", "redirect_uris"))


def urlparse(ip, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("urlparse with a default scheme")
    u = ip.to_v(args[0])
    ip.fact(z3.And(V.is_s(SCHEME(u)), V.is_s(FRAG(u)), z3.Or(V.is_s(HOST(u)), V.is_none(HOST(u)))))
    return obj(ip, None, {n: SV(f(u), sh) for n, (f, sh) in PARTS.items()}, "uri")


def split_uri(ip, args, kw):
    u = ip.to_v(args[0])
    ip.fact(z3.And(V.is_s(BASE(u)), z3.Or(V.is_none(QUERY(u)), z3.And(isdict(QUERY(u)), length(QUERY(u)) >= 0))))
    ip.assumptions.add("split_uri gives the URI without its query, and the query, from which comb_uri makes the URI again")
    return ip.listref([SV(BASE(u), StrS()), SV(QUERY(u), OptS(DictS()))])


def setup_uris(ip):
    q = ip.fresh_v("request", DictS({"application_type": StrS(), "response_types": ListS(StrS()), "redirect_uris": ListS(StrS())}, None, ["redirect_uris"]))
    us = get(q.t, URIS)
    ip.fact(z3.And(z3.Implies(has(q.t, TYPE), V.is_s(get(q.t, TYPE))), z3.Implies(has(q.t, RTYPES), z3.And(islist(get(q.t, RTYPES)), length(get(q.t, RTYPES)) >= 0)), islist(us), length(us) >= 0))
    ip.Q = q.t
    return [q], {}, {"q": q.t}


def obeys(q, u):
    web = z3.Or(z3.Not(has(q, TYPE)), get(q, TYPE) == S("web"))
    native = z3.And(has(q, TYPE), get(q, TYPE) == S("native"))
    rt = get(q, RTYPES)
    codeonly = z3.And(has(q, RTYPES), length(rt) == 1, at(rt, 0) == S("code"))
    is_http = z3.Or(SCHEME(u) == HTTP, SCHEME(u) == HTTPS)
    return z3.And(FRAG(u) == S(""), z3.If(native, z3.Or(z3.Not(is_http), z3.And(SCHEME(u) == HTTP, z3.Or(HOST(u) == S("localhost"), HOST(u) == S("127.0.0.1")))),
                                          z3.If(z3.And(web, z3.Not(codeonly)), SCHEME(u) == HTTPS, is_http)))


def kept(q, u, r):
    """r is the pair the URI is kept as"""
    custom = z3.Not(z3.Or(SCHEME(u) == HTTP, SCHEME(u) == HTTPS))
    noq = z3.Or(V.is_none(QUERY(u)), length(QUERY(u)) == 0)
    return z3.And(length(r) == 2, z3.If(custom, z3.And(at(r, 0) == u, length(at(r, 1)) == 0),
                                        z3.And(at(r, 0) == BASE(u), z3.If(noq, z3.Or(length(at(r, 1)) == 0, V.is_none(at(r, 1))), at(r, 1) == QUERY(u)))))


def post_uris(ip, g, comp):
    q = g["q"]
    us = get(q, URIS)
    n = length(us)
    ok = FA([j], z3.Implies(rng(j, n), obeys(q, at(us, j))), at(us, j))
    if comp[0] == "raise":
        return [("refused only with the error for redirect URIs, and only if one breaks the rules", z3.And(z3.BoolVal(issubclass(comp[1].cls, InvalidRedirectURIError)), z3.Not(ok)))]
    r = ip.to_v(comp[1])
    return [("accepted only if every redirect URI obeys the rules", ok), ("none is dropped or added", length(r) == n),
            ("each is kept with its query part, in order", FA([j], z3.Implies(rng(j, n), kept(q, at(us, j), at(r, j))), at(r, j)))]


def hook_uris(ip, L):
    q = getattr(ip, "Q", None)
    if q is None:
        return {}
    us = get(q, URIS)
    out = {"obey": lambda k: FA([j], z3.Implies(rng(j, k), obeys(q, at(us, j))), at(us, j))}
    for c in L.cells.values():
        if c.tag == "list":
            out[c.name + ":kept"] = lambda k, c=c: z3.And(c.len(k) == k, FA([j], z3.Implies(rng(j, k), kept(q, at(us, j), c.at(k, j))), c.at(k, j)))
    return out


# ---- match_claim
PI, R2P, CP = z3.Const("provider_info", V), z3.Const("register2preferred", V), z3.Const("c_param", V)
SPEC0 = DictS({}, ListS())


def context(ip):
    pi, r2p, cp = ip.sv(PI, DictS()), ip.sv(R2P, DictS({}, StrS())), ip.sv(CP, DictS({}, ListS()))
    ip.input_names |= {"provider_info", "register2preferred", "c_param"}
    ip.fact(z3.And(isdict(PI), isdict(R2P), isdict(CP)))
    ip.fact(FA([x], z3.Implies(has(CP, x), z3.And(islist(get(CP, x)), length(get(CP, x)) >= 1, z3.Or(V.is_f(at(get(CP, x), 0)), z3.And(islist(at(get(CP, x), 0)))))), has(CP, x)))
    ip.fact(FA([x], z3.Implies(has(R2P, x), V.is_s(get(R2P, x))), has(R2P, x)))
    claims = obj(ip, None, {"register2preferred": r2p, "registration_response": obj(ip, None, {"c_param": cp}, "response_class")}, "claims")
    ctx = obj(ip, None, {"claims": claims, "provider_info": pi}, "context")

    def up(ip, args, kw):
        if list(args) == ["context"]:
            return ctx
        raise Unsupported("upstream_get")
    return obj(ip, reg.Registration, {"upstream_get": Ext("upstream_get", up)}, "endpoint")


def supported(claim):
    return z3.If(has(R2P, claim), get(R2P, claim), claim)


def setup_match(strval):
    def f(ip):
        me = context(ip)
        c = ip.fresh_v("claim", StrS())
        v = ip.fresh_v("val", StrS() if strval else ListS(StrS()))
        key = supported(c.t)
        s = get(PI, key)
        ip.fact(z3.Implies(has(PI, key), z3.Or(V.is_none(s), V.is_s(s), V.is_b(s), z3.And(islist(s), length(s) >= 0))))
        # a claim that takes several values is supported as a list of values
        ip.fact(z3.Implies(z3.And(has(PI, key), has(CP, c.t), islist(at(get(CP, c.t), 0))), z3.Or(V.is_none(s), islist(s))))
        if not strval:
            ip.fact(z3.Implies(has(CP, c.t), islist(at(get(CP, c.t), 0))))
        return [me, c, v], {}, {"c": c.t, "v": v.t}
    return f


def post_match(strval):
    def f(ip, g, comp):
        c, v = g["c"], g["v"]
        s = get(PI, supported(c))
        states = has(PI, supported(c))
        if comp[0] == "raise":
            return [("refused only with the error for capabilities", issubclass(comp[1].cls, CapabilitiesMisMatch)), ("only where the server states what it supports", states)]
        r = ip.to_v(comp[1])
        keep = z3.Not(V.is_none(r))
        out = [("where the server states nothing, the value is kept", z3.Implies(z3.Not(states), r == v))]
        if strval:
            out += [("kept only as it is", z3.Implies(keep, r == v)),
                    ("kept only if the server supports it", z3.Implies(z3.And(keep, states), z3.Or(r == s, z3.And(islist(s), mem(s, v))))),
                    ("kept if the server supports it", z3.Implies(z3.And(states, has(CP, c), islist(s), length(s) > 0, mem(s, v)), keep))]
        else:
            out += [("kept only to the extent that the server supports it", z3.Implies(z3.And(keep, states), FA([x], z3.Implies(mem(r, x), z3.And(mem(v, x), mem(s, x))), mem(r, x)))),
                    ("all that the server supports is kept", z3.Implies(z3.And(keep, states), FA([x], z3.Implies(z3.And(mem(v, x), mem(s, x)), mem(r, x)), mem(r, x))))]
        return out
    return f


# ---- filter_client_request
MATCH = z3.Function("matching_value", V, V, V)


def match_contract(ip, args, kw):
    b = bind(ip, reg.Registration.match_claim, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("mismatch"))):
        raise PyRaise(ExcVal(CapabilitiesMisMatch))
    return SV(MATCH(ip.to_v(b["claim"]), ip.to_v(b["val"])))


def setup_filter(ip):
    me = context(ip)
    q = ip.fresh_v("request", DictS())
    ip.Q = q.t
    return [me, q], {}, {"q": q.t}


def keptval(ip, q, k, present, value):
    v = get(q, k)
    m = MATCH(k, v)
    return z3.If(z3.And(has(q, k), z3.Not(has(R2P, k))), z3.And(present, value == v),
                 z3.If(z3.And(has(q, k), ip.truth_term(SV(m))), z3.And(present, value == m), z3.Not(present)))


def post_filter(ip, g, comp):
    if comp[0] == "raise":
        return [("refused only with the error for capabilities", issubclass(comp[1].cls, CapabilitiesMisMatch))]
    r = ip.to_v(comp[1])
    return [("claims the server knows are kept as matched, others as they are", FA([x], keptval(ip, g["q"], x, has(r, x), get(r, x)), has(r, x)))]


def hook_filter(ip, L):
    q = getattr(ip, "Q", None)
    done = getattr(L.seq, "done", None)
    if q is None or done is None:
        return {}
    out = {}
    for c in L.cells.values():
        if c.tag == "dict":
            out[c.name + ":kept"] = lambda k, c=c: FA([x], z3.If(done(k, x), keptval(ip, q, x, c.mem(k, x), c.get(k, x)), z3.Not(c.mem(k, x))), c.mem(k, x))
    return out


URI = {"urllib.parse.urlparse": urlparse, "idpyoidc.util.split_uri": split_uri}


# ---- do_client_registration: what is stored for the client
VERIFIED = z3.Function("verified_redirect_uris", V, V)
IGNORE = ["redirect_uris", "policy_uri", "logo_uri", "tos_uri"]
SPECIAL = ["post_logout_redirect_uri", "redirect_uris", "request_uris", "policy_uri", "logo_uri", "tos_uri", "id_token_signed_response_alg", "userinfo_signed_response_alg"]
REQ = DictS({"redirect_uris": ListS(StrS()), "request_uris": ListS(StrS()), **{k: StrS() for k in SPECIAL if k not in ("redirect_uris", "request_uris")}})


class GhostKeyJar:
    def get_signing_key(self, key_type="", owner=None, kid=None, **kw): pass
    def key_summary(self, i): pass


def signing_key(ip, args, kw):
    t = ip.fresh_v("keys", ListS())
    return t


def uris_contract(ip, args, kw):
    q = ip.to_v(args[-1])
    if not ip.branch(z3.Bool(ip.fresh_name("uris_obey"))):
        raise PyRaise(ExcVal(InvalidRedirectURIError))
    t = VERIFIED(q)
    ip.fact(z3.And(islist(t), length(t) >= 0))
    return SV(t, ListS())


def setup_store(ip):
    q = ip.fresh_v("request", REQ)
    for k, sh in REQ.fields.items():
        ip.fact(z3.Implies(has(q.t, S(k)), V.is_s(get(q.t, S(k))) if isinstance(sh, StrS) else z3.And(islist(get(q.t, S(k))), length(get(q.t, S(k))) >= 0)))
    cid = ip.fresh_v("client_id", StrS())
    old = ip.fresh_v("stored", DictS())
    cdb = ip.alloc(DDict(None, [(cid, old, True)]))
    r2p = ip.sv(R2P, DictS({}, StrS()))
    pi = ip.sv(PI, DictS({}, ListS(StrS())))
    ip.input_names |= {"provider_info", "register2preferred"}
    ip.fact(z3.And(isdict(PI), isdict(R2P), *[z3.And(has(R2P, S(k)), V.is_s(get(R2P, S(k))), z3.Implies(has(PI, get(R2P, S(k))), islist(get(PI, get(R2P, S(k))))))
                                              for k in ("id_token_signed_response_alg", "userinfo_signed_response_alg")]))
    ctx = obj(ip, None, {"claims": obj(ip, None, {"register2preferred": r2p}, "claims"), "provider_info": pi, "cdb": cdb, "issuer": ip.fresh_v("issuer", StrS())}, "context")
    kj = obj(ip, GhostKeyJar, {}, "keyjar")

    def up(ip, args, kw):
        if list(args) == ["context"]:
            return ctx
        if list(args) == ["attribute", "keyjar"]:
            return kj
        raise Unsupported("upstream_get")
    me = obj(ip, reg.Registration, {"upstream_get": Ext("upstream_get", up), "error_cls": Ext("error_cls", error)}, "endpoint")
    ip.STORED, ip.Q = old.t, q.t
    return [me, q, cid], {"ignore": ip.listref(list(IGNORE))}, {"q": q.t, "old": old.t}


def error(ip, args, kw):
    return obj(ip, GhostError, {}, "error")


class GhostError:
    pass


def post_store(ip, g, comp):
    if comp[0] == "raise":
        return [("raises nothing of its own", not issubclass(comp[1].cls, CallPrecondition))]
    if isinstance(comp[1], Ref) and isinstance(ip.heap[comp[1].id], HObj):
        return []
    r, q, old = ip.to_v(comp[1]), g["q"], g["old"]
    return [("the redirect URIs are stored as verified", z3.Implies(has(q, URIS), z3.And(has(r, URIS), get(r, URIS) == VERIFIED(q)))),
            ("the claims of the request are stored as they are", FA([x], z3.Implies(z3.And(has(q, x), *[x != S(k) for k in SPECIAL]), z3.And(has(r, x), get(r, x) == get(q, x))), has(r, x))),
            ("nothing else changes", FA([x], z3.Implies(z3.And(z3.Not(has(q, x)), *[x != S(k) for k in SPECIAL]), z3.And(has(r, x) == has(old, x), z3.Implies(has(r, x), get(r, x) == get(old, x)))), has(r, x)))]


def hook_store(ip, L):
    q, old = getattr(ip, "Q", None), getattr(ip, "STORED", None)
    done = getattr(L.seq, "done", None)
    if q is None or old is None or done is None:
        return {}
    out = {}
    ign = lambda x: z3.Or(*[x == S(k) for k in IGNORE])
    for c in L.cells.values():
        if c.tag == "dict":
            out[c.name + ":stored"] = lambda k, c=c: FA([x], z3.If(z3.And(done(k, x), z3.Not(ign(x))), z3.And(c.mem(k, x), c.get(k, x) == get(q, x)),
                                                                  z3.And(c.mem(k, x) == has(old, x), z3.Implies(c.mem(k, x), c.get(k, x) == get(old, x)))), c.mem(k, x))
    return out


opaque = lambda name, shape=None: (lambda ip, a, kw: ip.fresh_v(name, shape) if shape is not None else None)
STORE = {**URI, R + "verify_redirect_uris": uris_contract, "contracts.C16.GhostKeyJar.get_signing_key": signing_key, "contracts.C16.GhostKeyJar.key_summary": opaque("summary", StrS()),
         "idpyoidc.util.sanitize": opaque("sanitized", StrS()), "idpyoidc.server.oidc.registration.verify_url": opaque("url_ok", BoolS()), "cryptojwt.jws.utils.alg2keytype": opaque("ktyp", StrS()),
         "fedservice.appserver.import_client_keys": opaque("none"), "idpyoidc.message.oauth2.ResponseMessage": error}

CONTRACTS = [
    Contract("Registration.verify_redirect_uris", MOD + ":Registration.verify_redirect_uris", setup_uris, post_uris, hooks=[hook_uris], contracts=URI),
    Contract("Registration.match_claim (one value)", MOD + ":Registration.match_claim", setup_match(True), post_match(True)),
    Contract("Registration.match_claim (several values)", MOD + ":Registration.match_claim", setup_match(False), post_match(False)),
    Contract("Registration.filter_client_request", MOD + ":Registration.filter_client_request", setup_filter, post_filter, hooks=[hook_filter], contracts={R + "match_claim": match_contract}),
    Contract("Registration.do_client_registration", MOD + ":Registration.do_client_registration", setup_store, post_store, hooks=[hook_store], contracts=STORE),
]
