"""C08 - collecting the tree of superiors.

Termination: collect_branch is only ever called for an authority that is not in the list of those already seen, and
calls collect_tree with that list plus the authority; the number of unseen authorities (of a finite federation) falls with
every level.  Both are call-site preconditions proved here."""
from .common import *
from fedservice.entity.function import trust_chain_collector as tcc
from fedservice.entity_statement.cache import ESCache
from fedservice.entity.client import entity_statement as esc
from fedservice.exception import FailedConfigurationRetrieval
from cryptojwt.exception import BadSignature
MissingPage = tcc.MissingPage

x, y = z3.Consts("x y", V)
TCC = "fedservice.entity.function.trust_chain_collector"
T = TCC + ".TrustChainCollector."
EC = DictS({"iss": StrS(), "authority_hints": ListS(StrS())}, None, ["iss"])
# what the callees answer (a federation that answers the same question in the same way during one collection)
BRANCH, TREE = z3.Function("branch", V, V, V, V), z3.Function("tree", V, V, V)
STATEMENT, CONFIG = z3.Function("statement_about_by", V, V, V), z3.Function("configuration_of", V, V)


def seen_of(ip, v):
    return ip.to_v(v)


def branch_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.collect_branch, args, kw, skip=0)
    e, au, sn, stop = ip.to_v(p["entity"]), ip.to_v(p["authority"]), p["seen"], ip.to_v(p["stop_at"])
    s0 = ip.SEEN
    was = (lambda q: mem(s0, q)) if s0 is not None else (lambda q: z3.BoolVal(False))
    now = (lambda q, t=ip.to_v(sn): mem(t, q)) if sn is not None else (lambda q: z3.BoolVal(False))
    require(ip, z3.And(z3.Not(was(au)), FA([x], z3.Implies(x != au, now(x) == was(x))), e == ip.ENT, stop == ip.STOP))
    if ip.branch(z3.Bool(ip.fresh_name("unreachable"))):
        raise PyRaise(ExcVal(FailedConfigurationRetrieval))
    t = BRANCH(e, au, stop)
    ip.fact(z3.Or(V.is_none(t), V.is_ref(t)))
    return ip.sv(t, None)


def setup_tree(seen):
    def f(ip):
        ec = ip.fresh_v("entity_configuration", EC)
        e, stop = ip.fresh_v("entity_id", StrS()), ip.fresh_v("stop_at", StrS())
        me = obj(ip, tcc.TrustChainCollector, {"trust_anchors": ip.fresh_v("trust_anchors", DictS())})
        ip.ENT, ip.STOP, ip.SEEN = e.t, stop.t, None
        kw = {"stop_at": stop, "max_superiors": ip.fresh_v("max_superiors", IntS())}
        if seen:
            s = ip.fresh_v("seen", ListS(StrS()))
            ip.SEEN = s.t
            kw["seen"] = s
        return [me, e, ec], kw, {"ec": ec.t, "e": e.t, "stop": stop.t, "seen": ip.SEEN}
    return f


def wanted(g, q):
    ec = g["ec"]
    return z3.And(has(ec, S("authority_hints")), get(ec, S("iss")) != g["stop"], mem(get(ec, S("authority_hints")), q),
                  z3.Not(mem(g["seen"], q)) if g["seen"] is not None else z3.BoolVal(True))


def post_tree(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only when an authority can not be reached", issubclass(comp[1].cls, FailedConfigurationRetrieval))]
    r, b = ip.to_v(comp[1]), lambda q: BRANCH(g["e"], q, g["stop"])
    return [("every superior is an authority hinted at and not seen before", FA([x], z3.Implies(has(r, x), wanted(g, x)))),
            ("with what that authority says about the entity", FA([x], z3.Implies(has(r, x), get(r, x) == b(x)))),
            ("every hint is followed", FA([x], z3.Implies(z3.And(wanted(g, x), z3.Not(V.is_none(b(x)))), has(r, x))))]


def hook(ip, L):
    e = getattr(ip, "ENT", None)
    if e is None:
        return {}
    out, src = {}, L.seq
    j = z3.Int("jj")
    seen = ip.SEEN
    unseen = lambda q: z3.Not(mem(seen, q)) if seen is not None else z3.BoolVal(True)
    for c in L.cells.values():
        if c.tag == "dict":
            b = lambda q: BRANCH(e, q, ip.STOP)
            out[c.name + ":branch"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), c.get(k, x) == b(x)), c.mem(k, x))
            out[c.name + ":unseen"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), unseen(x)), c.mem(k, x))
            el, m = (lambda i: ip.to_v(src.at(i))), getattr(src, "memf", None)
            if m is not None:
                out[c.name + ":hint"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), m(x)), c.mem(k, x))
            for lab, ok in [("all", lambda q: z3.BoolVal(True)), ("some", lambda q: z3.Not(V.is_none(b(q))))]:
                out[f"{c.name}:follow:{lab}"] = lambda k, c=c, ok=ok: FA([j], z3.Implies(z3.And(rng(j, k), unseen(el(j)), ok(el(j))), c.mem(k, el(j))))
    return out


# ---- collect_branch
def statement_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector._get_entity_statement, args, kw)
    t = STATEMENT(ip.to_v(p["entity"]), ip.to_v(p["authority"]))
    ip.fact(z3.Or(V.is_none(t), V.is_s(t)))
    return SV(t, OptS(StrS()))


def fetch_endpoint_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.get_federation_fetch_endpoint, args, kw)
    record(ip, "refreshed", p["intermediate"])
    return ip.fresh_v("endpoint", OptS(StrS()))


def config_contract(ip, args, kw):
    """a lookup may find nothing unless the configuration has just been fetched anew"""
    k = ip.to_v(args[1])
    if not any(z3.is_true(z3.simplify(q[0] == k)) for q in recorded(ip, "refreshed")):
        if ip.branch(z3.Bool(ip.fresh_name("too_old"))):
            return None
    ip.assumptions.add("an entity configuration fetched during a collection can be used during it (its lifetime is longer than the safety margin)")
    t = CONFIG(k)
    ip.fact(z3.And(isdict(t), has(t, S("iss"))))
    return SV(t, EC)


def tree_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.collect_tree, args, kw)
    au = ip.to_v(p["entity_id"])
    if p["seen"] is None:
        require(ip, z3.BoolVal(False))
    sn = ip.to_v(p["seen"])
    s0 = ip.SEEN
    was = (lambda q: mem(s0, q)) if s0 is not None else (lambda q: z3.BoolVal(False))
    require(ip, z3.And(au == ip.AUTH, ip.to_v(p["entity_configuration"]) == CONFIG(au), ip.to_v(p["stop_at"]) == ip.STOP,
                       FA([x], mem(sn, x) == z3.Or(was(x), x == au))))
    if ip.branch(z3.Bool(ip.fresh_name("unreachable"))):
        raise PyRaise(ExcVal(FailedConfigurationRetrieval))
    t = TREE(au, ip.to_v(p["stop_at"]))
    ip.fact(isdict(t))
    return SV(t, DictS())


def setup_branch(seen):
    def f(ip):
        recorder(ip)
        e, au, stop = (ip.fresh_v(n, StrS()) for n in ("entity", "authority", "stop_at"))
        ta = ip.fresh_v("trust_anchors", DictS())
        me = obj(ip, tcc.TrustChainCollector, {"trust_anchors": ta, "config_cache": obj(ip, ESCache, {}, "config_cache")})
        ip.SEEN, ip.AUTH, ip.STOP = None, au.t, stop.t
        kw = {"stop_at": stop, "max_superiors": ip.fresh_v("max_superiors", IntS())}
        g = {"e": e.t, "a": au.t, "ta": ta.t, "stop": stop.t}
        if seen:
            s = ip.fresh_v("seen", ListS(StrS()))
            ip.fact(z3.Not(mem(s.t, au.t)))
            ip.SEEN = s.t
            kw["seen"] = s
        return [me, e, au], kw, g
    return f


def post_branch(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only when an authority can not be reached", issubclass(comp[1].cls, FailedConfigurationRetrieval))]
    st, r = STATEMENT(g["e"], g["a"]), comp[1]
    top = z3.And(g["e"] == g["a"], has(g["ta"], g["a"]))
    if r is None:
        return [("no branch only where the authority has no statement about the entity, or is a trust anchor hinting at itself",
                 z3.Or(top, V.is_none(st), st == S("")))]
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported("a branch that is not a pair")
    return [("the branch is the authority's statement about the entity", z3.And(ip.to_v(r[0]) == st, z3.Not(V.is_none(st)))),
            ("together with the authority's own superiors", ip.to_v(r[1]) == TREE(g["a"], g["stop"]))]


# ---- what is asked of whom
REQ, DOC = z3.Function("request_url", V, V, V), z3.Function("document_at", V, V)
ES_URL, EC_URL = z3.Function("statement_url", V, V, V, V), z3.Function("configuration_url", V, z3.BoolSort(), V)


class GhostService:
    def get_request_parameters(self, **kw): pass


class GhostClient:
    def get_service(self, name): pass

    def do_request(self, *a, **kw): pass


class GhostFed:
    def get_function(self, name): pass

    def get_attribute(self, name, default=None): pass


def service_contract(ip, args, kw):
    n = args[1]
    if n not in ("entity_statement", "entity_configuration"):
        raise Unsupported(f"service {n!r}")
    return obj(ip, GhostService, {"kind": n}, "service")


def parameters_contract(ip, args, kw):
    """the services' get_request_parameters (the statement one by its contract below)"""
    ra = kw.get("request_args")
    arg = lambda n: kw[n] if n in kw else S("")
    if ip.heap[args[0].id].fields["kind"] == "entity_statement":
        if args[1:] or ra is not None:
            raise Unsupported("request_args for an entity statement")
        u = ES_URL(ip.to_v(arg("fetch_endpoint")), ip.to_v(arg("issuer")), ip.to_v(arg("subject")))
    else:
        e = pb.getitem(ip, ra, "entity_id") if ra is not None else arg("entity_id")
        t = ip.truth(kw["tenant"]) if "tenant" in kw else False
        u = EC_URL(ip.to_v(e), ip.zb(t))
    ip.fact(V.is_s(u))
    return ip.alloc(DDict(None, (("url", SV(u, StrS()), True), ("method", "GET", True)), None))


def document_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.get_document, args, kw)
    u = ip.to_v(p["url"])
    if any(q[0].eq(u) for q in recorded(ip, "missing")):
        raise PyRaise(ExcVal(MissingPage))
    if ip.branch(z3.Bool(ip.fresh_name("missing_page"))):
        record(ip, "missing", p["url"])
        raise PyRaise(ExcVal(MissingPage))
    if ip.branch(z3.Bool(ip.fresh_name("no_document"))):
        raise PyRaise(ExcVal(FailedConfigurationRetrieval))
    ip.fact(V.is_s(DOC(u)))
    return SV(DOC(u), StrS())


def setup_asked(ip):
    recorder(ip)
    fed = obj(ip, GhostFed, {"client": obj(ip, GhostClient, {})})
    me = obj(ip, tcc.TrustChainCollector, {})
    ip.FED = fed
    fe, i, s = (ip.fresh_v(n, StrS()) for n in ("fetch_endpoint", "issuer", "subject"))
    return [me, fe, i, s], {}, {"fe": fe.t, "i": i.t, "s": s.t}


def post_asked(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only when the document can not be had", issubclass(comp[1].cls, (FailedConfigurationRetrieval, MissingPage)))]
    return [("what the fetch endpoint answers when asked about the subject, as the issuer",
             ip.to_v(comp[1]) == DOC(ES_URL(g["fe"], g["i"], g["s"])))]


def setup_conf(ip):
    args, _, g = setup_asked(ip)
    e = ip.fresh_v("entity_id", StrS())
    return [args[0], e], {}, {"e": e.t}


def post_conf(ip, g, comp):
    u, tu = (EC_URL(g["e"], z3.BoolVal(b)) for b in (False, True))
    miss = [z3.simplify(q[0]) for q in recorded(ip, "missing")]
    if comp[0] == "raise":
        if issubclass(comp[1].cls, MissingPage):
            return [("gives up only when both locations have no such page", z3.And(*[z3.Or(*[m == w for m in miss]) for w in (u, tu)]))]
        return [("raises only when no document can be had", issubclass(comp[1].cls, FailedConfigurationRetrieval))]
    r = ip.to_v(comp[1])
    return [("the entity's own document: the one at its well-known location, or the tenant's one where there is no such page",
             z3.Or(r == DOC(u), z3.And(r == DOC(tu), z3.Or(*[m == u for m in miss]))))]


def fed_contract(ip, args, kw):
    return ip.FED


# ---- get_document: the page at the given URL, and nothing when the answer is not a page
CT = S("Content-Type")


def setup_document(ip):
    recorder(ip)
    url, text = ip.fresh_v("url", StrS()), ip.fresh_v("text", StrS())
    code = ip.fresh_v("status_code", IntS())
    head = ip.fresh_v("headers", DictS({}, StrS()))
    ip.fact(z3.And(has(head.t, CT), V.is_s(get(head.t, CT))))
    resp = obj(ip, None, {"status_code": code, "text": text, "headers": head}, "response")

    def httpc(ip, args, kw):
        b = dict(zip(["method", "url"], args), **{k: v for k, v in kw.items() if k in ("method", "url")})
        record(ip, "asked", b["method"], b["url"])
        if ip.branch(z3.Bool(ip.fresh_name("no_connection"))):
            raise PyRaise(ExcVal(ConnectionError))
        return resp
    own, theirs = ip.fresh_v("httpc_params", OptS(DictS())), ip.fresh_v("federation_httpc_params", DictS())
    for p in (own.t, theirs.t):
        ip.fact(z3.And(z3.Not(has(p, S("method"))), z3.Not(has(p, S("url")))))
    kj = obj(ip, None, {"httpc_params": own}, "keyjar")

    def up(ip, args, kw):
        if list(args) == ["attribute", "keyjar"]:
            return kj
        if list(args) == ["attribute", "httpc"]:
            return Ext("httpc", httpc)
        raise Unsupported("upstream_get")
    ip.FED = obj(ip, GhostFed, {"httpc_params": theirs, "client": None})
    return [obj(ip, tcc.TrustChainCollector, {"upstream_get": Ext("upstream_get", up)}), url], {}, {"url": url.t, "text": text.t, "code": code.t}


def post_document(ip, g, comp):
    asked = recorded(ip, "asked")
    out = [("one question", len(asked) == 1)]
    if len(asked) == 1:
        out += [("asks for the given page", z3.And(asked[0][0] == S("GET"), asked[0][1] == g["url"]))]
    if comp[0] == "return":
        return out + [("the text of the page, and only of a page that is there", z3.And(ip.to_v(comp[1]) == g["text"], V.iv(g["code"]) == 200))]
    if issubclass(comp[1].cls, MissingPage):
        return out + [("no such page", V.iv(g["code"]) == 404)]
    if issubclass(comp[1].cls, ConnectionError):
        return out
    return out + [("nothing that is there is refused", V.iv(g["code"]) != 200), ("failed", issubclass(comp[1].cls, FailedConfigurationRetrieval))]


def request_contract(ip, args, kw):
    d = ip.to_v(ip.alloc(pb.dict_content(ip, msg_d(ip, args[0]))))
    u = REQ(ip.to_v(args[1]), d)
    ip.fact(V.is_s(u))
    return SV(u, StrS())


def has_contract(ip, args, kw):
    return SB(CACHED(ip.to_v(args[1])))


CACHED, ASKED_EC = z3.Function("configuration_is_cached", V, z3.BoolSort()), z3.Function("configuration_asked_for", V, V)
NAMED = "federation_fetch_endpoint"
ECF = DictS({"metadata": DictS({"federation_entity": DictS({NAMED: StrS()}, None, [NAMED])}, None, ["federation_entity"])}, None, ["metadata"])


def cached_contract(ip, args, kw):
    return ip.sv(CONFIG(ip.to_v(args[1])), ECF)


def ask_contract(ip, args, kw):
    if len(args) != 2 or args[1] != "entity_configuration" or set(kw) != {"entity_id"}:
        raise Unsupported("another request")
    return ip.sv(ASKED_EC(ip.to_v(kw["entity_id"])), ECF)


def setup_params(given):
    def f(ip):
        recorder(ip)
        col = obj(ip, tcc.TrustChainCollector, {"config_cache": obj(ip, ESCache, {}, "config_cache")})
        fn = obj(ip, GhostFed, {"trust_chain_collector": col})
        ip.FED = obj(ip, GhostFed, {"client": obj(ip, GhostClient, {}), "function": fn})
        me = obj(ip, esc.EntityStatement, {"http_method": "GET", "endpoint_name": NAMED})
        i, s, fe = (ip.fresh_v(n, StrS()) for n in ("issuer", "subject", "fetch_endpoint"))
        kw = {"issuer": i, "subject": s}
        ip.fact(z3.And(i.t != S(""), s.t != S("")))
        if given:
            kw["fetch_endpoint"] = fe
            ip.fact(fe.t != S(""))
        return [me], kw, {"i": i.t, "s": s.t, "fe": fe.t if given else None}
    return f


def post_params(ip, g, comp):
    stated = lambda ec: get(get(get(ec, S("metadata")), S("federation_entity")), S(NAMED))
    ecs = [CONFIG(g["i"]), ASKED_EC(g["i"])]
    if comp[0] == "raise":
        return [("raises only when the issuer states no fetch endpoint", z3.Or(*[stated(e) == S("") for e in ecs]) if g["fe"] is None else False)]
    u = pb.getitem(ip, comp[1], "url")
    d = ip.fresh_v("query", DictS())
    ip.fact(z3.And(isdict(d.t), has(d.t, S("iss")), has(d.t, S("sub")), get(d.t, S("iss")) == g["i"], get(d.t, S("sub")) == g["s"]))
    t = ip.to_v(u)
    ends = [g["fe"]] if g["fe"] is not None else [stated(e) for e in ecs]
    if not z3.is_app(t) or t.decl().name() != "request_url":
        raise Unsupported("a URL that is not a message's request")
    e, q = t.children()
    return [("the fetch endpoint of the issuer is asked", z3.Or(*[e == w for w in ends])),
            ("about exactly the subject, by the issuer", z3.And(has(q, S("iss")), get(q, S("iss")) == g["i"], has(q, S("sub")), get(q, S("sub")) == g["s"])),
            ("and nothing else is asked for", FA([x], z3.Implies(has(q, x), z3.Or(x == S("iss"), x == S("sub"))), has(q, x)))]


# ---- collect_trust_chains
FUN = "fedservice.entity.function"
COLLECTED, CHAINS, SELF = z3.Function("collected_tree", V, V, V), z3.Function("chains_of", V, V), z3.Function("self_signed", V, V)
SIGNED_EC, TREE_OF = z3.Function("signed_configuration_of", V, V), z3.Function("tree_from_configuration", V, V, V, V)


def collector_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.__call__, args, kw)
    if p["seen"] is not None:
        raise Unsupported("seen from the start")
    e, stop = ip.to_v(p["entity_id"]), ip.to_v(p["stop_at"])
    if ip.branch(z3.Bool(ip.fresh_name("unreachable"))):
        raise PyRaise(ExcVal(FailedConfigurationRetrieval))
    if ip.branch(z3.Bool(ip.fresh_name("no_configuration"))):
        record(ip, "nothing")
        return None
    t = COLLECTED(e, stop)
    ip.fact(z3.And(isdict(t), V.is_s(SIGNED_EC(e))))
    return (SV(t, DictS()), SV(SIGNED_EC(e), StrS()))


def tree_from_contract(ip, args, kw):
    p = bind(ip, tcc.TrustChainCollector.collect_tree, args, kw)
    if p["seen"] is not None:
        raise Unsupported("seen from the start")
    d = p["entity_configuration"]
    # the configuration as it is now: the self signed one but for the authority hints
    require(ip, FA([x], z3.Implies(x != S("authority_hints"), z3.And(has(ip.to_v(d), x) == has(ip.EC, x), z3.Implies(has(ip.EC, x), get(ip.to_v(d), x) == get(ip.EC, x))))))
    hints = lambda t: z3.If(has(t, S("authority_hints")), get(t, S("authority_hints")), V.none)
    t = TREE_OF(ip.to_v(p["entity_id"]), hints(ip.to_v(d)), ip.to_v(p["stop_at"]))
    ip.fact(isdict(t))
    return SV(t, DictS())


def self_signed_contract(ip, args, kw):
    record(ip, "self_signed", args[0])
    if ip.branch(z3.Bool(ip.fresh_name("bad_signature"))):
        raise PyRaise(ExcVal(BadSignature))
    t = ip.EC
    return ip.alloc(DDict(t, (), DictS()))


def unverified_contract(ip, args, kw):
    return ip.fresh_v("unverified", DictS())


def chains_contract(ip, args, kw):
    t = CHAINS(ip.to_v(args[0]))
    ip.fact(islist(t))
    return SV(t, ListS())


def setup_ctc(how):
    def f(ip):
        recorder(ip)
        fn = obj(ip, GhostFed, {"trust_chain_collector": obj(ip, tcc.TrustChainCollector, {})})
        ip.FED = obj(ip, GhostFed, {"function": fn})
        e, stop = ip.fresh_v("entity_id", StrS()), ip.fresh_v("stop_at", StrS())
        ip.EC = ip.fresh_v("configuration", DictS()).t
        ip.fact(isdict(ip.EC))
        kw, g = {"stop_at": stop}, {"e": e.t, "stop": stop.t, "sec": None, "hints": None}
        if how:
            sec = ip.fresh_v("signed", StrS())
            ip.fact(sec.t != S(""))
            kw["signed_entity_configuration"], g["sec"] = sec, sec.t
            if how == "hints":
                h = ip.fresh_v("hints", ListS(StrS()))
                kw["authority_hints"], g["hints"] = h, h.t
        return [obj(ip, GhostFed, {}), e], kw, g
    return f


def post_ctc(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only when an authority can not be reached, or the configuration is not self signed",
                 issubclass(comp[1].cls, (FailedConfigurationRetrieval, BadSignature)))]
    if not isinstance(comp[1], tuple) or len(comp[1]) != 2:
        raise Unsupported("not a pair")
    r, s = (ip.to_v(v) for v in comp[1])
    empty = lambda t: FA([x], z3.Not(has(t, x)), has(t, x))
    none = length(r) == 0
    if g["sec"] is None:
        t = COLLECTED(g["e"], g["stop"])
        if recorded(ip, "nothing"):
            return [("nothing collected, no chains", z3.And(none, s == V.none))]
        return [("the chains of the tree collected for the entity, up to the anchor asked for", z3.Or(r == CHAINS(t), z3.And(none, empty(t)))),
                ("with the configuration they were collected from", s == SIGNED_EC(g["e"]))]
    ec = ip.EC
    own = z3.If(has(ec, S("authority_hints")), get(ec, S("authority_hints")), V.none)
    hints = own if g["hints"] is None else z3.If(length(g["hints"]) > 0, g["hints"], own)
    t = TREE_OF(g["e"], hints, g["stop"])
    rec = recorded(ip, "self_signed")
    return [("the chains of the tree above the entity, by the hints in force, up to the anchor asked for", z3.Or(r == CHAINS(t), z3.And(none, empty(t)))),
            ("the configuration handed in is verified", len(rec) > 0 and z3.And(*[q[0] == g["sec"] for q in rec])),
            ("and returned", s == g["sec"])]


W = {FUN + ".unverified_entity_statement": unverified_contract, FUN + ".tree2chains": chains_contract, FUN + ".verify_self_signed_signature": self_signed_contract,
     "fedservice.entity.utils.get_federation_entity": fed_contract, T + "__call__": collector_contract, T + "collect_tree": tree_from_contract}
ASK = {"fedservice.entity.utils.get_federation_entity": fed_contract, T + "get_document": document_contract,
       "contracts.C08.GhostClient.get_service": service_contract, "contracts.C08.GhostClient.do_request": ask_contract,
       "contracts.C08.GhostService.get_request_parameters": parameters_contract}
PAR = {**ASK, **MSG, "idpyoidc.message.Message": message_class(), "contracts.common.Msg.request": request_contract,
       "fedservice.entity_statement.cache.ESCache.__contains__": has_contract, "fedservice.entity_statement.cache.ESCache.__getitem__": cached_contract}
BC = {T + "_get_entity_statement": statement_contract, T + "get_federation_fetch_endpoint": fetch_endpoint_contract,
      T + "collect_tree": tree_contract, "fedservice.entity_statement.cache.ESCache.__getitem__": config_contract}
CONTRACTS = [
    Contract("TrustChainCollector.collect_tree", TCC + ":TrustChainCollector.collect_tree", setup_tree(True), post_tree, hooks=[hook],
             contracts={T + "collect_branch": branch_contract}),
    Contract("TrustChainCollector.collect_tree (first call)", TCC + ":TrustChainCollector.collect_tree", setup_tree(False), post_tree, hooks=[hook],
             contracts={T + "collect_branch": branch_contract}),
    Contract("TrustChainCollector.collect_branch", TCC + ":TrustChainCollector.collect_branch", setup_branch(True), post_branch, contracts=BC),
    Contract("TrustChainCollector.collect_branch (nothing seen)", TCC + ":TrustChainCollector.collect_branch", setup_branch(False), post_branch, contracts=BC),
    Contract("TrustChainCollector.get_entity_statement", TCC + ":TrustChainCollector.get_entity_statement", setup_asked, post_asked, contracts=ASK),
    Contract("TrustChainCollector.get_document", TCC + ":TrustChainCollector.get_document", setup_document, post_document,
             contracts={"fedservice.entity.utils.get_federation_entity": fed_contract}),
    Contract("TrustChainCollector.get_entity_configuration", TCC + ":TrustChainCollector.get_entity_configuration", setup_conf, post_conf, contracts=ASK),
    Contract("EntityStatement.get_request_parameters", esc.__name__ + ":EntityStatement.get_request_parameters", setup_params(True), post_params, contracts=PAR),
    Contract("EntityStatement.get_request_parameters (endpoint looked up)", esc.__name__ + ":EntityStatement.get_request_parameters", setup_params(False),
             post_params, contracts=PAR),
] + [Contract(f"collect_trust_chains ({n})", FUN + ":collect_trust_chains", setup_ctc(h), post_ctc, contracts=W)
     for h, n in ((None, "looked up"), ("own", "configuration given"), ("hints", "configuration and hints given"))]
