"""C14 - which subordinates a listing names: List.process_request, filter, trust_mark_id, collect_subordinates."""
from .common import *
from fedservice.entity.function import trust_chain_collector as tcc
from fedservice.entity.server import list as ls

x, y = z3.Consts("x y", V)
j, i = z3.Ints("jj ii")
MOD = "fedservice.entity.server.list"
TYPES, TYPE, INTER, MARKED, MARKID, MARKS, META, ID = (S(n) for n in ("entity_types", "entity_type", "intermediate", "trust_marked", "trust_mark_id", "trust_marks", "metadata", "id"))
TRUE = z3.Function("holds", V, B)                    # the truth value of what is registered or asked for
IDOF = z3.Function("trust_mark_id_of", V, V)
CONF = z3.Const("entity_configurations", V)          # of the subordinates whose configuration could be had
PAYLOAD = z3.Function("payload_of", V, V)            # of a signed JWT
SIGNED = z3.Function("is_signed_jwt", V, B)
EC, UNPACKED = z3.Function("entity_configuration_of", V, V), z3.Function("unpacked", V, V)


class GhostCollector:
    def get_entity_configuration(self, entity_id): pass


class GhostJWT:
    def unpack(self, token): pass


def nonempty(t):
    return z3.And(islist(t), length(t) > 0)


def marks_of(conf):
    return z3.If(has(conf, MARKS), get(conf, MARKS), S(None))


def conf_facts(ip, t):
    """entity configurations as they were verified: dictionaries, with dictionary metadata and a list of trust marks if there are any"""
    m = get(get(t, x), MARKS)
    ip.fact(z3.And(isdict(t), FA([x], z3.Implies(has(t, x), z3.And(isdict(get(t, x)), z3.Implies(has(get(t, x), META), isdict(get(get(t, x), META))),
                                                                    z3.Implies(has(get(t, x), MARKS), islist(m)))), has(t, x), get(t, x))))


# ---- filter: all filters that are given must match
# the same predicate, by name: what filter decides (List.filter) and what process_request relies on
MATCHES = z3.Function("matches_filters", V, V, B, V, B)


def matches(conf, etype, marked, markid):
    """etype, markid: string terms, '' = not given; marked: a truth value"""
    ms = marks_of(conf)
    return z3.And(z3.Or(etype == S(""), z3.And(has(conf, META), has(get(conf, META), etype))),
                  z3.Implies(marked, nonempty(ms)),
                  z3.Or(markid == S(""), z3.And(nonempty(ms), EX([j], z3.And(rng(j, length(ms)), IDOF(at(ms, j)) == markid), at(ms, j)))))


FILTER = DictS({}, DictS({"metadata": DictS(), "trust_marks": ListS()}))


def setup_filter(ip):
    d = ip.fresh_v("subordinates", FILTER)
    conf_facts(ip, d.t)
    e, m = ip.fresh_v("entity_type", StrS()), ip.fresh_v("trust_mark_id", StrS())
    t = SB(z3.Bool("trust_marked"))
    ip.input_names |= {"trust_marked"}
    ip.G14 = (d.t, e.t, t.t, m.t)
    return [obj(ip, ls.List, {}, "endpoint"), d], {"entity_type": e, "trust_mark_id": m, "trust_marked": t}, {}


def exactly(ip, r, want):
    """the list r names exactly what is wanted, each once"""
    return [("only subordinates that match every filter", FA([x], z3.Implies(mem(r, x), want(x)), mem(r, x))),
            ("every subordinate that matches every filter", FA([x], z3.Implies(want(x), mem(r, x)), mem(r, x))),
            ("each once", FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < length(r)), at(r, i) != at(r, j)), z3.MultiPattern(at(r, i), at(r, j))))]


def post_filter(ip, g, comp):
    if comp[0] == "raise":
        return [("does not raise", False)]
    d, e, t, m = ip.G14
    return exactly(ip, ip.to_v(comp[1]), lambda y: z3.And(has(d, y), matches(get(d, y), e, t, m)))


def hook_filter(ip, L):
    g = getattr(ip, "G14", None)
    done = getattr(L.seq, "done", None)
    if g is None or done is None or getattr(L.seq, "at", None) is None:
        return {}
    d, e, t, m = g
    want = lambda k, y: z3.And(done(k, y), has(d, y), matches(get(d, y), e, t, m))
    out = {}
    for c in L.cells.values():
        if c.tag in ("list", "set", "dict"):
            out[c.name + ":matches"] = lambda k, c=c: FA([x], c.mem(k, x) == want(k, x), c.mem(k, x))
        if c.tag == "list":
            out[c.name + ":once"] = lambda k, c=c: FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c.len(k)), c.at(k, i) != c.at(k, j)), z3.MultiPattern(c.at(k, i), c.at(k, j)))
            out[c.name + ":done"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), done(k, x)), c.mem(k, x))
    return out


def id_contract(ip, args, kw):
    b = bind(ip, ls.List.trust_mark_id, args, kw)
    return SV(IDOF(ip.to_v(b["trust_mark"])))


# ---- trust_mark_id: the identifier in an object or in a signed JWT
def setup_id(ip):
    t = ip.fresh("trust_mark", V)
    ip.fact(z3.Or(V.is_s(t), isdict(t)))
    return [SV(t)], {}, {"t": t}


def factory_contract(ip, args, kw):
    t = ip.to_v(args[0])
    if ip.branch(SIGNED(t)):
        ip.fact(isdict(PAYLOAD(t)))
        jwt = obj(ip, None, {"payload": Ext("payload", lambda ip, a, k: SV(PAYLOAD(t), DictS()))}, "jwt")
        return obj(ip, None, {"jwt": jwt}, "jws")
    return None


def post_id(ip, g, comp):
    if comp[0] == "raise":
        return [("does not raise", False)]
    t, r = g["t"], ip.to_v(comp[1])
    body = z3.If(isdict(t), t, PAYLOAD(t))
    return [("the identifier it has", r == z3.If(z3.And(z3.Or(isdict(t), SIGNED(t)), has(body, ID)), get(body, ID), S(None)))]


# ---- collect_subordinates: the configuration of every subordinate that has one
def setup_collect(ip):
    d = ip.fresh_v("subordinate", DictS({}, DictS({"jwks": DictS()}, None, ["jwks"])))
    ip.fact(FA([x], z3.Implies(has(d.t, x), z3.And(isdict(get(d.t, x)), has(get(d.t, x), S("jwks")), isdict(get(get(d.t, x), S("jwks"))))), has(d.t, x), get(d.t, x)))
    ip.G14 = d.t
    fed = obj(ip, None, {"function": obj(ip, None, {"trust_chain_collector": obj(ip, GhostCollector, {}, "collector")}, "function"),
                         "server": obj(ip, None, {"subordinate": d}, "server")}, "federation_entity")
    srv = obj(ip, None, {"subordinate": d, "upstream_get": Ext("upstream_get", lambda ip, a, k: fed)}, "server_entity")
    return [obj(ip, ls.List, {"upstream_get": Ext("upstream_get", lambda ip, a, k: srv)}, "endpoint")], {}, {}


def ec_contract(ip, args, kw):
    b = bind(ip, GhostCollector.get_entity_configuration, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("not_reachable"))):
        raise PyRaise(ExcVal(ValueError))
    t = EC(ip.to_v(b["entity_id"]))
    ip.fact(z3.Or(V.is_none(t), V.is_s(t)))
    return SV(t, OptS(StrS()))


def unpack_contract(ip, args, kw):
    b = bind(ip, GhostJWT.unpack, args, kw)
    t = ip.to_v(b["token"])
    if ip.branch(z3.Bool(ip.fresh_name("not_verified"))):
        raise PyRaise(ExcVal(ValueError))
    ip.fact(isdict(UNPACKED(t)))
    return SV(UNPACKED(t), DictS())


def fetched(e):
    return z3.And(z3.Not(V.is_none(EC(e))), EC(e) != S(""))


def post_collect(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only if a configuration cannot be had or does not verify", issubclass(comp[1].cls, ValueError))]
    d, r = ip.G14, ip.to_v(comp[1])
    return [("every subordinate that has a configuration, no other", FA([x], has(r, x) == z3.And(has(d, x), fetched(x)), has(r, x))),
            ("its own configuration", FA([x], z3.Implies(has(r, x), get(r, x) == UNPACKED(EC(x))), has(r, x)))]


def hook_collect(ip, L):
    d, done = getattr(ip, "G14", None), getattr(L.seq, "done", None)
    if d is None or done is None:
        return {}
    out = {}
    for c in L.cells.values():
        if c.tag == "dict":
            out[c.name + ":configurations"] = lambda k, c=c: FA([x], z3.And(c.mem(k, x) == z3.And(done(k, x), has(d, x), fetched(x)), z3.Implies(c.mem(k, x), c.get(k, x) == UNPACKED(EC(x)))), c.mem(k, x))
    return out


# ---- process_request
def setup_request(extended, request):
    def setup(ip):
        recorder(ip)
        d = ip.fresh_v("registered", DictS({}, DictS({"entity_types": None, "entity_type": None, "intermediate": BoolS()})))
        f = lambda n: get(get(d.t, x), n)
        ok = lambda n: z3.Implies(has(get(d.t, x), n), z3.Or(V.is_s(f(n)), islist(f(n))))
        ip.fact(z3.And(isdict(d.t), FA([x], z3.Implies(has(d.t, x), z3.And(isdict(get(d.t, x)), ok(TYPES), ok(TYPE), z3.Implies(has(get(d.t, x), INTER), V.is_b(f(INTER))))), has(d.t, x), get(d.t, x))))
        ip.DB = d.t
        ip.fact(FA([x], z3.Implies(has(CONF, x), has(d.t, x)), has(CONF, x)))
        conf_facts(ip, CONF)
        ip.input_names |= {"entity_configurations"}
        srv = obj(ip, None, {"subordinate": d}, "server_entity")
        me = obj(ip, ls.List, {"upstream_get": Ext("upstream_get", lambda ip, a, k: srv), "extended": extended}, "endpoint")
        if not request:
            ip.Q = None
            return [me, None], {}, {}
        q = ip.fresh_v("request", DictS({"entity_type": StrS(), "intermediate": BoolS(), "trust_marked": BoolS(), "trust_mark_id": StrS()}))
        ip.Q = q.t
        ip.fact(z3.And(*[z3.Implies(has(q.t, n), p(get(q.t, n))) for n, p in ((TYPE, V.is_s), (MARKID, V.is_s), (INTER, V.is_b), (MARKED, V.is_b))]))
        return [me, message(ip, q)], {}, {}
    return setup


def given(q, n):
    return z3.And(has(q, n), get(q, n) == S(True))


def registered(d, q, y):
    """registered, and what is registered satisfies the filters on the registration"""
    item = get(d, y)
    ts = z3.If(has(item, TYPES), get(item, TYPES), get(item, TYPE))
    ok = z3.And(z3.Or(has(item, TYPES), has(item, TYPE)), z3.If(V.is_s(ts), ts == get(q, TYPE), mem(ts, get(q, TYPE))))
    return z3.And(has(d, y), z3.Implies(given(q, INTER), z3.And(has(item, INTER), get(item, INTER) == S(True))), z3.Implies(has(q, TYPE), ok))


def wanted(d, q, y):
    if q is None:
        return has(d, y)
    ask = z3.Or(given(q, MARKED), z3.And(has(q, MARKID), get(q, MARKID) != S("")))
    return z3.And(registered(d, q, y), z3.Implies(ask, z3.And(has(CONF, y), MATCHES(get(CONF, y), S(""), given(q, MARKED), z3.If(has(q, MARKID), get(q, MARKID), S(""))))))


def collect_contract(ip, args, kw):
    if ip.branch(z3.Bool(ip.fresh_name("collection_fails"))):
        raise PyRaise(ExcVal(ValueError))
    return SV(CONF, FILTER)


def filter_contract(ip, args, kw):
    b = bind(ip, ls.List.filter, args, kw)
    d, e, m = ip.to_v(b["subordinates"]), ip.to_v(b["entity_type"]), ip.to_v(b["trust_mark_id"])
    t = truthy(ip, b["trust_marked"])
    require(ip, z3.And(d == CONF, V.is_s(e), V.is_s(m)))
    r = ip.fresh("matching", V)
    ip.fact(z3.And(islist(r), length(r) >= 0))
    ip.fact(FA([x], mem(r, x) == z3.And(has(d, x), MATCHES(get(d, x), e, t, m)), mem(r, x), has(d, x)))
    # (each once: the caller makes a set of it or passes it on)
    ip.fact(FA([i], z3.Implies(rng(i, length(r)), idx(r, at(r, i)) == i), at(r, i)))
    return SV(r, ListS(StrS()))


def dumps_contract(ip, args, kw):
    record(ip, "listed", args[0])
    return SV(ip.fresh("json", V), StrS())


def post_request(ip, g, comp):
    rs = recorded(ip, "listed")
    if comp[0] == "raise":
        return [("raises only if a configuration cannot be had or does not verify", z3.And(z3.BoolVal(issubclass(comp[1].cls, ValueError)), z3.BoolVal(ip.Q is not None)))]
    if len(rs) != 1:
        return [("one list", False)]
    r = rs[0][0]
    w = lambda y: wanted(ip.DB, ip.Q, y)
    return [("what is listed: " + n, z3.Implies(islist(r), f)) for n, f in exactly(ip, r, w)] + \
        [("a list, or an object with one member each in the extended form", z3.Or(islist(r), z3.And(isdict(r), FA([x], has(r, x) == w(x), has(r, x)))))]


def hook_request(ip, L):
    d, q, done = getattr(ip, "DB", None), getattr(ip, "Q", None), getattr(L.seq, "done", None)
    if d is None or q is None or done is None or getattr(L.seq, "at", None) is None:
        return {}
    out = {}
    for c in L.cells.values():
        if c.tag in ("set", "list", "dict"):
            out[c.name + ":registered"] = lambda k, c=c: FA([x], c.mem(k, x) == z3.And(done(k, x), registered(d, q, x)), c.mem(k, x))
        if c.tag == "list":
            out[c.name + ":once"] = lambda k, c=c: FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c.len(k)), c.at(k, i) != c.at(k, j)), z3.MultiPattern(c.at(k, i), c.at(k, j)))
            out[c.name + ":done"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), done(k, x)), c.mem(k, x))
    return out


JC = {"json.dumps": dumps_contract}
RC = {**MSG, **JC, MOD + ":List.collect_subordinates": collect_contract, MOD + ":List.filter": filter_contract,
      MOD + ".List.collect_subordinates": collect_contract, MOD + ".List.filter": filter_contract}
GC = {"contracts.C14.GhostCollector.get_entity_configuration": ec_contract, "contracts.C14.GhostJWT.unpack": unpack_contract,
      "cryptojwt.jwt.JWT": lambda ip, a, k: obj(ip, GhostJWT, {}, "jwt"), "cryptojwt.key_jar.KeyJar": lambda ip, a, k: obj(ip, None, {}, "keyjar"),
      **{m + ".import_jwks": lambda ip, a, k: a[0] for m in ("idpyoidc.key_import", "sitecustomize")}}

CONTRACTS = [
    Contract("List.filter", MOD + ":List.filter", setup_filter, post_filter, hooks=[hook_filter], contracts={MOD + ".List.trust_mark_id": id_contract}),
    Contract("List.trust_mark_id", MOD + ":List.trust_mark_id", setup_id, post_id, contracts={"cryptojwt.jws.jws.factory": factory_contract}),
    Contract("List.collect_subordinates", MOD + ":List.collect_subordinates", setup_collect, post_collect, hooks=[hook_collect], contracts=GC),
    Contract("List.process_request (no request)", MOD + ":List.process_request", setup_request(False, False), post_request, contracts=RC),
    Contract("List.process_request (filters)", MOD + ":List.process_request", setup_request(False, True), post_request, hooks=[hook_request], contracts=RC),
    Contract("List.process_request (extended listing)", MOD + ":List.process_request", setup_request(True, True), post_request, hooks=[hook_request], contracts=RC),
]
