"""C13 - what a fetch endpoint states, about whom, and in whose name."""
from .common import *
from fedservice.entity.server import fetch
from fedservice.entity_statement import create

x, y, et = z3.Consts("x y et", V)
j, i = z3.Ints("jj ii")
SUB, JWKS, MD, MP, ET, HINTS = (S(n) for n in ("sub", "jwks", "metadata", "metadata_policy", "entity_types", "authority_hints"))


class GhostUnit:
    def get_metadata(self): pass


def create_contract(ip, args, kw):
    """C22: the statement that is signed"""
    kw = dict(kw)
    d = kw.pop("**", None)
    names = ["iss", "sub", "key_jar", "metadata", "metadata_policy", "authority_hints"]
    b = {**dict(zip(names, args)), **kw}
    c = ip.alloc(DDict(None, ())) if d is None else ip.alloc(pb.dict_content(ip, d))
    for k, v in b.items():
        if k not in ("iss", "sub", "key_jar"):
            pb.setitem(ip, c, k, v)
    kj = b.get("key_jar")
    record(ip, "statement", b["iss"], b["sub"], ip.alloc(pb.dict_content(ip, c)), SB(z3.BoolVal(isinstance(kj, Ref) and kj.id == ip.KJ.id)))
    return SV(ip.fresh("statement", V), StrS())


def setup(ip):
    recorder(ip)
    q = ip.fresh_v("request", DictS({"sub": StrS()}, None))
    ip.fact(z3.And(isdict(q.t), z3.Implies(has(q.t, SUB), V.is_s(get(q.t, SUB)))))
    own = ip.fresh_v("entity_id", StrS())
    REG = DictS({"entity_types": ListS(StrS())}, None)
    TYPEPOL = DictS({"metadata": DictS(), "metadata_policy": DictS()}, None)
    sub = ip.fresh_v("subordinates", DictS({}, REG))
    pol = ip.fresh_v("policies", DictS({}, TYPEPOL))
    s, p = get(sub.t, x), get(pol.t, x)
    ip.fact(z3.And(isdict(sub.t), isdict(pol.t), FA([x], z3.Implies(has(sub.t, x), z3.And(isdict(s), z3.Implies(has(s, ET), z3.And(islist(get(s, ET)), length(get(s, ET)) >= 0)))), has(sub.t, x)),
                   FA([x], z3.Implies(has(pol.t, x), z3.And(isdict(p), *[z3.Implies(has(p, n), isdict(get(p, n))) for n in (MD, MP)])), has(pol.t, x))))
    md = ip.fresh_v("own_metadata", DictS())
    kj = ip.KJ = obj(ip, None, {}, "keyjar")
    ectx = obj(ip, None, {"entity_id": own}, "entity_context")
    entity = obj(ip, GhostUnit, {"context": ectx}, "entity")
    server = obj(ip, None, {"upstream_get": Ext("upstream_get", lambda ip, a, k: entity), "subordinate": sub, "policy": pol}, "server")
    ip.OWNMD = md

    def up(ip, a, k):
        a = list(a)
        if a == ["attribute", "entity_id"]:
            return own
        if a == ["attribute", "keyjar"]:
            return kj
        if a in (["server"], ["unit"]):
            return server
        if a == ["context"]:
            return ectx
        if a == ["authority_hints"]:
            return ip.fresh_v("my_hints", None)
        raise Unsupported("upstream_get")
    me = obj(ip, fetch.Fetch, {"upstream_get": Ext("upstream_get", up)}, "endpoint")
    ip.ENV = (sub.t, pol.t, get(q.t, SUB))
    return [me, message(ip, q)], {}, {"q": q.t, "own": own.t, "sub": sub.t, "pol": pol.t, "md": md.t}


def contributes(pol, t, n):
    """entity type t has a policy that states an n"""
    p = get(pol, t)
    return z3.And(has(pol, t), length(p) > 0, has(p, n))


def post(ip, g, comp):
    st = recorded(ip, "statement")
    q, own = g["q"], g["own"]
    s = get(q, SUB)
    mine = z3.Or(z3.Not(has(q, SUB)), z3.Not(truthy(ip, SV(s, StrS()))), s == own)
    known = z3.And(has(g["sub"], s), length(get(g["sub"], s)) > 0)
    if comp[0] == "raise":
        return [("refused: nothing is stated", z3.BoolVal(not st and not issubclass(comp[1].cls, CallPrecondition))), ("only unknown subordinates are refused", z3.And(z3.Not(mine), z3.Not(known)))]
    if len(st) != 1:
        return [("one statement", False)]
    iss, sub, c, kj = st[0]
    r = get(g["sub"], s)
    p = get(g["pol"], s)
    own_policy = z3.And(has(g["pol"], s), length(p) > 0)
    T = get(r, ET)
    same = lambda a, b, n: z3.And(has(a, n) == has(b, n), z3.Implies(has(a, n), get(a, n) == get(b, n)))
    out = [("in its own name", z3.And(iss == own, kj == S(True))), ("about the requested subject", sub == z3.If(mine, own, s)), ("a registered subordinate, or itself", z3.Or(mine, known)),
           ("itself: its own metadata, its own keys", z3.Implies(mine, z3.And(has(c, MD), get(c, MD) == g["md"], z3.Not(has(c, JWKS)), z3.Not(has(c, MP))))),
           ("the registered keys", z3.Implies(z3.And(z3.Not(mine), z3.Not(z3.And(own_policy, has(p, JWKS)))), same(c, r, JWKS)))]
    for label, n in (("metadata", MD), ("metadata policy", MP)):
        m = get(c, n)
        out += [(f"the {label} configured for the subordinate", z3.Implies(z3.And(z3.Not(mine), own_policy), z3.If(has(p, n), z3.And(has(c, n), get(c, n) == get(p, n)), same(c, r, n)))),
                (f"no {label} configured", z3.Implies(z3.And(z3.Not(mine), z3.Not(own_policy), z3.Not(has(r, ET))), same(c, r, n))),
                (f"otherwise the {label} of its entity types", z3.Implies(z3.And(z3.Not(mine), z3.Not(own_policy), has(r, ET), mem(T, et), contributes(g["pol"], et, n)),
                                                                          z3.And(has(c, n), has(m, et), get(m, et) == get(get(g["pol"], et), n)))),
                (f"and no other {label}", z3.Implies(z3.And(z3.Not(mine), z3.Not(own_policy), has(r, ET), z3.Not(has(r, n)), has(c, n), has(m, et)), z3.And(mem(T, et), contributes(g["pol"], et, n))))]
    return out


def hook(ip, L):
    out = {}
    if getattr(L.seq, "at", None) is None or getattr(ip, "ENV", None) is None or isinstance(L.seq.at(z3.IntVal(0)), tuple):
        return out
    pol = ip.ENV[1]
    for c in L.cells.values():
        if c.tag != "dict":
            continue
        for label, n in (("metadata", MD), ("metadata policy", MP)):
            def filled(k, c=c, n=n):
                t = ip.to_v(L.seq.at(j))
                return FA([j], z3.Implies(z3.And(rng(j, k), contributes(pol, t, n)), z3.And(c.mem(k, t), c.get(k, t) == get(get(pol, t), n))), t)
            out[f"{c.name}: {label} of the types so far"] = filled
    return out


# ---- the file based service
import fedservice.fetch_entity_statement as fes
from fedservice.fetch_entity_statement import fs2

EID, INFO, PUB, UNQ = z3.Function("entity_id_of", V, V, V), z3.Function("info_about", V, V), z3.Function("keys_of", V, V), z3.Function("unquoted", V, V)
EXISTS, CONTENT = z3.Function("file_exists", V, z3.BoolSort()), z3.Function("file_content", V, V)
PATH, LOADED = z3.Function("file_path", V, V, V, V, V), z3.Function("has_keys_of", V, z3.BoolSort())
FS = "fedservice.fetch_entity_statement."


class GhostKeys:
    def export_jwks(self, private=False, issuer_id="", usage=None): pass
    def __contains__(self, k): pass


def id_contract(ip, args, kw):
    t = EID(ip.to_v(ip.heap[args[0].id].fields["entity_id_pattern"]), ip.to_v(args[1]))
    ip.fact(z3.And(V.is_s(t), t != S("")))
    return SV(t, StrS())


def unquote_contract(ip, args, kw):
    ip.assumptions.add("percent-decoding (urllib) is an uninterpreted function")
    t = UNQ(ip.to_v(args[0]))
    ip.fact(V.is_s(t))
    return SV(t, StrS())


def export_contract(ip, args, kw):
    b = {**dict(zip(["self", "private", "issuer_id", "usage"], args)), **kw}
    if b.get("private", False) is not False or b.get("usage") is not None or "issuer_id" not in b:
        raise Unsupported("another export of keys")
    t = PUB(ip.to_v(b["issuer_id"]))
    ip.fact(isdict(t))
    return SV(t, DictS())


def subject_id(ip, pattern, sub):
    enc = pb.str_method(ip, SV(sub, StrS()), "startswith", ["https%3A%2F%2F"], {})
    return z3.If(ip.zb(ip.truth(enc)), UNQ(sub), EID(pattern, sub))


def info_contract(ip, args, kw):
    t = INFO(ip.to_v(args[1]))
    ip.fact(isdict(t))
    if ip.branch(z3.Bool(ip.fresh_name("no_info"))):
        raise PyRaise(ExcVal(FileNotFoundError))
    return ip.alloc(DDict(t, (), DictS()))


def setup_made(ip):
    recorder(ip)
    iss, pat, sub, kw = ip.fresh_v("iss", StrS()), ip.fresh_v("pattern", StrS()), ip.fresh_v("sub", StrS()), ip.fresh_v("further", DictS())
    kj = ip.KJ = obj(ip, GhostKeys, {}, "keyjar")
    me = obj(ip, fes.FetchEntityStatement, {"iss": iss, "entity_id_pattern": pat, "keyjar": kj}, "service")
    ip.fact(z3.And(isdict(kw.t), *[z3.Not(has(kw.t, S(n))) for n in ("sub", "iss", "key_jar", "self")]))
    return [me, sub], {"**": kw}, {"iss": iss.t, "pat": pat.t, "sub": sub.t, "kw": kw.t}


def post_made(ip, g, comp):
    st = recorded(ip, "statement")
    if comp[0] == "raise":
        return [("refused only when there is nothing about the subject", issubclass(comp[1].cls, FileNotFoundError) and not st)]
    if len(st) != 1:
        return [("one statement", False)]
    iss, sub, c, kj = st[0]
    info, sid = INFO(g["sub"]), subject_id(ip, g["pat"], g["sub"])
    return [("in its own name", z3.And(iss == EID(g["pat"], g["iss"]), kj == S(True))), ("about the requested subject", sub == sid),
            ("the subject's registered keys", z3.And(has(c, JWKS), get(c, JWKS) == PUB(sid))),
            ("what is registered, or asked for", FA([x], z3.Implies(x != JWKS, z3.And(has(c, x) == z3.Or(has(info, x), has(g["kw"], x)),
             z3.Implies(has(c, x), get(c, x) == z3.If(has(g["kw"], x), get(g["kw"], x), get(info, x)))))))]


# gather_info: the files
def join_contract(ip, args, kw):
    ip.assumptions.add("os.path.join is an uninterpreted function of its arguments; files do not change while a statement is made")
    if len(args) != 4:
        raise Unsupported("os.path.join")
    t = PATH(*[ip.to_v(a) for a in args])
    ip.fact(V.is_s(t))
    return SV(t, StrS())


def isfile_contract(ip, args, kw):
    return SB(EXISTS(ip.to_v(args[0])))


class GhostFile:
    def read(self): pass


def open_contract(ip, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("open")
    require(ip, EXISTS(ip.to_v(args[0])))
    return obj(ip, GhostFile, {"path": args[0]}, "file")


def read_contract(ip, args, kw):
    return ip.heap[args[0].id].fields["path"]


def loads_contract(ip, args, kw):
    return ip.sv(CONTENT(ip.to_v(args[0])), None)


def keys_in(ip, args, kw):
    return SB(LOADED(ip.to_v(args[1])))


def load_contract(ip, args, kw):
    p = bind(ip, fs2.FSFetchEntityStatement.load_jwks, args, kw)
    record(ip, "load", p["sup"], p["sub"], p["sub_id"])
    if ip.branch(z3.Bool(ip.fresh_name("no_keys"))):
        raise PyRaise(ExcVal(FileNotFoundError))
    return None


def setup_info(ip):
    recorder(ip)
    iss, pat, sub, base = (ip.fresh_v(n, StrS()) for n in ("iss", "pattern", "sub", "base_path"))
    me = obj(ip, fs2.FSFetchEntityStatement, {"iss": iss, "entity_id_pattern": pat, "base_path": base, "keyjar": obj(ip, GhostKeys, {}, "keyjar")}, "service")
    return [me, sub], {}, {"iss": iss.t, "pat": pat.t, "sub": sub.t, "base": base.t}


def post_info(ip, g, comp):
    own, sid = EID(g["pat"], g["iss"]), subject_id(ip, g["pat"], g["sub"])
    loads = recorded(ip, "load")
    right = z3.And(*[z3.And(q[0] == g["iss"], z3.Or(z3.And(q[1] == g["iss"], q[2] == own), z3.And(q[1] == g["sub"], q[2] == sid))) for q in loads])
    if comp[0] == "raise":
        return [("refused only when there are no keys", issubclass(comp[1].cls, FileNotFoundError)), ("keys are loaded for whom they are", right)]
    d = ip.to_v(comp[1])
    out = [("keys are loaded for whom they are", right),
           ("the subject's keys are there", z3.Or(LOADED(sid), *[q[2] == sid for q in loads])), ("and so are its own", z3.Or(LOADED(own), *[q[2] == own for q in loads]))]
    files = {"metadata": "metadata.json", "metadata_policy": "policy.json", "constraints": "constraints.json", "authority_hints": "authority.json"}
    for n, f in files.items():
        p = PATH(g["base"], g["iss"], g["sub"], S(f))
        out.append((f"{n}: what the file about the subject says, if there is one", z3.And(has(d, S(n)) == EXISTS(p), z3.Implies(EXISTS(p), get(d, S(n)) == CONTENT(p)))))
    out.append(("nothing else", FA([x], z3.Implies(has(d, x), z3.Or(*[x == S(n) for n in files])))))
    return out


# FSPublisher.get
NETLOC, UPATH, QUERY, QSUB = (z3.Function("url_" + n, V, V) for n in ("netloc", "path", "query", "query_sub"))


def urlparse_contract(ip, args, kw):
    ip.assumptions.add("URLs are taken apart by uninterpreted functions (urllib)")
    t = ip.to_v(args[0])
    for f in (NETLOC, UPATH, QUERY):
        ip.fact(V.is_s(f(t)))
    return obj(ip, None, {"netloc": SV(NETLOC(t), StrS()), "path": SV(UPATH(t), StrS()), "query": SV(QUERY(t), StrS())}, "url")


def parse_qs_contract(ip, args, kw):
    t = QSUB(ip.to_v(args[0]))
    ip.fact(V.is_s(t))
    return ip.alloc(DDict(None, (("sub", ip.listref([SV(t, StrS())]), True),), None))


MADE = z3.Function("statement_by_about", V, V, V)


def made_contract(ip, args, kw):
    o = ip.heap[args[0].id]
    if len(args) != 2 or kw:
        raise Unsupported("a statement with further claims")
    t = MADE(ip.to_v(o.fields["iss"]), ip.to_v(args[1]))
    ip.fact(V.is_s(t))
    return SV(t, StrS())


def service_contract(ip, args, kw):
    b = {**dict(zip(["base_path", "entity_id_pattern", "iss"], args)), **kw}
    record(ip, "service", b["base_path"], b.get("entity_id_pattern", "https://{}"))
    return obj(ip, fs2.FSFetchEntityStatement, {"iss": b["iss"]}, "service")


def response_contract(ip, args, kw):
    b = {**dict(zip(["status_code", "text", "headers"], args)), **kw}
    return obj(ip, None, {"status_code": b["status_code"], "text": b["text"]}, "response")


def setup_published(ip):
    recorder(ip)
    d, u = ip.fresh_v("directory", StrS()), ip.fresh_v("url", StrS())
    return [obj(ip, fs2.FSPublisher, {"dir": d}), u], {}, {"d": d.t, "u": u.t}


def post_published(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    t = ip.to_v(ip.heap[comp[1].id].fields["text"])
    host, well_known = NETLOC(g["u"]), UPATH(g["u"]) == S("/.well-known/openid-federation")
    made = z3.If(well_known, MADE(host, host), MADE(host, NETLOC(QSUB(QUERY(g["u"])))))
    return [("the host's own statement about the entity asked about", t == ip.to_v(SV(made, StrS()))),
            ("made from the published directory", z3.And(*[z3.And(q[0] == g["d"], q[1] == S("https://{}")) for q in recorded(ip, "service")]))]


MAKE = {FS + "FetchEntityStatement.make_entity_id": id_contract, "urllib.parse.unquote_plus": unquote_contract}
SERVICE = {**MAKE, FS + "fs2.FSFetchEntityStatement.gather_info": info_contract, FS + "FetchEntityStatement.gather_info": info_contract,
           "contracts.C13.GhostKeys.export_jwks": export_contract, "fedservice.entity_statement.create.create_entity_statement": create_contract}
READ = {**MAKE, FS + "fs2.FSFetchEntityStatement.load_jwks": load_contract, "contracts.C13.GhostKeys.__contains__": keys_in, "posixpath.join": join_contract,
        "genericpath.isfile": isfile_contract, "io.open": open_contract, "_io.open": open_contract, "builtins.open": open_contract, "contracts.C13.GhostFile.read": read_contract,
        "json.loads": loads_contract}
PUBLISH = {"urllib.parse.urlparse": urlparse_contract, "urllib.parse.parse_qs": parse_qs_contract, FS + "fs2.FSFetchEntityStatement": service_contract,
           FS + "FetchEntityStatement.create_entity_statement": made_contract, FS + "fs2.MockResponse": response_contract}

CONTRACTS = [
    Contract("Fetch.process_request", fetch.__name__ + ":Fetch.process_request", setup, post, hooks=[hook],
             contracts={**MSG, "fedservice.entity_statement.create.create_entity_statement": create_contract, "contracts.C13.GhostUnit.get_metadata": lambda ip, a, k: ip.OWNMD}),
    Contract("FetchEntityStatement.create_entity_statement", FS[:-1] + ":FetchEntityStatement.create_entity_statement", setup_made, post_made, contracts=SERVICE),
    Contract("FSFetchEntityStatement.gather_info", FS + "fs2:FSFetchEntityStatement.gather_info", setup_info, post_info, contracts=READ),
    Contract("FSPublisher.get", FS + "fs2:FSPublisher.get", setup_published, post_published, contracts=PUBLISH),
]
