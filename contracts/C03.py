"""C03 - which trust chains are accepted.

The key jar is ghost state: the set of (issuer, key) pairs it trusts.  A signature verifies with a key: SIG(statement, key)."""
from .common import *
from cryptojwt.exception import BadSignature, MissingKey
from fedservice.entity.function import verifier
from fedservice.entity_statement.statement import TrustChain

x, y, p = z3.Consts("x y p", V)
j, i = z3.Ints("jj ii")
MOD = "fedservice.entity.function.verifier"
VER = MOD + ":TrustChainVerifier."
T = MOD + ".TrustChainVerifier."
SUB, ISS, EXP, JWKS, KEYS = S("sub"), S("iss"), S("exp"), S("jwks"), S("keys")
STATEMENT = DictS({"sub": StrS(), "iss": StrS(), "exp": IntS(), "jwks": DictS({"keys": ListS(DictS())}, None, ["keys"])}, None, ["sub", "iss", "exp"])
NOW = z3.Int("now")
def impexp_init(ip, args, kw):
    ip.assumptions.add("ImpExp.__init__ (idpyoidc) sets no attribute")
    return None


CLOCK = {"idpyoidc.impexp.ImpExp.__init__": impexp_init, "cryptojwt.jwt.utc_time_sans_frac": lambda ip, a, kw: SI(NOW), "time.time": lambda ip, a, kw: SI(NOW)}
ISJWS, PAYLOAD = z3.Function("is_jws", V, B), z3.Function("payload", V, V)
SIG = z3.Function("signature_verifies", V, V, B)
PISS, PKEY = z3.Function("pair_issuer", V, V), z3.Function("pair_key", V, V)
PAIR = z3.Function("pair", V, V, V)
KEYOBJ, DESC = z3.Function("key_of", V, V), z3.Function("description_of", V, V)
KEYSHAPE = ObjS(None, {"kty": StrS(), "use": StrS(), "kid": StrS()})


def sub(t): return get(t, SUB)
def iss(t): return get(t, ISS)


# ---- is_linked
def linked(t):
    n = length(t)
    last = at(t, n - 1)
    return FA([j], z3.Implies(rng(j, n - 1), z3.Or(sub(at(t, j)) == iss(at(t, j + 1)), z3.And(j + 1 == n - 1, sub(at(t, j)) == sub(last)))), at(t, j))


def chain(ip, name="statements", low=0):
    c = ip.fresh_v(name, ListS(STATEMENT))
    n = length(c.t)
    ip.fact(n >= low)
    ip.fact(FA([j], z3.Implies(rng(j, n), st_shape(at(c.t, j))), at(c.t, j)))
    return c


def st_shape(t):
    return z3.And(isdict(t), has(t, SUB), V.is_s(sub(t)), has(t, ISS), V.is_s(iss(t)), has(t, EXP), V.is_i(get(t, EXP)),
                  z3.Implies(has(t, JWKS), z3.And(isdict(get(t, JWKS)), has(get(t, JWKS), KEYS), islist(get(get(t, JWKS), KEYS)))))


def setup_linked(ip):
    c = chain(ip)
    ip.LIST = c.t
    return [obj(ip, verifier.TrustChainVerifier, {}), c], {}, {"c": c.t}


def post_linked(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    return [("linked exactly when every statement is about the issuer of the next (the last may be about the same entity)", truthy(ip, comp[1]) == linked(g["c"]))]


def hook_linked(ip, L):
    t = getattr(ip, "LIST", None)
    if t is None:
        return {}
    n = length(t)
    ok = lambda q: z3.Or(sub(at(t, q)) == iss(at(t, q + 1)), z3.And(q + 1 == n - 1, sub(at(t, q)) == sub(at(t, n - 1))))
    out = {"linked so far": lambda k: FA([j], z3.Implies(rng(j, k), ok(j)), at(t, j))}
    for name, b in bool_cells(L):
        out[name + ":linked"] = lambda k, b=b: b(k) == FA([j], z3.Implies(rng(j, k), ok(j)), at(t, j))
    return out


# ---- trust_chain_expires_at, __call__
def setup_call(ip):
    recorder(ip)
    c = ip.fresh_v("chain", ListS(StrS()))
    ves = chain(ip, "verified")
    ip.fact(FA([j], z3.Implies(rng(j, length(ves.t)), V.iv(get(at(ves.t, j), EXP)) >= 0), at(ves.t, j)))
    ip.VES = ves
    ip.CHAIN = c.t
    return [obj(ip, verifier.TrustChainVerifier, {}), c], {}, {"c": c.t, "v": ves.t}


def verify_contract(ip, args, kw):
    b = bind(ip, verifier.TrustChainVerifier.verify_trust_chain, args, kw)
    require(ip, ip.to_v(b["entity_statement_list"]) == ip.CHAIN)
    if ip.branch(z3.Bool(ip.fresh_name("missing_key"))):
        raise PyRaise(ExcVal(MissingKey))
    return ip.VES


def post_vcall(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only what the verification raises", issubclass(comp[1].cls, MissingKey))]
    v, r = g["v"], comp[1]
    n = length(v)
    exp = lambda q: V.iv(get(at(v, q), EXP))
    alive = FA([j], z3.Implies(rng(j, n), NOW <= exp(j)), at(v, j))
    if r is None:
        return [("rejected only when not verified or expired", z3.Not(z3.And(n > 0, FA([j], z3.Implies(rng(j, n), NOW < exp(j)), at(v, j)))))]
    if not isinstance(r, Ref) or ip.heap[r.id].cls is not TrustChain:
        raise Unsupported("not a trust chain")
    f = ip.heap[r.id].fields
    path, vc = ip.to_v(f["iss_path"]), ip.to_v(f["verified_chain"])
    return [("verified", n > 0), ("no statement in it has expired", alive), ("it is the verified content", vc == v), ("of the chain given", ip.to_v(f["chain"]) == g["c"]),
            ("anchored at the first issuer", ip.to_v(f["anchor"]) == iss(at(v, 0))),
            ("it expires when its first statement does", z3.And(FA([j], z3.Implies(rng(j, n), V.iv(ip.to_v(f["exp"])) <= exp(j)), at(v, j)),
                                                                EX([j], z3.And(rng(j, n), V.iv(ip.to_v(f["exp"])) == exp(j)), at(v, j)))),
            ("its issuer path runs from the leaf to the anchor", z3.And(length(path) == n, FA([j], z3.Implies(rng(j, n), at(path, j) == iss(at(v, n - 1 - j))), at(path, j))))]


def hook_exp(ip, L):
    ves = getattr(ip, "VES", None)
    if ves is None:
        return {}
    v, out = ves.t, {}
    exp = lambda q: V.iv(get(at(v, q), EXP))
    for name, f, isint in int_cells(L):
        ok = isint or (lambda k: z3.BoolVal(True))
        out[name + ":least"] = lambda k, f=f, ok=ok: z3.Implies(k > 0, z3.And(ok(k), FA([j], z3.Implies(rng(j, k), f(k) <= exp(j)), at(v, j))))
        out[name + ":one"] = lambda k, f=f: z3.Implies(k > 0, EX([j], z3.And(rng(j, k), f(k) == exp(j)), at(v, j)))
        out[name + ":none"] = lambda k, f=f: z3.Implies(k == 0, f(k) == f(z3.IntVal(0)))
    return out


# ---- trusted_anchor
ANCHORED = z3.Function("trusted_anchor", V, B)
HASKEYS = z3.Function("has_keys", V, B)


class GhostKeyJar:
    def __contains__(self, x): pass
    def get_jwt_verify_keys(self, jwt, **kw): pass
    def get_issuer_keys(self, issuer_id): pass
    def add_kb(self, issuer_id, kb): pass


class GhostKeyBundle:
    def __iter__(self): pass
    def set(self, keys): pass
    def keys(self): pass
    def get(self, typ=""): pass


class GhostJWS:
    def verify_compact(self, jws=None, keys=None, **kw): pass


class GhostJWT:
    def payload(self): pass


G = "contracts.C03.Ghost"


def pay(ip, s):
    t = PAYLOAD(s)
    ip.fact(st_shape(t))
    return SV(t, STATEMENT)


def factory_contract(ip, args, kw):
    s = ip.to_v(args[0])
    if not ip.branch(ISJWS(s)):
        return None
    jwt = obj(ip, GhostJWT, {"s": SV(s, StrS()), "headers": ip.fresh_v("headers", DictS())}, "jwt")
    return obj(ip, GhostJWS, {"s": SV(s, StrS()), "jwt": jwt}, "jws")


def st_of(ip, o):
    return ip.heap[o.id].fields["s"].t


def jwt_payload(ip, args, kw):
    return pay(ip, st_of(ip, args[0]))


def keyjar_contains(ip, args, kw):
    return SB(HASKEYS(ip.to_v(args[1])))


def setup_anchor(fed):
    def f(ip):
        s = ip.fresh_v("entity_statement", StrS())
        ip.fact(ISJWS(s.t))
        anchors = ip.fresh_v("trust_anchors", DictS())
        kj = obj(ip, GhostKeyJar, {}, "keyjar")
        ip.FED = obj(ip, None, {"trust_anchors": anchors, "keyjar": kj}, "federation_entity") if fed else None

        def up(ip, args, kw):
            if list(args) == ["attribute", "keyjar"]:
                return kj
            raise Unsupported("upstream_get")
        return [obj(ip, verifier.TrustChainVerifier, {"upstream_get": Ext("upstream_get", up)}), s], {}, {"s": s.t, "ta": anchors.t, "fed": fed}
    return f


def post_anchor(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    i_ = iss(PAYLOAD(g["s"]))
    ok = z3.And(HASKEYS(i_), has(g["ta"], i_)) if g["fed"] else HASKEYS(i_)
    return [("a configured trust anchor whose keys are known", truthy(ip, comp[1]) == ok)]


ANCHOR = {MOD + ".get_federation_entity": lambda ip, a, k: ip.FED, "fedservice.entity.utils.get_federation_entity": lambda ip, a, k: ip.FED,
          "cryptojwt.jws.jws.factory": factory_contract, G + "JWT.payload": jwt_payload, G + "KeyJar.__contains__": keyjar_contains}

# ---- verify_trust_chain
TRUST = z3.Function("trusted_before", I, V, B)         # TRUST(n, pair): trusted at the start, or vouched for by one of the first n statements
VERIFIED = z3.Function("verified", I, B)               # the n-th statement verifies with a key trusted for its issuer before it


def key_axioms():
    return [FA([x, y], z3.And(PISS(PAIR(x, y)) == x, PKEY(PAIR(x, y)) == y), PAIR(x, y)), FA([x], DESC(KEYOBJ(x)) == x, KEYOBJ(x))]


def vouches(t, q):
    """statement t vouches for the pair q"""
    ks = get(get(t, JWKS), KEYS)
    return z3.And(has(t, JWKS), PISS(q) == sub(t), mem(ks, DESC(PKEY(q))), PKEY(q) == KEYOBJ(DESC(PKEY(q))))


def chain_axioms(c, kj0):
    k = z3.Const("k", V)
    return [FA([p], TRUST(0, p) == kj0(p), TRUST(0, p)),
            FA([j, p], z3.Implies(rng(j, length(c)), TRUST(j + 1, p) == z3.Or(TRUST(j, p), z3.And(VERIFIED(j), vouches(PAYLOAD(at(c, j)), p)))), TRUST(j + 1, p)),
            # follows from the line above by induction
            FA([i, j, p], z3.Implies(z3.And(0 <= i, i <= j, j <= length(c), TRUST(i, p)), TRUST(j, p)), z3.MultiPattern(TRUST(i, p), TRUST(j, p))),
            FA([j, k], z3.Implies(z3.And(rng(j, length(c)), SIG(at(c, j), k), TRUST(j, PAIR(iss(PAYLOAD(at(c, j))), k))), VERIFIED(j)),
               z3.MultiPattern(at(c, j), SIG(at(c, j), k)))]


def verify_keys(ip, args, kw):
    s = st_of(ip, args[1])
    i_ = iss(PAYLOAD(s))
    t = ip.fresh("keys", V)
    kj = ip.heap[ip.KJ.id].memf
    ip.fact(z3.And(islist(t), length(t) >= 0, FA([x], z3.Implies(mem(t, x), kj(PAIR(i_, x))), mem(t, x))))
    ip.assumptions.add("KeyJar.get_jwt_verify_keys gives keys the key jar holds for the statement's issuer only")
    return SV(t, ListS(KEYSHAPE))


def issuer_keys(ip, args, kw):
    if not ip.branch(z3.Bool(ip.fresh_name("known_issuer"))):
        raise PyRaise(ExcVal(KeyError))
    t = ip.fresh("issuer_keys", V)
    kj, i_ = ip.heap[ip.KJ.id].memf, ip.to_v(args[1])
    ip.fact(z3.And(islist(t), length(t) >= 0, FA([x], mem(t, x) == kj(PAIR(i_, x)), mem(t, x))))
    return SV(t, ListS(KEYSHAPE))


def key_bundle(ip, args, kw):
    s = ip.iterate(kw["keys"] if "keys" in kw else args[0])
    if s[0] != "seq":
        raise Unsupported("keys of a key bundle")
    sq = s[1]
    m = sq.memf
    ip.assumptions.add("a key is its description")
    mf = (lambda q: z3.And(m(DESC(q)), q == KEYOBJ(DESC(q)))) if m is not None else None
    lst = ip.alloc(LList(Seq(sq.n, lambda k: SV(KEYOBJ(ip.to_v(sq.at(k))), KEYSHAPE), mf)))
    return obj(ip, GhostKeyBundle, {"lst": lst}, "key_bundle")


def kb_iter(ip, args, kw):
    return ip.heap[args[0].id].fields["lst"]


def kb_set(ip, args, kw):
    h = ip.heap[args[0].id]
    ip.heap[args[0].id] = HObj(h.cls, {**h.fields, "lst": args[1]}, h.name, False)
    return None


def add_kb(ip, args, kw):
    i_ = ip.to_v(args[1])
    lst = ip.heap[args[2].id].fields["lst"]
    m = ip.membership(lst) if hasattr(ip, "membership") else None
    if m is None:
        c = ip.heap[lst.id]
        sq = ip.as_seq_content(c)
        m = sq.memf
        if m is None:
            t = ip.to_v(lst)
            m = lambda q: mem(t, q)
    old = ip.heap[ip.KJ.id].memf
    ip.heap[ip.KJ.id] = SSet(lambda q: z3.Or(old(q), z3.And(PISS(q) == i_, m(PKEY(q)))), None)
    return None


def verify_compact(ip, args, kw):
    keys = kw.get("keys", args[2] if len(args) > 2 else None)
    s = st_of(ip, args[0])
    k = ip.fresh("verifying_key", V)
    ks = ip.to_v(keys)
    if not ip.branch(z3.Bool(ip.fresh_name("signature_ok"))):
        raise PyRaise(ExcVal(BadSignature))
    ip.fact(z3.And(mem(ks, k), SIG(s, k)))
    ip.assumptions.add("verify_compact returns the content only if the signature verifies with one of the keys given, else raises")
    return pay(ip, s)


def anchored_contract(ip, args, kw):
    return SB(ANCHORED(ip.to_v(args[-1])))


def linked_contract(ip, args, kw):
    return SB(z3.Function("is_linked", V, B)(ip.to_v(args[-1])))


def meets_contract(ip, args, kw):
    return SB(z3.Function("meets_restrictions", V, B)(ip.to_v(args[0])))


def setup_verify(ip):
    c = ip.fresh_v("chain", ListS(StrS()))
    ip.fact(length(c.t) >= 1)
    kj0 = z3.Function("initially_trusted", V, B)
    ip.KJ = ip.alloc(SSet(lambda q: kj0(q), None))
    for f in chain_axioms(c.t, kj0):
        ip.fact(f)
    kj = obj(ip, GhostKeyJar, {}, "keyjar")
    ip.C = c.t

    def up(ip, args, kw):
        if list(args) == ["attribute", "keyjar"]:
            return kj
        raise Unsupported("upstream_get")
    return [obj(ip, verifier.TrustChainVerifier, {"upstream_get": Ext("upstream_get", up)}), c], {}, {"c": c.t}


def only_vouched(ip, g):
    kj, n = ip.heap[ip.KJ.id].memf, length(g["c"])
    return ("keys are only added for the subject of a verified statement, from its own content", FA([p], z3.Implies(kj(p), TRUST(n, p))))


def post_verify(ip, g, comp):
    c, n = g["c"], length(g["c"])
    if comp[0] == "raise":
        return [("raises only what refuses the chain", not issubclass(comp[1].cls, CallPrecondition)), only_vouched(ip, g)]
    r = ip.to_v(comp[1])
    acc = length(r) > 0
    return [("anchored", z3.Implies(acc, ANCHORED(at(c, 0)))), ("linked", z3.Implies(acc, z3.Function("is_linked", V, B)(r))),
            ("within the constraints", z3.Implies(acc, z3.Function("meets_restrictions", V, B)(r))),
            ("the verified content of every statement, in order", z3.Implies(acc, z3.And(length(r) == n, FA([j], z3.Implies(rng(j, n), at(r, j) == PAYLOAD(at(c, j))), at(r, j))))),
            ("every signature verifies with a key trusted for its issuer before", z3.Implies(acc, FA([j], z3.Implies(rng(j, n), VERIFIED(j)), at(c, j)))),
            only_vouched(ip, g)]


def hook_verify(ip, L):
    c = getattr(ip, "C", None)
    out = {}
    if c is None:
        return out
    m = getattr(L.seq, "memf", None)
    if m is not None:
        for q in L.cells.values():
            if q.tag == "list":
                out[q.name + ":from"] = lambda k, q=q: FA([x], z3.Implies(q.mem(k, x), m(x)), q.mem(k, x))
    if not any(q.tag == "set" for q in L.cells.values()):
        return out
    for q in L.cells.values():
        if q.tag == "list":
            out[q.name + ":most"] = lambda k, q=q: q.len(k) <= k
            out[q.name + ":content"] = lambda k, q=q: z3.Implies(q.len(k) == k, FA([j], z3.Implies(rng(j, k), q.at(k, j) == PAYLOAD(at(c, j))), q.at(k, j)))
            out[q.name + ":verified"] = lambda k, q=q: z3.Implies(q.len(k) == k, FA([j], z3.Implies(rng(j, k), VERIFIED(j)), VERIFIED(j)))
        if q.tag == "set":
            out[q.name + ":trust"] = lambda k, q=q: FA([p], z3.Implies(q.mem(k, p), TRUST(k, p)), q.mem(k, p))
    return out


VC = {"cryptojwt.jws.jws.factory": factory_contract, G + "JWT.payload": jwt_payload, G + "KeyJar.get_jwt_verify_keys": verify_keys,
      G + "KeyJar.get_issuer_keys": issuer_keys, G + "KeyJar.add_kb": add_kb, G + "KeyBundle.__iter__": kb_iter, G + "KeyBundle.set": kb_set,
      G + "KeyBundle.keys": kb_iter, G + "KeyBundle.get": kb_iter, G + "JWS.verify_compact": verify_compact, "cryptojwt.key_bundle.KeyBundle": key_bundle,
      T + "trusted_anchor": anchored_contract, T + "is_linked": linked_contract,
      "fedservice.entity_statement.constraints.meets_restrictions": meets_contract}


# ---- verify_trust_chains, verify_trust_chain: what is handed on as a trust chain
FUN = "fedservice.entity.function"
ACC, RES = z3.Function("chain_accepted", V, B), z3.Function("trust_chain_of", V, V)
TCS = ObjS(TrustChain, {})


class GhostChain:
    """a list of statements as an object; extending it is ghost state"""
    def extend(self, l): pass
    def append(self, x): pass


class GhostVerifier:
    def __call__(self, chain): pass


def extend_contract(ip, args, kw):
    c = ip.to_v(args[0])
    old = ip.heap[ip.EXTD.id].memf
    s = ip.iterate(args[1])
    if s[0] != "conc":
        raise Unsupported("extended by something else")
    if not s[1]:
        return None
    require(ip, z3.Not(old(c)))
    require(ip, z3.And(z3.BoolVal(len(s[1]) == 1), ip.to_v(s[1][0]) == ip.EC))
    ip.heap[ip.EXTD.id] = SSet(lambda q: z3.Or(old(q), q == c), None)
    return None


def append_contract(ip, args, kw):
    return extend_contract(ip, [args[0], ip.listref([args[1]])], {})


def verifier_contract(ip, args, kw):
    b = bind(ip, verifier.TrustChainVerifier.__call__, args, kw)
    c = ip.to_v(b["chain"])
    if ip.EC is not None:
        require(ip, ip.heap[ip.EXTD.id].memf(c))
    if ip.branch(z3.Bool(ip.fresh_name("verification_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    if not ip.branch(ACC(c)):
        return None
    ip.fact(V.is_ref(RES(c)))
    return SV(RES(c), TCS)


def setup_chains(ec, one=False):
    def f(ip):
        e = ip.fresh_v("leaf", StrS())
        ip.EC = e.t if ec else None
        ip.EXTD = ip.alloc(SSet(lambda q: z3.BoolVal(False), None))
        ver = obj(ip, GhostVerifier, {}, "verifier")
        ip.FED = obj(ip, None, {"function": obj(ip, None, {"verifier": ver}, "function")}, "federation_entity")
        if one:
            c = ip.fresh_v("chain", ObjS(GhostChain, {}))
            return [obj(ip, None, {}, "unit"), c], {}, {"c": c.t}
        c = ip.fresh_v("chains", ListS(ObjS(GhostChain, {})))
        n = length(c.t)
        ip.CH = c.t
        ip.fact(FA([i, j], z3.Implies(z3.And(rng(i, n), rng(j, n), at(c.t, i) == at(c.t, j)), i == j), z3.MultiPattern(at(c.t, i), at(c.t, j))))
        return [obj(ip, None, {}, "unit"), c] + ([e] if ec else []), {}, {"c": c.t}
    return f


def post_chains(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only what the verification raises", issubclass(comp[1].cls, MissingKey))]
    r = ip.to_v(comp[1])
    c = g["c"]
    return [("only what the verifier made of one of the chains", FA([x], z3.Implies(mem(r, x), EX([j], z3.And(rng(j, length(c)), ACC(at(c, j)), x == RES(at(c, j))), at(c, j))), mem(r, x))),
            ("everything the verifier accepted", FA([j], z3.Implies(z3.And(rng(j, length(c)), ACC(at(c, j))), mem(r, RES(at(c, j)))), at(c, j)))]


def hook_chains(ip, L):
    c = getattr(ip, "CH", None)
    if c is None:
        return {}
    out = {}
    n = length(c)
    for q in L.cells.values():
        if q.tag == "list":
            out[q.name + ":only"] = lambda k, q=q: FA([x], z3.Implies(q.mem(k, x), EX([j], z3.And(rng(j, k), ACC(at(c, j)), x == RES(at(c, j))), at(c, j))), q.mem(k, x))
            out[q.name + ":all"] = lambda k, q=q: FA([j], z3.Implies(z3.And(rng(j, k), ACC(at(c, j))), q.mem(k, RES(at(c, j)))), at(c, j))
        if q.tag == "set":
            out[q.name + ":extended"] = lambda k, q=q: FA([x], z3.Implies(q.mem(k, x), EX([j], z3.And(rng(j, k), x == at(c, j)), at(c, j))), q.mem(k, x))
            out[q.name + ":ext"] = lambda k, q=q: FA([j], z3.Implies(rng(j, k), q.mem(k, at(c, j))), at(c, j))
    return out


def post_one(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only what the verification raises", issubclass(comp[1].cls, MissingKey))]
    r = ip.to_v(comp[1])
    return [("what the verifier made of the chain", z3.If(ACC(g["c"]), r == RES(g["c"]), V.is_none(r)))]


FE = {FUN + ".get_federation_entity": lambda ip, a, k: ip.FED, "fedservice.entity.utils.get_federation_entity": lambda ip, a, k: ip.FED}
VCS = {"contracts.C03.GhostVerifier.__call__": verifier_contract, "contracts.C03.GhostChain.extend": extend_contract, "contracts.C03.GhostChain.append": append_contract, **FE}


# ---- get_verified_trust_chains: collected, then verified, then the policies
COL, VER_ = (z3.Function(n, V, V) for n in ("collected", "verified_chains"))


def collect_chains(ip, args, kw):
    from fedservice.entity import function as fn
    b = bind(ip, fn.collect_trust_chains, args, kw)
    if ip.branch(z3.Bool(ip.fresh_name("collection_fails"))):
        raise PyRaise(ExcVal(MissingKey))
    t = COL(ip.to_v(b["entity_id"]))
    require(ip, z3.BoolVal(b["stop_at"] == "" and b["authority_hints"] is None and b["signed_entity_configuration"] == ""))
    ip.fact(z3.And(islist(t), length(t) >= 0))
    return (SV(t, ListS(ListS(StrS()))), SV(z3.Function("leaf_configuration", V, V)(ip.to_v(b["entity_id"]))))


def verify_chains(ip, args, kw):
    require(ip, z3.BoolVal(len(args) == 3 and not kw))
    require(ip, z3.And(ip.to_v(args[1]) == COL(ip.EID), ip.to_v(args[2]) == z3.Function("leaf_configuration", V, V)(ip.EID)))
    t = VER_(ip.to_v(args[1]))
    ip.fact(z3.And(islist(t), length(t) >= 0))
    return SV(t, ListS(TCS))


def policies_contract(ip, args, kw):
    from fedservice.entity import function as fn
    b = bind(ip, fn.apply_policies, args, kw)
    a, t = ip.to_v(b["trust_chains"]), ip.fresh("with_policies", V)
    record(ip, "policies", b["trust_chains"])
    ip.fact(z3.And(islist(t), length(t) == length(a), FA([j], z3.Implies(rng(j, length(a)), at(t, j) == at(a, j)), at(t, j))))
    return SV(t, ListS(TCS))


def setup_verified(ip):
    recorder(ip)
    e = ip.fresh_v("entity_id", StrS())
    ip.EID = e.t
    return [obj(ip, None, {}, "unit"), e], {}, {"e": e.t}


def post_verified(ip, g, comp):
    if comp[0] == "raise":
        return [("raises only what the collection raises", issubclass(comp[1].cls, MissingKey))]
    r = ip.to_v(comp[1])
    v = VER_(COL(g["e"]))
    pol = recorded(ip, "policies")
    return [("the verified ones", z3.Or(length(r) == 0, z3.And(length(r) == length(v), FA([j], z3.Implies(rng(j, length(v)), at(r, j) == at(v, j)), at(r, j))))),
            ("all of them", z3.Or(length(COL(g["e"])) == 0, length(r) == length(v))),
            ("with the policies applied", z3.Or(length(r) == 0, z3.Or([q[0] == v for q in pol])))]


GV = {FUN + ".collect_trust_chains": collect_chains, FUN + ".verify_trust_chains": verify_chains, FUN + ".apply_policies": policies_contract}

CONTRACTS = [
    Contract("TrustChainVerifier.is_linked", VER + "is_linked", setup_linked, post_linked, hooks=[hook_linked]),
    Contract("TrustChainVerifier.__call__", VER + "__call__", setup_call, post_vcall, hooks=[hook_exp], contracts={T + "verify_trust_chain": verify_contract, **CLOCK}),
    Contract("TrustChainVerifier.trusted_anchor", VER + "trusted_anchor", setup_anchor(True), post_anchor, contracts=ANCHOR),
    Contract("TrustChainVerifier.trusted_anchor (no federation entity)", VER + "trusted_anchor", setup_anchor(False), post_anchor, contracts=ANCHOR),
    Contract("TrustChainVerifier.verify_trust_chain", VER + "verify_trust_chain", setup_verify, post_verify, hooks=[hook_verify], contracts=VC, axioms=key_axioms, budget=400),
    Contract("verify_trust_chains", FUN + ":verify_trust_chains", setup_chains(False), post_chains, hooks=[hook_chains], contracts=VCS),
    Contract("verify_trust_chains (with the leaf's configuration)", FUN + ":verify_trust_chains", setup_chains(True), post_chains, hooks=[hook_chains], contracts=VCS),
    Contract("verify_trust_chain (function)", FUN + ":verify_trust_chain", setup_chains(False, True), post_one, contracts=VCS),
    Contract("get_verified_trust_chains", FUN + ":get_verified_trust_chains", setup_verified, post_verified, contracts=GV),
]
