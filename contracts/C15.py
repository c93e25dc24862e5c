"""C15 - critical extensions that are not understood are refused; so are trust marks about somebody else and incomplete status requests."""
from .common import *
from cryptojwt.exception import Expired
from fedservice import message as fm
from fedservice.exception import UnknownCriticalExtension, WrongSubject
from idpyoidc.message import Message
from idpyoidc.message.oidc import JsonWebToken

x, y, typ, name = z3.Consts("x y typ name", V)
j, i = z3.Ints("jj ii")
F = fm.__name__
POLICY = DictS()
POLICIES = DictS({}, POLICY)
STANDARD = ["subset_of", "one_of", "superset_of", "add", "value", "default", "essential"]
ANY = ["value", "default"]
MP, SUB = S("metadata_policy"), S("sub")


class SuperRefuses(Exception):
    pass


def real(cls):
    out = {}
    for n, f in MSG.items():
        m = getattr(cls, n.rsplit(".", 1)[1], None)
        if m is not None and n.rsplit(".", 1)[1] != "verify":
            out[f"{m.__module__}.{m.__qualname__}"] = f
    return out


def among(names, t):
    return z3.Or(*[t == S(n) for n in names])


def extra_contract(ip, args, kw):
    """idpyoidc: the claims the message class does not define"""
    o = ip.heap[args[0].id]
    d = ip.to_v(ip.alloc(pb.dict_content(ip, o.fields["d"])))
    e = ip.fresh_v("extra", DictS())
    k = z3.Const("k", V)
    ip.fact(z3.And(isdict(e.t), FA([k], has(e.t, k) == z3.And(has(d, k), z3.Not(among(sorted(o.cls.c_param), k))), has(e.t, k)),
                   FA([k], z3.Implies(z3.And(has(d, k), z3.Not(among(sorted(o.cls.c_param), k))), has(e.t, k)), has(d, k))))
    n = SV(e.t, DictS())
    return n


def super_contract(ip, args, kw):
    record(ip, "super", True)
    if ip.branch(z3.Bool(ip.fresh_name("claims_refused"))):
        raise PyRaise(ExcVal(SuperRefuses))
    return True


def optlist(ip, n, empty=True):
    """None, or a list of names"""
    v = ip.fresh_v(n, OptS(ListS(StrS())))
    ip.fact(z3.Or(v.t == S(None), z3.And(islist(v.t), length(v.t) >= 0)))
    return v


def given(t): return t != S(None)
def unknown(t, crit, known): return z3.And(mem(crit, t), z3.Not(z3.And(given(known), mem(known, t))))
def nonempty(t): return z3.And(given(t), length(t) > 0)


# ---- Policy.verify
def extra_operator(d, t): return z3.And(has(d, t), z3.Not(among(STANDARD, t)))


def policy_bad(d, crit, known):
    return z3.And(given(crit), z3.Or(z3.And(length(crit) == 0, EX([x], extra_operator(d, x), has(d, x))), EX([x], z3.And(extra_operator(d, x), unknown(x, crit, known)), has(d, x), mem(crit, x))))


def setup_policy(ip):
    recorder(ip)
    d = ip.fresh_v("policy", DictS({}, None))
    ip.fact(isdict(d.t))
    crit, known = optlist(ip, "policy_language_crit"), optlist(ip, "known_policy_extensions")
    return [message(ip, d, cls=fm.Policy)], {"policy_language_crit": crit, "known_policy_extensions": known}, {"d": d.t, "c": crit.t, "k": known.t}


def post_policy(ip, g, comp):
    bad = policy_bad(g["d"], g["c"], g["k"])
    if comp[0] == "raise":
        if comp[1].cls is SuperRefuses:
            return []
        return [("a refusal is justified", z3.And(z3.BoolVal(issubclass(comp[1].cls, (ValueError, UnknownCriticalExtension))), bad))]
    return [("accepted: every critical extra operator is known", z3.Not(bad))]


# ---- MetadataPolicy.verify
def policy_class(ip, args, kw):
    return message_class()(ip, args, kw)


def policy_verify_contract(ip, args, kw):
    """what is proved of Policy.verify"""
    d = ip.to_v(ip.alloc(pb.dict_content(ip, msg_d(ip, args[0]))))
    if set(kw) - {"policy_language_crit", "known_policy_extensions", "known_extensions"}:
        raise Unsupported("Policy.verify")
    crit, known = (ip.to_v(kw.get(n)) for n in ("policy_language_crit", "known_policy_extensions"))
    w = ip.fresh("critical_operator", V)
    refuses = z3.Bool(ip.fresh_name("policy_refused"))
    some = z3.And(extra_operator(d, w), z3.Or(length(crit) == 0, unknown(w, crit, known)))
    ip.fact(z3.Implies(refuses, z3.And(given(crit), some)))
    ip.fact(z3.Implies(z3.Not(refuses), z3.Or(z3.Not(given(crit)), FA([x], z3.Implies(extra_operator(d, x), z3.And(length(crit) > 0, z3.Not(unknown(x, crit, known)))), has(d, x)))))
    if ip.branch(refuses):
        raise PyRaise(ExcVal(UnknownCriticalExtension))
    return None


def nested(d):
    p, a = get(d, typ), get(get(d, typ), name)
    return z3.And(has(d, typ), has(p, name), has(a, x), z3.Not(among(STANDARD, x)))


def ok_type(p, crit, known):
    """opaque: every operator in the policies for one entity type is acceptable"""
    return z3.Function("acceptable_policies", V, V, V, B)(p, crit, known)


def ok_item(a, crit, known):
    return z3.Function("acceptable_policy", V, V, V, B)(a, crit, known)


def define(ip, crit, known):
    p, a = z3.Consts("p a", V)
    ip.fact(FA([a], ok_item(a, crit, known) == z3.Or(z3.Not(given(crit)), FA([x], z3.Implies(extra_operator(a, x), z3.And(length(crit) > 0, z3.Not(unknown(x, crit, known)))), has(a, x))), ok_item(a, crit, known)))
    ip.fact(FA([p], ok_type(p, crit, known) == FA([name], z3.Implies(has(p, name), ok_item(get(p, name), crit, known)), has(p, name)), ok_type(p, crit, known)))


def setup_metadata_policy(ip):
    recorder(ip)
    d = ip.fresh_v("metadata_policy", DictS({}, POLICIES))
    ip.fact(z3.And(isdict(d.t), FA([typ], z3.Implies(has(d.t, typ), isdict(get(d.t, typ))), has(d.t, typ)),
                   FA([typ, name], z3.Implies(z3.And(has(d.t, typ), has(get(d.t, typ), name)), isdict(get(get(d.t, typ), name))), has(get(d.t, typ), name))))
    crit, known = optlist(ip, "policy_language_crit"), optlist(ip, "known_policy_extensions")
    define(ip, crit.t, known.t)
    ip.CRIT, ip.KNOWN = crit.t, known.t
    return [message(ip, d, cls=fm.MetadataPolicy)], {"policy_language_crit": crit, "known_policy_extensions": known}, {"d": d.t, "c": crit.t, "k": known.t}


def post_metadata_policy(ip, g, comp):
    all_ok = FA([typ], z3.Implies(has(g["d"], typ), ok_type(get(g["d"], typ), g["c"], g["k"])), has(g["d"], typ))
    if comp[0] == "raise":
        if comp[1].cls is SuperRefuses:
            return []
        return [("a refusal is justified", z3.And(z3.BoolVal(issubclass(comp[1].cls, (ValueError, UnknownCriticalExtension))), z3.Not(all_ok)))]
    return [("accepted: every critical extra operator is known", all_ok)]


def hook_policy(ip, L):
    out = {}
    if getattr(L.seq, "at", None) is None or getattr(ip, "CRIT", None) is None:
        return out
    t = L.seq.at(z3.IntVal(0))
    if not isinstance(t, tuple) or len(t) != 2:
        return out

    def types(k):
        return FA([j], z3.Implies(rng(j, k), ok_type(ip.to_v(L.seq.at(j)[1]), ip.CRIT, ip.KNOWN)), ip.to_v(L.seq.at(j)[1]))

    def items(k):
        return FA([j], z3.Implies(rng(j, k), ok_item(ip.to_v(L.seq.at(j)[1]), ip.CRIT, ip.KNOWN)), ip.to_v(L.seq.at(j)[1]))
    if getattr(t[1], "shape", None) is POLICIES:
        out["types so far are acceptable"] = types
    if getattr(t[1], "shape", None) is POLICY:
        out["items so far are acceptable"] = items
    return out


# ---- EntityStatement.verify
MPBAD = z3.Function("metadata_policy_refused", V, V, V, B)


def mp_verify_contract(ip, args, kw):
    """what is proved of MetadataPolicy.verify"""
    if set(kw) - {"policy_language_crit", "known_policy_extensions", "known_extensions"}:
        raise Unsupported("MetadataPolicy.verify")
    crit, known = (ip.to_v(kw.get(n)) for n in ("policy_language_crit", "known_policy_extensions"))
    if ip.branch(z3.And(given(crit), MPBAD(ip.POLICY, crit, known))):
        raise PyRaise(ExcVal(UnknownCriticalExtension, ("policy",)))
    return None


def setup_statement(ip):
    recorder(ip)
    d = ip.fresh_v("statement", DictS({"crit": ListS(StrS()), "policy_language_crit": ListS(StrS())}, None))
    for n in ("crit", "policy_language_crit"):
        ip.fact(z3.Implies(has(d.t, S(n)), z3.And(islist(get(d.t, S(n))), length(get(d.t, S(n))) >= 0)))
    c = ip.alloc(DDict(d.t, (), d.shape))
    p = ip.fresh_v("the_policy", DictS({}, DictS({}, DictS())))
    ip.fact(isdict(p.t))
    ip.POLICY = p.t
    has_policy = z3.Bool("has_metadata_policy")
    ip.input_names |= {"has_metadata_policy"}
    ip.fact(has_policy == has(d.t, MP))
    if ip.branch(has_policy):
        pb.setitem(ip, c, "metadata_policy", message(ip, p, cls=fm.MetadataPolicy, name="metadata_policy"))
    known, pknown = optlist(ip, "known_extensions"), optlist(ip, "known_policy_extensions")
    me = ip.alloc(HObj(fm.EntityStatement, {"d": c}, "statement", False))
    return [me], {"known_extensions": known, "known_policy_extensions": pknown}, {"d": d.t, "k": known.t, "pk": pknown.t, "p": p.t}


def post_statement(ip, g, comp):
    d = g["d"]
    C, PC = S("crit"), S("policy_language_crit")
    ext = z3.And(has(d, x), z3.Not(among(sorted(fm.EntityStatement.c_param), x)))
    crit = get(d, C)
    bad = z3.And(has(d, C), z3.Or(z3.And(length(crit) == 0, EX([x], ext, has(d, x))), EX([x], z3.And(ext, unknown(x, crit, g["k"])), has(d, x), mem(crit, x))))
    pcrit = get(d, PC)
    pbad = z3.And(has(d, MP), truthy(ip, SV(g["p"], DictS())), has(d, PC), length(pcrit) > 0, MPBAD(g["p"], pcrit, g["pk"]))
    if comp[0] == "raise":
        if comp[1].cls is SuperRefuses:
            return []
        return [("a refusal is justified", z3.And(z3.BoolVal(issubclass(comp[1].cls, (ValueError, UnknownCriticalExtension))), z3.Or(bad, pbad)))]
    return [("the claims were verified", bool(recorded(ip, "super"))), ("accepted: every critical extra claim is known", z3.Not(bad)), ("accepted: so is every critical operator", z3.Not(pbad))]


# ---- TrustMark.verify
def setup_mark(ip):
    recorder(ip)
    d = ip.fresh_v("trust_mark", DictS({"sub": StrS(), "exp": IntS()}, None))
    ip.fact(z3.And(isdict(d.t), has(d.t, SUB), V.is_s(get(d.t, SUB))))
    e = ip.fresh_v("entity_id", OptS(StrS()))
    exp = SI(z3.Int("exp_argument"))
    ip.input_names |= {"exp_argument"}
    return [message(ip, d, cls=fm.TrustMark)], {"entity_id": e, "exp": exp}, {"d": d.t, "e": e.t, "exp": exp.t}


def post_mark(ip, g, comp):
    wrong = z3.And(given(g["e"]), g["e"] != get(g["d"], SUB))
    if comp[0] == "raise":
        if comp[1].cls is SuperRefuses:
            return []
        return [("a refusal is justified", z3.Or(z3.And(wrong, z3.BoolVal(issubclass(comp[1].cls, WrongSubject))), z3.And(g["exp"] != 0, z3.Int("now") > g["exp"], z3.BoolVal(issubclass(comp[1].cls, Expired)))))]
    return [("the claims were verified", bool(recorded(ip, "super"))), ("accepted: about the entity", z3.Not(wrong)),
            ("accepted: not past the expiry time that is asked about", z3.Or(g["exp"] == 0, z3.Int("now") <= g["exp"]))]


# ---- TrustMarkStatusRequest.verify
def setup_status(ip):
    recorder(ip)
    d = ip.fresh_v("request", DictS({}, None))
    ip.fact(isdict(d.t))
    return [message(ip, d, cls=fm.TrustMarkStatusRequest)], {}, {"d": d.t}


def post_status(ip, g, comp):
    ok = z3.Or(has(g["d"], S("trust_mark")), z3.And(has(g["d"], SUB), has(g["d"], S("trust_mark_id"))))
    if comp[0] == "raise":
        return [] if comp[1].cls is SuperRefuses else [("a refusal is justified", z3.Not(ok))]
    return [("names a mark, or both subject and identifier", ok)]


def names(*clss):
    out = {}
    for c in clss:
        out.update(real(c))
    m = Message.extra
    out[f"{m.__module__}.{m.__qualname__}"] = extra_contract
    for c in (Message, JsonWebToken):
        out[f"{c.verify.__module__}.{c.verify.__qualname__}"] = super_contract
    return out


CONTRACTS = [
    Contract("Policy.verify", F + ":Policy.verify", setup_policy, post_policy, contracts=names(fm.Policy)),
    Contract("MetadataPolicy.verify", F + ":MetadataPolicy.verify", setup_metadata_policy, post_metadata_policy, hooks=[hook_policy],
             contracts={**names(fm.MetadataPolicy), **MSG, F + ".Policy": policy_class, "contracts.common.Msg.verify": policy_verify_contract}),
    Contract("EntityStatement.verify", F + ":EntityStatement.verify", setup_statement, post_statement, contracts={**names(fm.EntityStatement), F + ".MetadataPolicy.verify": mp_verify_contract}),
    Contract("TrustMark.verify", F + ":TrustMark.verify", setup_mark, post_mark, contracts={**names(fm.TrustMark), "cryptojwt.jwt.utc_time_sans_frac": lambda ip, a, k: SI(z3.Int("now"))}),
    Contract("TrustMarkStatusRequest.verify", F + ":TrustMarkStatusRequest.verify", setup_status, post_status, contracts=names(fm.TrustMarkStatusRequest)),
]
