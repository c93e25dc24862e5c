"""C04 - expiry of trust chains and statements."""
from .common import *
from fedservice.entity.function.verifier import TrustChainVerifier
from fedservice.entity_statement.statement import TrustChain

EXP = S("exp")


def exp(ch, j):
    return V.iv(get(at(ch, j), EXP))


def setup_chain(ip):
    ch = ip.fresh_v("chain", ListS(DictS({"exp": IntS(0)}, None, ["exp"])))
    me = obj(ip, TrustChainVerifier, {}, "self")
    t = ch.t
    ip.E = t
    i = z3.Int("i")
    # expiry times are natural numbers
    ip.fact(FA([i], z3.Implies(rng(i, length(t)), z3.And(V.is_i(get(at(t, i), EXP)), exp(t, i) >= 0)), at(t, i)))
    ip.fact(length(t) > 0)
    return [me, ch], {}, {"ch": t}


def hook(ip, L):
    ch = getattr(ip, "E", None)
    if ch is None:
        return {}
    out = {}
    j = z3.Int("jj")
    for name, f, isint in int_cells(L):
        ok = isint or (lambda k: z3.BoolVal(True))
        out[name + ":lb"] = lambda k, f=f, ok=ok: z3.Or(k == 0, z3.And(ok(k), FA([j], z3.Implies(rng(j, k), f(k) <= exp(ch, j)), at(ch, j))))
        out[name + ":wit"] = lambda k, f=f, ok=ok: z3.Or(k == 0, EX([j], z3.And(rng(j, k), f(k) == exp(ch, j)), at(ch, j)))
        out[name + ":start"] = lambda k, f=f: z3.Or(k > 0, f(k) == f(z3.IntVal(0)))
        # loops that start from the first element
        out[name + ":lb1"] = lambda k, f=f, ok=ok: z3.And(ok(k), f(k) <= exp(ch, z3.IntVal(0)), FA([j], z3.Implies(rng(j, k), f(k) <= exp(ch, j)), at(ch, j)))
        out[name + ":wit1"] = lambda k, f=f, ok=ok: EX([j], z3.And(rng(j, length(ch)), f(k) == exp(ch, j)), at(ch, j))
    return out


def post_chain(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    r, ch = ip.to_v(comp[1]), g["ch"]
    j = z3.Int("j")
    return [("the result is a number", V.is_i(r)),
            ("not later than any statement's expiry", FA([j], z3.Implies(rng(j, length(ch)), V.iv(r) <= exp(ch, j)), at(ch, j))),
            ("the expiry of some statement", EX([j], z3.And(rng(j, length(ch)), V.iv(r) == exp(ch, j)), at(ch, j)))]


NOW = z3.Int("now")


def clock(ip, args, kw):
    ip.assumptions.add("the clock (utc_time_sans_frac / time.time) is a parameter: one reading per call")
    return SI(NOW)


CLOCK = {"cryptojwt.jwt.utc_time_sans_frac": clock}


def setup_tc(ip):
    e = z3.Int("exp!tc")
    me = obj(ip, TrustChain, {"exp": SI(e)}, "chain")
    return [me], {}, {"e": e}


def post_tc(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    return [("expired exactly when the current time is past the expiry", truthy(ip, comp[1]) == (NOW > g["e"]))]


def setup_st(ip):
    st = ip.fresh_v("statement", DictS({"exp": IntS(0)}))
    ip.fact(z3.Implies(has(st.t, EXP), V.is_i(get(st.t, EXP))))
    return [st], {}, {"s": st.t}


def post_st(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    s = g["s"]
    return [("expired exactly when it carries an expiry that is past", truthy(ip, comp[1]) == z3.And(has(s, EXP), NOW > V.iv(get(s, EXP))))]


CONTRACTS = [
    Contract("trust_chain_expires_at", "fedservice.entity.function.verifier:TrustChainVerifier.trust_chain_expires_at", setup_chain,
             post_chain, hooks=[hook]),
    Contract("TrustChain.is_expired", "fedservice.entity_statement.statement:TrustChain.is_expired", setup_tc, post_tc, contracts=CLOCK),
    Contract("statement_is_expired", "fedservice.utils:statement_is_expired", setup_st, post_st, contracts=CLOCK),
]
