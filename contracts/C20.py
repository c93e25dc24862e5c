"""C20 - storing, looking up, choosing and exporting trust chains."""
import copy

from .common import *
from fedservice.entity import FederationEntity
from fedservice.entity.context import FederationContext
from fedservice.entity_statement.statement import TrustChain

ANCHOR, VC, ISS = (z3.IntVal(intern("." + n)) for n in ("anchor", "verified_chain", "iss_path"))
TC = ObjS(TrustChain, {"anchor": StrS(), "verified_chain": ListS(), "iss_path": ListS(StrS())})
j, i = z3.Ints("j i")
x, e, a = z3.Consts("x e a", V)


def anchor(t):
    return attr(t, ANCHOR)


def vlen(t):
    return length(attr(t, VC))


def iss0(t):
    return at(attr(t, ISS), z3.IntVal(0))


def tc_facts(t):
    """type invariant of a trust chain"""
    return z3.And(V.is_ref(t), kind(t) == K_OBJ, V.is_s(anchor(t)), V.is_ref(attr(t, VC)), kind(attr(t, VC)) == K_LIST,
                  V.is_ref(attr(t, ISS)), kind(attr(t, ISS)) == K_LIST, length(attr(t, ISS)) > 0, V.is_s(iss0(t)))


def chains(ip, name="chains"):
    ch = ip.fresh_v(name, ListS(TC))
    ip.fact(FA([j], z3.Implies(rng(j, length(ch.t)), tc_facts(at(ch.t, j))), at(ch.t, j)))
    return ch


# ---- chains2dict
def setup_c2d(ip):
    ch = chains(ip)
    ip.E = ch.t
    return [ch], {}, {"ch": ch.t}


def best(ch, h, g, n):
    """the dictionary (h, g) is the answer for the first n chains"""
    return [FA([j], z3.Implies(rng(j, n), h(anchor(at(ch, j)))), at(ch, j)),
            FA([x], z3.Implies(h(x), EX([j], z3.And(rng(j, n), at(ch, j) == g(x), anchor(at(ch, j)) == x), at(ch, j)))),
            FA([j], z3.Implies(rng(j, n), vlen(g(anchor(at(ch, j)))) <= vlen(at(ch, j))), at(ch, j))]


def hook_c2d(ip, L):
    ch = getattr(ip, "E", None)
    if ch is None:
        return {}
    out = {}
    for c in L.cells.values():
        if c.tag == "dict":
            for n in range(3):
                out[f"{c.name}:{n}"] = lambda k, c=c, n=n: best(ch, lambda y: c.mem(k, y), lambda y: c.get(k, y), k)[n]
    return out


def post_c2d(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    r, ch = ip.to_v(comp[1]), g["ch"]
    b = best(ch, lambda y: has(r, y), lambda y: get(r, y), length(ch))
    return [("a dictionary", z3.And(V.is_ref(r), kind(r) == K_DICT)), ("every anchor is there", b[0]),
            ("an entry is one of the chains to that anchor", b[1]), ("an entry is a shortest one to its anchor", b[2])]


def c2d_contract(ip, args, kw):
    """chains2dict as its callers may see it"""
    ch = args[0].t
    d = ip.fresh_v("byanchor", DictS({}, TC))
    for f in best(ch, lambda y: has(d.t, y), lambda y: get(d.t, y), length(ch)):
        ip.fact(f)
    ip.fact(FA([x], z3.Implies(has(d.t, x), z3.And(V.is_s(x), tc_facts(get(d.t, x)))), get(d.t, x)))
    ip.D = d.t
    return d


# ---- save_trust_chains
STORE = DictS({}, DictS({}, TC, owned=True), owned=True)


def setup_save(ip):
    ch = chains(ip)
    st = ip.fresh_v("stored", STORE)
    ip.fact(FA([x], z3.Implies(has(st.t, x), z3.And(V.is_ref(get(st.t, x)), kind(get(st.t, x)) == K_DICT)), get(st.t, x)))
    ref = ip.alloc(DDict(st.t, (), STORE))
    ctx = obj(ip, FederationContext, {"trust_chain": ref})
    ip.O = st.t
    return [ctx, ch], {}, {"ctx": ctx, "old": st.t}


def saved(O, D, h, g, upto):
    """(h, g) is the store O after the entries of D with index < upto"""
    mine = z3.And(has(D, a), keyidx(D, a) < upto, iss0(get(D, a)) == e)
    inn = z3.And(h(e), has(g(e), a))
    return [FA([e, a], z3.Implies(mine, z3.And(inn, get(g(e), a) == get(D, a)))),
            FA([e, a], z3.Implies(z3.And(inn, z3.Not(mine)), z3.And(has(O, e), has(get(O, e), a), get(g(e), a) == get(get(O, e), a)))),
            FA([e, a], z3.Implies(z3.And(has(O, e), has(get(O, e), a), z3.Not(mine)), z3.And(inn, get(g(e), a) == get(get(O, e), a))))]


def hook_save(ip, L):
    D = getattr(ip, "D", None)
    if D is None:
        return {}
    out = {}
    for c in L.cells.values():
        if c.tag == "dict":
            for n in range(3):
                out[f"{c.name}:{n}"] = lambda k, c=c, n=n: saved(ip.O, D, lambda y: c.mem(k, y), lambda y: c.get(k, y), k)[n]
            out[f"{c.name}:dicts"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), z3.And(V.is_ref(c.get(k, x)), kind(c.get(k, x)) == K_DICT)))
    return out


def post_save(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    N = ip.to_v(ip.heap[g["ctx"].id].fields["trust_chain"])
    s = saved(g["old"], ip.D, lambda y: has(N, y), lambda y: get(N, y), length(ip.D))
    return [("what was saved is stored under its entity and anchor", s[0]), ("nothing else appears", s[1]),
            ("what was stored for other entities and anchors stays", s[2])]

# ---- get_trust_chain
def setup_lookup(ip):
    st = ip.fresh_v("stored", STORE)
    ref = ip.alloc(DDict(st.t, (), STORE))
    ctx = obj(ip, FederationContext, {"trust_chain": ref})
    ip.fact(FA([x], z3.Implies(has(st.t, x), z3.And(V.is_ref(get(st.t, x)), kind(get(st.t, x)) == K_DICT)), get(st.t, x)))
    ent, ta = ip.fresh_v("entity_id", StrS()), ip.fresh_v("trust_anchor", StrS())
    return [ctx, ent, ta], {}, {"ctx": ctx, "old": st.t, "ent": ent.t, "ta": ta.t}


def unchanged_store(ip, g):
    N, O = ip.to_v(ip.heap[g["ctx"].id].fields["trust_chain"]), g["old"]
    return z3.And(FA([e], has(N, e) == has(O, e)), FA([e, a], z3.Implies(has(O, e), z3.And(
        has(get(N, e), a) == has(get(O, e), a), z3.Implies(has(get(O, e), a), get(get(N, e), a) == get(get(O, e), a))))))


def post_lookup(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    r, O, ent, ta = ip.to_v(comp[1]), g["old"], g["ent"], g["ta"]
    known = z3.And(has(O, ent), has(get(O, ent), ta))
    named = ta != S("")
    return [("what is stored for the entity and the anchor", z3.Implies(z3.And(named, known), r == get(get(O, ent), ta))),
            ("nothing for an unknown entity or anchor", z3.Implies(z3.And(named, z3.Not(known)), V.is_none(r))),
            ("everything of the entity when no anchor is named", z3.Implies(z3.And(z3.Not(named), has(O, ent), has(get(O, ent), a)), z3.And(
                V.is_ref(r), kind(r) == K_DICT, has(r, a), get(r, a) == get(get(O, ent), a)))),
            ("nothing of an unknown entity", z3.Implies(z3.And(z3.Not(named), z3.Not(has(O, ent))), V.is_none(r))),
            ("the store is not changed", unchanged_store(ip, g))]


# ---- export_chain, asked for twice
def export_twice(ip, args, kw, ghost):
    f = ip.fn_of(TrustChain.export_chain)
    res = []
    for _ in range(2):
        r = ip.inline(f, args, kw)
        # what is exported now, whatever happens to the object later
        res.append(ip.alloc(copy.copy(ip.heap[r.id])) if isinstance(r, Ref) else r)
    return tuple(SV(ip.to_v(r)) for r in res)


def hook_export(ip, L):
    vc = getattr(ip, "VC", None)
    if vc is None:
        return {}
    out = {}
    for c in L.cells.values():
        if c.tag == "list":
            out[c.name + ":count"] = lambda k, c=c: c.len(k) == k
            out[c.name + ":rev"] = lambda k, c=c: FA([j], z3.Implies(rng(j, k), c.at(k, j) == at(vc, k - 1 - j)), c.at(k, j))
            out[c.name + ":rev2"] = lambda k, c=c: FA([j], z3.Implies(rng(j, k), c.at(k, j) == at(vc, length(vc) - 1 - j)), c.at(k, j))
    return out


def setup_export(ip):
    vc = ip.fresh_v("verified_chain", ListS())
    t = ip.VC = vc.t
    ref = ip.alloc(LList(Seq(length(t), lambda n: SV(at(t, n)), lambda y: mem(t, y))))
    return [obj(ip, TrustChain, {"verified_chain": ref})], {}, {"vc": t}


def post_export(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    out, vc = [], g["vc"]
    for n, r in enumerate(comp[1]):
        out.append((f"export {n + 1} is the verified chain leaf first", z3.And(
            V.is_ref(r.t), kind(r.t) == K_LIST, length(r.t) == length(vc),
            FA([j], z3.Implies(rng(j, length(vc)), at(r.t, j) == at(vc, length(vc) - 1 - j))))))
    return out


# ---- choice
PRI = ListS(StrS())


def setup_pick(ip):
    ch = chains(ip)
    ip.fact(length(ch.t) >= 1)
    pri = ip.fresh_v("tr_priority", PRI)
    ip.fact(FA([j], z3.Implies(rng(j, length(pri.t)), V.is_s(at(pri.t, j))), at(pri.t, j)))
    ctx = obj(ip, FederationContext, {"tr_priority": pri})
    ip.E, ip.P = ch.t, pri.t
    return [obj(ip, FederationEntity, {"context": ctx}), ch], {}, {"ch": ch.t, "p": pri.t}


def post_pick(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    r, ch, P = ip.to_v(comp[1]), g["ch"], g["p"]
    i2 = z3.Int("i2")
    return [("one of the available chains", EX([j], z3.And(rng(j, length(ch)), at(ch, j) == r), at(ch, j))),
            ("the anchor of the highest priority that is available", FA([i, j], z3.Implies(
                z3.And(rng(i, length(P)), rng(j, length(ch)), anchor(at(ch, j)) == at(P, i)),
                EX([i2], z3.And(0 <= i2, i2 <= i, anchor(r) == at(P, i2)), at(P, i2)))))]


def setup_stored(ip):
    st = ip.fresh_v("stored", DictS({}, DictS({}, TC)))
    ent = ip.fresh_v("entity_id", StrS())
    mine = get(st.t, ent.t)
    ip.fact(z3.And(has(st.t, ent.t), V.is_ref(mine), kind(mine) == K_DICT, length(mine) >= 1))
    pri = ip.fresh_v("tr_priority", PRI)
    ip.fact(FA([j], z3.Implies(rng(j, length(pri.t)), V.is_s(at(pri.t, j))), at(pri.t, j)))
    ctx = obj(ip, FederationContext, {"tr_priority": pri, "trust_chain": st})
    ip.P, ip.M = pri.t, mine
    return [obj(ip, FederationEntity, {"context": ctx}), ent], {}, {"m": mine, "p": pri.t}


def post_stored(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    r, m, P = ip.to_v(comp[1]), g["m"], g["p"]
    i2 = z3.Int("i2")
    return [("one of the stored chains of the entity", EX([x], z3.And(has(m, x), get(m, x) == r))),
            ("the anchor of the highest priority that is available", FA([i], z3.Implies(
                z3.And(rng(i, length(P)), has(m, at(P, i))),
                EX([i2], z3.And(0 <= i2, i2 <= i, has(m, at(P, i2)), r == get(m, at(P, i2))), at(P, i2)))))]


ENT = "fedservice.entity:FederationEntity."


CONTRACTS = [
    Contract("chains2dict", "fedservice.entity_statement.statement:chains2dict", setup_c2d, post_c2d, hooks=[hook_c2d]),
    Contract("save_trust_chains", "fedservice:save_trust_chains", setup_save, post_save, hooks=[hook_save],
             contracts={"fedservice.entity_statement.statement.chains2dict": c2d_contract}),
    Contract("get_trust_chain", "fedservice:get_trust_chain", setup_lookup, post_lookup),
    Contract("export_chain", export_twice, setup_export, post_export, hooks=[hook_export]),
    Contract("pick_trust_chain", ENT + "pick_trust_chain", setup_pick, post_pick),
    Contract("pick_from_stored_trust_chains", ENT + "pick_from_stored_trust_chains", setup_stored, post_stored),
]
