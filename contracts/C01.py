"""C01 - maximum path length.  Contract of meets_restrictions over chains of any length."""
from .common import *

MOD = "fedservice.entity_statement.constraints"
MPL, CONS, SUB, NC = S("max_path_length"), S("constraints"), S("sub"), S("naming_constraints")

CONSTRAINTS = DictS({"max_path_length": IntS(0), "naming_constraints": DictS({"permitted": ListS(StrS()), "excluded": ListS(StrS())})})
STATEMENT = DictS({"constraints": CONSTRAINTS, "sub": StrS()}, None, ["sub"])


def hm(ch, j):
    return z3.And(has(at(ch, j), CONS), has(get(at(ch, j), CONS), MPL))


def mx(ch, j):
    return V.iv(get(get(at(ch, j), CONS), MPL))


def chain(ip, naming):
    ch = ip.fresh_v("chain", ListS(STATEMENT))
    t = ch.t
    j = z3.Int("j")
    ip.fact(length(t) >= 1)
    # the shape of the input: constraints, when present, are a dictionary, the maximum a natural number
    ip.fact(FA([j], z3.Implies(rng(j, length(t)), z3.And(
        z3.Implies(has(at(t, j), CONS), z3.And(V.is_ref(get(at(t, j), CONS)), kind(get(at(t, j), CONS)) == K_DICT)),
        z3.Implies(hm(t, j), z3.And(V.is_i(get(get(at(t, j), CONS), MPL)), mx(t, j) >= 0)))), at(t, j)))
    if not naming:
        ip.fact(FA([j], z3.Implies(rng(j, length(t)), z3.Not(z3.And(has(at(t, j), CONS), has(get(at(t, j), CONS), NC)))),
                   at(t, j)))
    ip.chain = t
    return ch


def within(ch):
    j, n = z3.Int("j"), length(ch)
    return FA([j], z3.Implies(z3.And(0 <= j, j < n - 1, hm(ch, j)), n - 2 - j <= mx(ch, j)), at(ch, j))


def hook(ip, L):
    ch = getattr(ip, "chain", None)
    if ch is None:
        return {}
    j = z3.Int("jj")
    out = {}
    some = lambda k: EX([j], z3.And(rng(j, k), hm(ch, j)), at(ch, j))
    for name, b in bool_cells(L):
        out[name + ":set"] = lambda k, b=b: b(k) == some(k)
        out[name + ":unset"] = lambda k, b=b: b(k) == z3.Not(some(k))
    for name, f, isint in int_cells(L):
        ok = isint or (lambda k: z3.BoolVal(True))
        # remaining length, or the same counted differently (index based implementations keep it constant)
        for lab, val in [("rem", lambda k, j: mx(ch, j) - (k - 1 - j)), ("rem1", lambda k, j: mx(ch, j) - (k - j)),
                         ("abs", lambda k, j: mx(ch, j) + j), ("abs1", lambda k, j: mx(ch, j) + j + 1)]:
            out[f"{name}:{lab}:le"] = lambda k, f=f, val=val, ok=ok: FA([j], z3.Implies(
                z3.And(rng(j, k), hm(ch, j)), z3.And(ok(k), f(k) <= val(k, j))), at(ch, j))
            out[f"{name}:{lab}:eq"] = lambda k, f=f, val=val, ok=ok: z3.Implies(some(k), EX(
                [j], z3.And(rng(j, k), hm(ch, j), f(k) == val(k, j)), at(ch, j)))
        if isint:
            out[name + ":isint"] = lambda k, isint=isint: isint(k) == some(k)
        out[name + ":pos"] = lambda k, f=f, ok=ok: z3.Implies(some(k), f(k) >= 0)
        out[name + ":none"] = lambda k, f=f: z3.Implies(z3.Not(some(k)), f(k) == f(z3.IntVal(0)))
    for c in L.cells.values():
        if c.tag == "i":
            out[c.name + ":count"] = lambda k, c=c: c.f(k) == c.f(z3.IntVal(0)) + k
    if L.node is not None:
        for c in L.cells.values():
            if c.tag == "fdict":
                for kk in c.keys:
                    out[f"{c.name}:{kk}:none"] = lambda k, c=c, kk=kk: V.is_none(c.v[kk](k))
    return out


def setup(naming):
    def f(ip):
        ch = chain(ip, naming)
        return [ch], {}, {"ch": ch.t}
    return f


def post_sound(ip, g, comp):
    if comp[0] != "return":
        return []           # refused by an exception
    return [("an accepted chain keeps within every maximum", z3.Implies(truthy(ip, comp[1]), within(g["ch"])))]


def post_complete(ip, g, comp):
    if comp[0] != "return":
        return [("no exception", False)]
    return [("a chain that keeps within every maximum is accepted", z3.Implies(within(g["ch"]), truthy(ip, comp[1])))]


def havoc_naming(ip, args, kw):
    d = args[1]
    return ip.alloc(DDict(None, [("permitted", ip.fresh_v("perm", OptS(ListS(StrS()))), True),
                                 ("excluded", ip.fresh_v("excl", OptS(ListS(StrS()))), True)]))


def any_bool(ip, args, kw):
    return SB(ip.fresh("nm", B))


CONTRACTS = [
    Contract("meets_restrictions (soundness, any naming constraints)", MOD + ":meets_restrictions", setup(True), post_sound,
             hooks=[hook], contracts={MOD + ".update_naming_constraints": havoc_naming, MOD + ".excluded": any_bool,
                                      MOD + ".permitted": any_bool},
             note="naming constraints functions are replaced by 'any result'"),
    Contract("meets_restrictions (completeness, no naming constraints)", MOD + ":meets_restrictions", setup(False),
             post_complete, hooks=[hook]),
]
