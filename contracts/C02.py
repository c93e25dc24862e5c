"""C02 - naming constraints.  Splitting a name into labels is an uninterpreted function of the name (removing the scheme and
str.split are not modelled further); everything said about labels is proved."""
from .common import *
from . import C01

MOD = "fedservice.entity_statement.constraints"
x, y = z3.Consts("x y", V)
i, j = z3.Ints("i j")
STRIP = z3.Function("without_scheme", V, V)
SCHEME = z3.Function("has_scheme", V, B)
EMPTYSTR = S("")


def labels(u):
    return pb.uf("str_split2", V, V, V)(STRIP(u), S("."))


def right(l, n):
    """label n from the right"""
    return at(l, length(l) - 1 - n)


def under_labels(la, lb):
    named = FA([i], z3.Implies(z3.And(0 <= i, i <= j), right(lb, i) != EMPTYSTR))
    return z3.And(length(la) >= length(lb), FA([j], z3.Implies(z3.And(0 <= j, j < length(lb), named), right(la, j) == right(lb, j))))


def strip_contract(ip, args, kw):
    u = ip.to_v(args[0])
    if not ip.branch(SCHEME(u)):
        raise PyRaise(ExcVal(ValueError))
    return SV(STRIP(u), StrS())


def setup_ms(ip):
    a, b = ip.fresh_v("name", StrS()), ip.fresh_v("subtree", StrS())
    la, lb = labels(a.t), labels(b.t)
    # an empty label of a name does not meet an empty label of the subtree other than its last one
    ip.fact(FA([j], z3.Implies(z3.And(0 <= j, j < length(lb) - 1, j < length(la)), z3.Not(z3.And(right(la, j) == EMPTYSTR, right(lb, j) == EMPTYSTR)))))
    return [a, b], {}, {"a": a.t, "b": b.t}


def post_ms(ip, g, comp):
    if comp[0] == "raise":
        return [("only a name without a scheme is refused", z3.Not(z3.And(SCHEME(g["a"]), SCHEME(g["b"]))))]
    t, u = truthy(ip, comp[1]), under_labels(labels(g["a"]), labels(g["b"]))
    return [("only a name that repeats the subtree's labels falls under it", z3.Implies(t, u)),
            ("a name that repeats the subtree's labels falls under it", z3.Implies(u, t))]


# ---- by the contract of more_specific
UNDER = z3.Function("falls_under", V, V, B)


def under_contract(ip, args, kw):
    if len(args) != 2 or kw:
        raise Unsupported("more_specific called otherwise")
    return SB(UNDER(ip.to_v(args[0]), ip.to_v(args[1])))


MS = {MOD + ".more_specific": under_contract}


def setup_in(ip):
    s, l = ip.fresh_v("subject", StrS()), ip.fresh_v("subtrees", ListS(StrS()))
    return [s, l], {}, {"s": s.t, "l": l.t}


def falls(s, l):
    return EX([x], z3.And(mem(l, x), UNDER(s, x)))


def post_in(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    return [("exactly when the name falls under one of the subtrees", truthy(ip, comp[1]) == falls(g["s"], g["l"]))]


def setup_up(ip):
    n, o = ip.fresh_v("new", ListS(StrS())), ip.fresh_v("old", ListS(StrS()))
    ip.NO = (n.t, o.t)
    return [n, o], {}, {"n": n.t, "o": o.t}


def hook_up(ip, L):
    no = getattr(ip, "NO", None)
    if no is None:
        return {}
    n, o = no
    part = lambda e, ol: z3.Or(z3.And(mem(n, e), UNDER(e, ol)), z3.And(e == ol, z3.Not(EX([y], z3.And(mem(n, y), UNDER(y, ol))))))
    out = {}
    for name, m in mem_cells(L):
        out[name + ":sound"] = lambda k, m=m: FA([x], z3.Implies(m(k, x), EX([j], z3.And(rng(j, k), part(x, at(o, j))))), m(k, x))
        out[name + ":complete"] = lambda k, m=m: FA([j, x], z3.Implies(z3.And(rng(j, k), part(x, at(o, j))), m(k, x)), z3.MultiPattern(m(k, x), at(o, j)))
    return out


def updated(n, o, e):
    """e is in force after an update of the subtrees o by the subtrees n"""
    return z3.Or(z3.And(mem(n, e), EX([y], z3.And(mem(o, y), UNDER(e, y)))), z3.And(mem(o, e), z3.Not(EX([y], z3.And(mem(n, y), UNDER(y, e))))))


def post_up(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    r = ip.to_v(comp[1])
    n, o = g["n"], g["o"]
    return [("a list of subtrees", islist(r)),
            ("only subtrees inside those in force, or those in force, are in force", FA([x], z3.Implies(mem(r, x), updated(n, o, x)))),
            ("all those are in force", FA([x], z3.Implies(updated(n, o, x), mem(r, x))))]


# ---- by the contract of update_specs
UPD = z3.Function("updated_subtrees", V, V, V)


def upd_contract(ip, args, kw):
    n, o = [ip.to_v(a) for a in args]
    t = UPD(n, o)
    ip.fact(islist(t))
    ip.fact(z3.Implies(length(o) > 0, length(t) > 0))     # proved below: an update never leaves nothing in force
    return SV(t, ListS(StrS()))


def nonempty_up(ip, g, comp):
    if comp[0] == "raise":
        return []
    r = ip.to_v(comp[1])
    first = at(g["o"], 0)      # a member of r, or inside it is one: either way r has a member, and so a length
    return [("something stays in force", z3.Implies(length(g["o"]) > 0, z3.Or(length(r) > 0, mem(r, first), EX([y], z3.And(mem(r, y), UNDER(y, first))))))]


KEYS = ["permitted", "excluded"]
NC = DictS({k: ListS(StrS()) for k in KEYS})


def in_force(new, old, k):
    """what is in force for k: old (a value, none when nothing) updated by what new states"""
    n = get(new, S(k))
    given = z3.And(has(new, S(k)), length(n) > 0)
    nothing = z3.Or(V.is_none(old), length(old) <= 0)
    return z3.If(z3.Not(given), old, z3.If(nothing, n, UPD(n, old)))


def state(ip):
    vs = {k: ip.fresh_v(k, OptS(ListS(StrS()))) for k in KEYS}
    return ip.alloc(DDict(None, [(k, v, True) for k, v in vs.items()])), {k: v.t for k, v in vs.items()}


def setup_add(ip):
    n = ip.fresh_v("new_constraints", NC)
    ref, old = state(ip)
    return [n, ref], {}, {"n": n.t, "old": old}


def same_subtrees(a, b):
    return z3.Or(a == b, z3.And(islist(a), islist(b), length(a) == length(b), FA([i], z3.Implies(rng(i, length(b)), at(a, i) == at(b, i)), at(b, i))))


def post_add(new):
    def f(ip, g, comp):
        if comp[0] == "raise":
            return [("no exception", False)]
        r = ip.to_v(comp[1])
        n, given = new(g)
        out = [("subtrees in force", isdict(r))]
        for k in KEYS:
            v, old = get(r, S(k)), g["old"][k]
            out.append((f"{k} subtrees in force", z3.And(has(r, S(k)), z3.If(given, same_subtrees(v, in_force(n, old, k)), v == old))))
        return out
    return f


CONS = DictS({"naming_constraints": NC})


def setup_unc(ip):
    c = ip.fresh_v("constraints", CONS)
    ref, old = state(ip)
    return [c, ref], {}, {"c": c.t, "old": old}


# ---- meets_restrictions: the subtrees in force are a fold over the statements
FOLD = {k: z3.Function(k + "_in_force", I, V) for k in KEYS}
CHAIN = z3.Const("chain", V)
FALLS = z3.Function("falls_under_one_of", V, V, B)


def axioms():
    es = at(CHAIN, i)
    c = get(es, S("constraints"))
    given = z3.And(has(es, S("constraints")), has(c, S("naming_constraints")))
    out = []
    for k in KEYS:
        out.append(V.is_none(FOLD[k](0)))
        f = in_force(get(c, S("naming_constraints")), FOLD[k](i), k)
        out.append(FA([i], z3.Implies(i >= 0, FOLD[k](i + 1) == z3.If(given, f, FOLD[k](i))), at(CHAIN, i)))
    return out


def unc_contract(ip, args, kw):
    """update_naming_constraints as proved above"""
    c, st = args
    if ip.branch(ip.contains("naming_constraints", c)):
        new = ip.to_v(pb.getitem(ip, c, "naming_constraints"))
        for k in KEYS:
            old = ip.to_v(pb.getitem(ip, st, k))
            t = in_force(new, old, k)
            pb.setitem(ip, st, k, SV(t, OptS(ListS(StrS()))))
    return st


def falls_contract(ip, args, kw):
    return SB(FALLS(ip.to_v(args[0]), ip.to_v(args[1])))


def setup_mr(lengths):
    def f(ip):
        ip.input_names.add("chain")
        ch = ip.sv(CHAIN, ListS(C01.STATEMENT))
        ip.fact(z3.And(islist(CHAIN), length(CHAIN) >= 1))
        t = CHAIN
        ip.fact(FA([j], z3.Implies(rng(j, length(t)), z3.And(
            z3.Implies(has(at(t, j), C01.CONS), isdict(get(at(t, j), C01.CONS))),
            z3.Implies(C01.hm(t, j), z3.And(V.is_i(get(get(at(t, j), C01.CONS), C01.MPL)), C01.mx(t, j) >= 0)))), at(t, j)))
        nc = get(get(at(t, j), C01.CONS), S("naming_constraints"))
        ip.fact(FA([j], z3.Implies(z3.And(rng(j, length(t)), has(at(t, j), C01.CONS), has(get(at(t, j), C01.CONS), S("naming_constraints"))), z3.And(
            isdict(nc), *[z3.Implies(has(nc, S(w)), islist(get(nc, S(w)))) for w in KEYS])), at(t, j)))
        n, o = z3.Consts("n o", V)
        ip.fact(FA([n, o], islist(UPD(n, o)), UPD(n, o)))
        if not lengths:
            ip.fact(FA([j], z3.Implies(rng(j, length(t)), z3.Not(C01.hm(t, j))), at(t, j)))
            ip.chain = t
        return [ch], {}, {}
    return f


def ok(n, subject):
    """the subject obeys the subtrees in force after n statements"""
    ex, pe = FOLD["excluded"](n), FOLD["permitted"](n)
    some = lambda t: z3.And(z3.Not(V.is_none(t)), length(t) > 0)
    return z3.And(z3.Not(z3.And(some(ex), FALLS(subject, ex))), z3.Implies(some(pe), FALLS(subject, pe)))


def sub(n):
    return get(at(CHAIN, n), S("sub"))


def obeyed():
    n = length(CHAIN)
    return z3.And(FA([j], z3.Implies(z3.And(0 <= j, j < n - 1), ok(j + 1, sub(j))), at(CHAIN, j)), ok(n - 1, sub(n - 1)))


def hook_mr(ip, L):
    out = {}
    for c in L.cells.values():
        for w in KEYS:
            if c.tag == "fdict" and w in c.keys:
                out[f"{c.name}[{w}]"] = lambda k, f=c.v[w], w=w: f(k) == FOLD[w](k)
            if c.tag == "v":
                out[f"{c.name}:{w}"] = lambda k, c=c, w=w: c.f(k) == FOLD[w](k)
    for w in KEYS:
        out[f"{w} are lists"] = lambda k, w=w: z3.Or(V.is_none(FOLD[w](k)), islist(FOLD[w](k)))
    out["obeyed so far"] = lambda k: FA([j], z3.Implies(z3.And(0 <= j, j < k), ok(j + 1, sub(j))), at(CHAIN, j))
    return out


def post_mr_sound(ip, g, comp):
    if comp[0] == "raise":
        return []
    return [("every subject obeys the subtrees in force for it", z3.Implies(truthy(ip, comp[1]), obeyed()))]


def post_mr_complete(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    return [("a chain whose subjects obey the subtrees in force is accepted", z3.Implies(obeyed(), truthy(ip, comp[1])))]


FOLDED = {MOD + ".update_naming_constraints": unc_contract, MOD + ".permitted": falls_contract, MOD + ".excluded": falls_contract}
CONTRACTS = [
    Contract("more_specific", MOD + ":more_specific", setup_ms, post_ms, contracts={MOD + ".remove_scheme": strip_contract}),
    Contract("permitted", MOD + ":permitted", setup_in, post_in, contracts=MS),
    Contract("excluded", MOD + ":excluded", setup_in, post_in, contracts=MS),
    Contract("update_specs", MOD + ":update_specs", setup_up, post_up, hooks=[hook_up], contracts=MS),
    Contract("update_specs (never empty)", MOD + ":update_specs", setup_up, nonempty_up, hooks=[hook_up], contracts=MS),
    Contract("add_constraints", MOD + ":add_constraints", setup_add, post_add(lambda g: (g["n"], z3.BoolVal(True))), contracts={MOD + ".update_specs": upd_contract}),
    Contract("update_naming_constraints", MOD + ":update_naming_constraints", setup_unc,
             post_add(lambda g: (get(g["c"], S("naming_constraints")), has(g["c"], S("naming_constraints")))), contracts={MOD + ".update_specs": upd_contract}),
    Contract("meets_restrictions (soundness, any lengths)", MOD + ":meets_restrictions", setup_mr(True), post_mr_sound, hooks=[hook_mr],
             contracts=FOLDED, axioms=axioms),
    Contract("meets_restrictions (completeness, no maximum lengths)", MOD + ":meets_restrictions", setup_mr(False), post_mr_complete,
             hooks=[hook_mr, C01.hook], contracts=FOLDED, axioms=axioms),
]
