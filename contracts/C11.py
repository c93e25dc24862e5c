"""C11 - the register of issued trust marks (SimpleDB and FileDB).

Files: one file is watched; its content is ghost state (a list of the lines written after those it had), reading a file
gives its lines.  json and str.rstrip are uninterpreted but for the round trip stated in axioms()."""
import os
import json

from .common import *
from fedservice.trust_mark_entity import FileDB, SimpleDB

x = z3.Const("x", V)
y = z3.Const("y", V)
j, i = z3.Ints("jj ii")
MOD = "fedservice.trust_mark_entity:"
NOW = z3.Int("now")
CLOCK = {"cryptojwt.jwt.utc_time_sans_frac": lambda ip, a, kw: SI(NOW)}
TM = DictS({"id": StrS(), "sub": StrS(), "iat": IntS(), "exp": IntS()}, None, ["id", "sub", "iat"])
DB = DictS({}, DictS({}, TM, owned=True), owned=True)
SUB, EXP, IAT, ID = S("sub"), S("exp"), S("iat"), S("id")
DUMPS, PARSE, LINES, EXISTS = (z3.Function(n, V, V) for n in ("dumps", "parse", "lines_of", "file_exists"))


def tm_shape(t):
    return z3.And(isdict(t), has(t, ID), V.is_s(get(t, ID)), has(t, SUB), V.is_s(get(t, SUB)), has(t, IAT), V.is_i(get(t, IAT)),
                  z3.Implies(has(t, EXP), V.is_i(get(t, EXP))))


def unexpired(t):
    return z3.Or(z3.Not(has(t, EXP)), NOW <= V.iv(get(t, EXP)))


# ---- SimpleDB
def simple(ip):
    db = ip.fresh_v("db", DB)
    ip.fact(FA([x], z3.Implies(has(db.t, x), isdict(get(db.t, x))), get(db.t, x)))
    ip.fact(FA([x, y], z3.Implies(z3.And(has(db.t, x), has(get(db.t, x), y)), tm_shape(get(get(db.t, x), y))), get(get(db.t, x), y)))
    return obj(ip, SimpleDB, {"_db": ip.alloc(DDict(db.t, (), DB))}, "register"), db.t


def entry(d, i_, s):
    return z3.And(has(d, i_), has(get(d, i_), s))


def latest(d, i_, s):
    return get(get(d, i_), s)


def db_of(ip, me):
    return ip.to_v(ip.heap[me.id].fields["_db"])


def tm_eq(t, u):
    return FA([x], z3.And(has(t, x) == has(u, x), z3.Implies(has(u, x), get(t, x) == get(u, x))))


def setup_add(ip):
    me, db = simple(ip)
    tm = ip.fresh_v("tm_info", TM)
    ip.fact(tm_shape(tm.t))
    return [me, tm], {}, {"me": me, "db": db, "tm": tm.t}


def post_add(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    d1, d0, tm = db_of(ip, g["me"]), g["db"], g["tm"]
    i0, s0 = get(tm, ID), get(tm, SUB)
    p, q = z3.Consts("p q", V)
    return [("the mark is remembered as the latest one", z3.And(entry(d1, i0, s0), latest(d1, i0, s0) == tm)),
            ("everything else is remembered as before", FA([p, q], z3.Implies(z3.Or(p != i0, q != s0), z3.And(
                entry(d1, p, q) == entry(d0, p, q), z3.Implies(entry(d0, p, q), latest(d1, p, q) == latest(d0, p, q))))))]


def setup_find(ip):
    me, db = simple(ip)
    i_, s, t = ip.fresh_v("trust_mark_id", StrS()), ip.fresh_v("sub", StrS()), ip.fresh_v("iat", IntS(0))
    return [me, i_, s, t], {}, {"me": me, "db": db, "id": i_.t, "s": s.t, "iat": V.iv(t.t)}


def post_find(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    r, d, i_, s, t = truthy(ip, comp[1]), g["db"], g["id"], g["s"], g["iat"]
    tm = latest(d, i_, s)
    ok = z3.And(entry(d, i_, s), unexpired(tm))
    return [("without an issue time: found exactly when the latest one has not expired", z3.Implies(t == 0, r == ok)),
            ("with an issue time: found only if one issued then was added", z3.Implies(z3.And(t != 0, r), z3.And(entry(d, i_, s), V.iv(get(tm, IAT)) == t))),
            ("with the issue time of the latest one: found unless that has expired", z3.Implies(z3.And(t != 0, ok, V.iv(get(tm, IAT)) == t), r))]


def setup_list(ip):
    me, db = simple(ip)
    i_, s = ip.fresh_v("trust_mark_id", StrS()), ip.fresh_v("sub", StrS())
    return [me, i_, s], {}, {"me": me, "db": db, "id": i_.t, "s": s.t}


def once(r):
    return FA([i, j], z3.Implies(z3.And(rng(i, length(r)), rng(j, length(r)), i != j), at(r, i) != at(r, j)), z3.MultiPattern(at(r, i), at(r, j)))


def post_list(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    r = ip.to_v(comp[1])
    return [("the subjects it was issued to, restricted to the one given", FA([x], mem(r, x) == z3.And(entry(g["db"], g["id"], x), z3.Or(g["s"] == S(""), x == g["s"])))),
            ("each of them once", once(r))]


# ---- FileDB
class GhostFile:
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def __iter__(self): pass
    def write(self, s): pass
    def close(self): pass
    def readlines(self): pass


GF = "contracts.C11.GhostFile."


def watched(ip):
    """the file that is watched, and the ghost list of what has been written at its end"""
    ip.W = z3.Const("watched_file", V)
    ip.WRITTEN = ip.alloc(LList(None, []))
    ip.fact(V.is_s(ip.W))


def open_contract(ip, args, kw):
    name = ip.to_v(args[0])
    mode = args[1] if len(args) > 1 else kw.get("mode", "r")
    if mode not in ("r", "a", "w"):
        raise Unsupported("mode of open")
    if mode == "w":
        require(ip, EXISTS(name) == V.b(False))        # would empty a file that is there
    return obj(ip, GhostFile, {"name": SV(name, StrS()), "mode": mode, "watched": bool(ip.branch(name == ip.W))}, "file")


def file_self(ip, args, kw):
    return args[0]


def file_exit(ip, args, kw):
    return False


def file_lines(ip, args, kw):
    f = ip.heap[args[0].id].fields
    require(ip, z3.BoolVal(f["mode"] == "r"))
    t = LINES(f["name"].t)
    ip.fact(z3.And(islist(t), length(t) >= 0))
    ip.fact(FA([j], z3.Implies(rng(j, length(t)), V.is_s(at(t, j))), at(t, j)))
    ip.assumptions.add("a file read is its lines in order; nobody else changes the files during a call")
    return SV(t, ListS(StrS()))


def file_write(ip, args, kw):
    f = ip.heap[args[0].id].fields
    require(ip, z3.BoolVal(f["mode"] in ("a", "w")))
    if f["watched"]:
        ip.call(ip.getattr(ip.WRITTEN, "append"), [args[1]], {})
    return None


def dumps(ip, args, kw):
    t = DUMPS(ip.to_v(args[0]))
    ip.fact(V.is_s(t))
    return SV(t, StrS())


def loads(ip, args, kw):
    t = ip.to_v(args[0])
    while z3.is_app(t) and t.decl().name() in ("str_rstrip", "str_strip", "str_lstrip") and t.num_args() == 1:
        t = t.arg(0)            # white space around a JSON document does not matter
    return SV(PARSE(t), TM)


def exists(ip, args, kw):
    t = EXISTS(ip.to_v(args[0]))
    ip.fact(V.is_b(t))
    return SV(t, BoolS())


FILES = {"_io.open": open_contract, "io.open": open_contract, "builtins.open": open_contract, GF + "__enter__": file_self, GF + "__exit__": file_exit,
         GF + "__iter__": file_lines, GF + "readlines": file_lines, GF + "write": file_write, GF + "close": lambda ip, a, kw: None,
         "json.dumps": dumps, "json.loads": loads, "posixpath.exists": exists, "genericpath.exists": exists, **CLOCK}


def line_of(ip, t):
    """the line written for a mark"""
    return ip.to_v(pb.binop(ip, __import__("ast").Add(), SV(DUMPS(t), StrS()), "\n"))


def config(ip):
    c = ip.fresh_v("config", DictS({}, StrS()))
    ip.fact(FA([x], z3.Implies(has(c.t, x), z3.And(V.is_s(get(c.t, x)), V.is_s(x))), get(c.t, x)))
    # one file per identifier
    ip.fact(FA([x, y], z3.Implies(z3.And(has(c.t, x), has(c.t, y), get(c.t, x) == get(c.t, y)), x == y), z3.MultiPattern(get(c.t, x), get(c.t, y))))
    return c


def filedb(ip):
    watched(ip)
    c = config(ip)
    return obj(ip, FileDB, {"config": c}, "register"), c.t


def marks(ip, c, i_):
    """the marks kept for an identifier: the j-th line, and how many there are"""
    ls = LINES(get(c, i_))
    ip.fact(FA([j], z3.Implies(rng(j, length(ls)), tm_shape(PARSE(at(ls, j)))), at(ls, j)))
    return (lambda n: PARSE(at(ls, n))), length(ls), ls


def written(ip):
    return ip.to_v(ip.WRITTEN)


def setup_fadd(ip):
    me, c = filedb(ip)
    tm = ip.fresh_v("tm_info", TM)
    ip.fact(tm_shape(tm.t))
    ip.fact(has(c, get(tm.t, ID)))
    return [me, tm], {}, {"c": c, "tm": tm.t}


def post_fadd(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    w, mine = written(ip), get(g["c"], get(g["tm"], ID)) == ip.W
    one = z3.And(length(w) == 1, at(w, 0) == line_of(ip, g["tm"]))
    two = z3.And(length(w) == 2, at(w, 0) == DUMPS(g["tm"]), at(w, 1) == S("\n"))
    return [("one line with the mark is appended to the file of its identifier", z3.Implies(mine, z3.Or(one, two))),
            ("nothing is written to any other file", z3.Implies(z3.Not(mine), length(w) == 0))]


def setup_ffind(ip):
    me, c = filedb(ip)
    i_, s, t = ip.fresh_v("trust_mark_id", StrS()), ip.fresh_v("sub", StrS()), ip.fresh_v("iat", IntS(0))
    ip.MARKS = marks(ip, c, i_.t)
    ip.Q = (s.t, V.iv(t.t))
    return [me, i_, s, t], {}, {"c": c, "id": i_.t, "s": s.t, "iat": V.iv(t.t)}


def matches(ip, n, iat=True):
    s, t = ip.Q
    m = ip.MARKS[0](n)
    return z3.And(get(m, SUB) == s, z3.Or(t == 0, V.iv(get(m, IAT)) == t) if iat else z3.BoolVal(True))


def post_ffind(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    r, (m, n, ls) = truthy(ip, comp[1]), ip.MARKS
    t, known = g["iat"], has(g["c"], g["id"])
    last = lambda a: z3.And(rng(a, n), matches(ip, a, False), FA([j], z3.Implies(rng(j, n, a + 1), z3.Not(matches(ip, j, False))), at(ls, j)))
    a = z3.Int("last")
    return [("an identifier never registered yields nothing", z3.Implies(z3.Not(known), z3.Not(r))),
            ("what is found is there", z3.Implies(r, EX([j], z3.And(rng(j, n), matches(ip, j)), at(ls, j)))),
            ("no entry is found when there is none or the latest has expired", z3.Implies(z3.And(t == 0, known, last(a), z3.Not(unexpired(m(a)))), z3.Not(r))),
            ("an entry is found when the latest has not expired", z3.Implies(z3.And(known, last(a), unexpired(m(a)), z3.Or(t == 0, V.iv(get(m(a), IAT)) == t)), r))]


def hook(ip, L):
    out = {}
    ms = getattr(ip, "MARKS", None)
    done = getattr(L.seq, "done", None)
    for c in L.cells.values():
        if c.tag == "list" and done is not None:
            out[c.name + ":once"] = lambda k, c=c: FA([i, j], z3.Implies(z3.And(rng(i, c.len(k)), rng(j, c.len(k)), i != j), c.at(k, i) != c.at(k, j)),
                                                      z3.MultiPattern(c.at(k, i), c.at(k, j)))
            out[c.name + ":seen"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), done(k, x)), c.mem(k, x))
    if ms is not None:
        m, n, ls = ms
        el = lambda q: ip.to_v(L.seq.at(q))
        sub = lambda q: get(PARSE(el(q)), SUB)
        lsub = lambda q: get(m(q), SUB)
        if getattr(ip, "Q", None):
            out["no match yet (reversed)"] = lambda k: FA([j], z3.Implies(rng(j, n, n - k), z3.Not(matches(ip, j))), at(ls, j))
            out["no match yet"] = lambda k: FA([j], z3.Implies(rng(j, k), z3.Not(matches(ip, j))), at(ls, j))
        want = getattr(ip, "WANT", None)
        if want is not None:
            ok = lambda q: z3.Or(want == S(""), q == want)
            for c in L.cells.values():
                if c.tag == "list":
                    out[c.name + ":once"] = lambda k, c=c: FA([i, j], z3.Implies(z3.And(rng(i, c.len(k)), rng(j, c.len(k)), i != j), c.at(k, i) != c.at(k, j)),
                                                              z3.MultiPattern(c.at(k, i), c.at(k, j)))
                if c.tag in ("list", "set", "dict"):
                    out[c.name + ":from"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), z3.And(ok(x), EX([j], z3.And(rng(j, n), lsub(j) == x), at(ls, j)))), c.mem(k, x))
                    out[c.name + ":all (reversed)"] = lambda k, c=c: FA([j], z3.Implies(z3.And(rng(j, n, n - k), ok(lsub(j))), c.mem(k, lsub(j))), at(ls, j))
                    out[c.name + ":all"] = lambda k, c=c: FA([j], z3.Implies(z3.And(rng(j, k), ok(lsub(j))), c.mem(k, lsub(j))), at(ls, j))
    return out


def setup_flist(ip):
    me, c = filedb(ip)
    i_, s = ip.fresh_v("trust_mark_id", StrS()), ip.fresh_v("sub", StrS())
    ip.MARKS = marks(ip, c, i_.t)
    ip.WANT = s.t
    return [me, i_, s], {}, {"c": c, "id": i_.t, "s": s.t}


def post_flist(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    r, (m, n, ls) = ip.to_v(comp[1]), ip.MARKS
    known = has(g["c"], g["id"])
    listed = lambda q: z3.And(known, z3.Or(g["s"] == S(""), q == g["s"]), EX([j], z3.And(rng(j, n), get(m(j), SUB) == q), at(ls, j)))
    return [("only subjects it was issued to, restricted to the one given", FA([x], z3.Implies(mem(r, x), listed(x)))),
            ("every one of them", FA([j], z3.Implies(z3.And(known, rng(j, n), z3.Or(g["s"] == S(""), get(m(j), SUB) == g["s"])), mem(r, get(m(j), SUB))), at(ls, j))),
            ("each of them once", once(r))]


# ---- saving and restoring
def setup_init(ip):
    watched(ip)
    c = config(ip)
    me = obj(ip, FileDB, {}, "register")
    return [me], {"**": c}, {"c": c.t, "me": me}


def post_init(ip, g, comp):
    if comp[0] == "raise":
        return [("a file that is there is not emptied; no exception", False)]
    return [("nothing is written", length(written(ip)) == 0), ("every identifier keeps its file", tm_eq(ip.to_v(ip.heap[g["me"].id].fields["config"]), g["c"]))]


def setup_dump(ip):
    me, c = filedb(ip)
    ip.DUMP = c
    return [me], {}, {"c": c}


def same_line(t, u):
    return z3.Or(t == u, *[t == z3.Function(n, V, V)(u) for n in ("str_rstrip", "str_strip")])


def post_dump(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    r, c = ip.to_v(comp[1]), g["c"]
    ls = lambda q: LINES(get(c, q))
    return [("every identifier is in the dump", FA([x], has(r, x) == has(c, x))),
            ("with every line of its file", FA([x], z3.Implies(has(c, x), z3.And(islist(get(r, x)), length(get(r, x)) == length(ls(x)))))),
            ("in their order", FA([x, j], z3.Implies(z3.And(has(c, x), rng(j, length(ls(x)))), same_line(at(get(r, x), j), at(ls(x), j))), at(get(r, x), j)))]


def hook_dump(ip, L):
    out, done = {}, getattr(L.seq, "done", None)
    cf = getattr(ip, "DUMP", None)
    for c in L.cells.values():
        if c.tag == "dict" and done is not None and cf is not None:
            ls = lambda q: LINES(get(cf, q))
            out[c.name + ":lines"] = lambda k, c=c: FA([x], z3.Implies(done(k, x), z3.And(c.mem(k, x), islist(c.get(k, x)), length(c.get(k, x)) == length(ls(x)))), c.get(k, x))
            out[c.name + ":known"] = lambda k, c=c: FA([x], z3.Implies(c.mem(k, x), done(k, x)), c.mem(k, x))
            out[c.name + ":order"] = lambda k, c=c: FA([x, j], z3.Implies(z3.And(done(k, x), rng(j, length(ls(x)))), same_line(at(c.get(k, x), j), at(ls(x), j))), at(c.get(k, x), j))
    return out


def setup_load(ip):
    me, c = filedb(ip)
    info = ip.fresh_v("info", DictS({}, ListS(StrS())))
    ip.fact(FA([x], z3.Implies(has(c, x), z3.And(has(info.t, x), islist(get(info.t, x)), length(get(info.t, x)) >= 0)), has(c, x)))
    ip.fact(FA([x, j], z3.Implies(z3.And(has(c, x), rng(j, length(get(info.t, x)))), V.is_s(at(get(info.t, x), j))), at(get(info.t, x), j)))
    ip.LOAD = (c, info.t, z3.Const("watched_id", V))
    ip.fact(z3.And(has(c, ip.LOAD[2]), get(c, ip.LOAD[2]) == ip.W))
    return [me, info], {}, {"c": c, "info": info.t}


def terminated(ip, t):
    """the lines that end a text"""
    return ip.to_v(pb.binop(ip, __import__("ast").Add(), SV(t, StrS()), "\n"))


def post_load(ip, g, comp):
    if comp[0] == "raise":
        return [("no exception", False)]
    w, n = written(ip), get(g["info"], ip.LOAD[2])
    return [("every line is appended to the file of its identifier", length(w) == length(n)),
            ("in its order and ended", FA([j], z3.Implies(rng(j, length(n)), at(w, j) == terminated(ip, at(n, j))), at(w, j)))]


def hook_load(ip, L):
    out = {}
    ld = getattr(ip, "LOAD", None)
    if ld is None:
        return out
    c0, info, wid = ld
    n = get(info, wid)
    done = getattr(L.seq, "done", None)
    for c in L.cells.values():
        if c.tag == "list":
            if done is not None:
                out[c.name + ":before"] = lambda k, c=c: z3.Implies(z3.Not(done(k, wid)), c.len(k) == 0)
                out[c.name + ":after"] = lambda k, c=c: z3.Implies(done(k, wid), c.len(k) == length(n))
                out[c.name + ":lines"] = lambda k, c=c: z3.Implies(done(k, wid), FA([j], z3.Implies(rng(j, length(n)), c.at(k, j) == terminated(ip, at(n, j))), c.at(k, j)))
            el = lambda q: ip.to_v(L.seq.at(q))
            out[c.name + ":so far"] = lambda k, c=c: c.len(k) == c.len(z3.IntVal(0)) + k
            out[c.name + ":so far lines"] = lambda k, c=c: FA([j], z3.Implies(rng(j, k), c.at(k, c.len(z3.IntVal(0)) + j) == terminated(ip, el(j))))
    return out


def setup_sload(ip):
    db = ip.fresh_v("db", DictS())
    me = obj(ip, SimpleDB, {"_db": ip.alloc(DDict(None, ()))}, "register")
    return [me, db], {}, {"db": db.t, "me": me}


def post_sload(parsed):
    def f(ip, g, comp):
        if comp[0] == "raise":
            return [("no exception", False)]
        me = ip.heap[g["me"].id].fields["_db"]
        return [("the register is what was dumped", ip.to_v(me) == (PARSE(g["db"]) if parsed else g["db"]))]
    return f


def setup_sdump(ip):
    me, db = simple(ip)
    ip.heap[me.id] = HObj(SimpleDB, {"_db": SV(db, DB)}, "register", False)
    return [me], {}, {"db": db, "me": me}


def post_sdump(text):
    def f(ip, g, comp):
        if comp[0] == "raise":
            return [("no exception", False)]
        r = ip.to_v(comp[1])
        return [("the dump is the register", r == DUMPS(g["db"]) if text else z3.Or(r == g["db"], tm_eq(r, g["db"])))]
    return f


def setup_sloads(ip):
    me = obj(ip, SimpleDB, {"_db": ip.alloc(DDict(None, ()))}, "register")
    s = ip.fresh_v("text", StrS())
    return [me, s], {}, {"db": s.t, "me": me}


CONTRACTS = [
    Contract("SimpleDB.add", MOD + "SimpleDB.add", setup_add, post_add),
    Contract("SimpleDB.find", MOD + "SimpleDB.find", setup_find, post_find, contracts=CLOCK),
    Contract("SimpleDB.list", MOD + "SimpleDB.list", setup_list, post_list, hooks=[hook]),
    Contract("FileDB.add", MOD + "FileDB.add", setup_fadd, post_fadd, contracts=FILES),
    Contract("FileDB.find", MOD + "FileDB.find", setup_ffind, post_ffind, hooks=[hook], contracts=FILES),
    Contract("FileDB.list", MOD + "FileDB.list", setup_flist, post_flist, hooks=[hook], contracts=FILES),
    Contract("FileDB.__init__", MOD + "FileDB.__init__", setup_init, post_init, contracts=FILES),
    Contract("FileDB.load", MOD + "FileDB.load", setup_load, post_load, hooks=[hook_load], contracts=FILES),
    Contract("FileDB.dump", MOD + "FileDB.dump", setup_dump, post_dump, hooks=[hook_dump], contracts=FILES),
    Contract("SimpleDB.load", MOD + "SimpleDB.load", setup_sload, post_sload(False), contracts=FILES),
    Contract("SimpleDB.loads", MOD + "SimpleDB.loads", setup_sloads, post_sload(True), contracts=FILES),
    Contract("SimpleDB.dump", MOD + "SimpleDB.dump", setup_sdump, post_sdump(False), contracts=FILES),
    Contract("SimpleDB.dumps", MOD + "SimpleDB.dumps", setup_sdump, post_sdump(True), contracts=FILES),
]
