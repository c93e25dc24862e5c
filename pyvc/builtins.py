"""Meaning of Python's builtin types and functions for the verifier."""
import builtins as _bi
import collections
import types

import re

import z3

from .values import *
from .engine import *
from .engine import _Break, _Continue, _Return, NoMerge


class Super:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

    def getattr(self, ip, name):
        c = ip.heap[self.obj.id]
        mro = list(c.cls.__mro__)
        for k in mro[mro.index(self.cls) + 1:]:
            if name in k.__dict__:
                if k is object and name == "__init__":
                    return Ext("object.__init__", lambda ip, a, kw: None)
                return ip.bind((k, k.__dict__[name]), self.obj)
        raise PyRaise(ExcVal(AttributeError))


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def template(ip, tmpl, parts):
    """string built from parts: an uninterpreted function of the template and the parts"""
    if not parts:
        return tmpl.replace("{{", "{")
    ip.assumptions.add("formatting and other string functions are uninterpreted functions of their arguments")
    f = uf("fmt" + str(len(parts)), *([V] * (len(parts) + 1)), V)
    ts = []
    for p in parts:
        try:
            ts.append(ip.to_v(p))
        except Unsupported:
            return SV(ip.fresh("str", V), StrS())
    t = f(V.s(intern("fmt:" + tmpl)), *ts)
    ip.fact(V.is_s(t))
    return SV(t, StrS())


def concat(ip, pieces):
    """a string put together from pieces (literal or not), in one canonical form however it was put together"""
    tmpl, parts = "", []

    def lit(x):
        return x.replace("{", "{{")

    def add(v):
        nonlocal tmpl
        if isinstance(v, str):
            tmpl += lit(v)
            return
        t = v.t if isinstance(v, SV) else None
        if t is not None and z3.is_app(t):
            if t.decl().name() == "s" and z3.is_int_value(t.arg(0)):
                u = unintern(t.arg(0).as_long())
                if u is not None:
                    tmpl += lit(u)
                    return
            if re.fullmatch(r"fmt\d+", t.decl().name()) and t.num_args() > 1 and z3.is_int_value(t.arg(0).arg(0)):
                u = unintern(t.arg(0).arg(0).as_long()) or ""
                if u.startswith("fmt:cat:"):
                    u, n = u[8:], 1
                    for q in re.split(r"(\{\{|\{\})", u):
                        if q == "{}":
                            add(SV(t.arg(n), StrS()))
                            n += 1
                        elif q == "{{":
                            tmpl += "{{"
                        else:
                            tmpl += q
                    return
        tmpl += "{}"
        parts.append(v)
    for p in pieces:
        add(p)
    if not parts:
        return tmpl.replace("{{", "{")
    if tmpl == "{}" and isinstance(parts[0], SV) and isinstance(parts[0].shape, StrS):
        return parts[0]
    return template(ip, "cat:" + tmpl, parts)


def binop(ip, op, a, b):
    import operator
    ops = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
           ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv, ast.BitOr: operator.or_, ast.BitAnd: operator.and_}
    nat = (bool, int, float, str, tuple)
    if isinstance(a, nat) and isinstance(b, nat) and not (isinstance(a, str) and isinstance(op, ast.Mod)) and \
            type(op) in ops and not isinstance(a, tuple):
        try:
            return ops[type(op)](a, b)
        except TypeError:
            raise PyRaise(ExcVal(TypeError))
    if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
        return a + b
    if isinstance(a, Ref) and isinstance(ip.heap[a.id], SSet) or isinstance(a, View) and a.what == "keys":
        ca = ip.mem_of(a)
        ua = ip.universe_of(a)
        cb = ip.mem_of(b)
        ub = ip.universe_of(b)
        if isinstance(op, ast.BitAnd):
            return ip.alloc(SSet(lambda x: z3.And(ca(x), cb(x)), ua if ua is not None else ub))
        if isinstance(op, ast.BitOr):
            u = None if ua is None or ub is None else list(ua) + [x for x in ub if x not in ua]
            return ip.alloc(SSet(lambda x: z3.Or(ca(x), cb(x)), u))
        if isinstance(op, ast.Sub):
            return ip.alloc(SSet(lambda x: z3.And(ca(x), z3.Not(cb(x))), ua))
    if isinstance(op, ast.Add) and (isinstance(a, Ref) or isinstance(b, Ref)):
        r = ip.to_list(a)
        list_method(ip, r, "extend", [b], {})
        return r
    if isinstance(op, ast.Mod) and (isinstance(a, str) or (isinstance(a, SV) and isinstance(a.shape, StrS))):
        ps = list(b) if isinstance(b, tuple) else [b]
        if isinstance(a, str) and a.count("%") == a.count("%s") == len(ps):
            lits = a.split("%s")
            return concat(ip, [y for k, v in enumerate(ps) for y in (lits[k], v)] + [lits[-1]])
        return template(ip, "%" + str(a), ps)
    if isinstance(op, ast.Add):
        if isinstance(a, str) or isinstance(b, str) or (isinstance(a, SV) and isinstance(a.shape, StrS)) or \
                (isinstance(b, SV) and isinstance(b.shape, StrS)):
            for x in (a, b):
                if isinstance(x, SV) and not isinstance(x.shape, StrS):
                    if not ip.branch(V.is_s(x.t)):
                        raise PyRaise(ExcVal(TypeError))
                elif not isinstance(x, (str, SV)):
                    raise PyRaise(ExcVal(TypeError))
            return concat(ip, [a, b])
        if isinstance(a, SV) and not isinstance(b, (int, SI)):
            k = ip.kind_of(a)
            if k == K_LIST:
                r = ip.to_list(a)
                list_method(ip, r, "extend", [b], {})
                return r
            if k == "str":
                return binop(ip, op, SV(a.t, StrS()), b)
            if k != "int":
                raise PyRaise(ExcVal(TypeError))
    for x in (a, b):
        if x is None or isinstance(x, (str, tuple, Ref)):
            raise PyRaise(ExcVal(TypeError))
    x, y = ip.zi(a), ip.zi(b)
    ip.assumptions.add("integers are mathematical integers")
    if isinstance(op, ast.Add):
        return SI(z3.simplify(x + y))
    if isinstance(op, ast.Sub):
        return SI(z3.simplify(x - y))
    if isinstance(op, ast.Mult):
        return SI(z3.simplify(x * y))
    raise Unsupported("arithmetic")


# ---------------------------------------------------------------- items
def mutable(ip, ref):
    c = ip.heap[ref.id]
    if c.frozen:
        raise Unsupported("mutation of a value that is shared")
    return c


def norm_index(ip, n, k):
    """index k of a sequence of length n (z3) -> z3 index, IndexError when out of range"""
    k = ip.zi(k)
    k = z3.simplify(k)
    if z3.is_int_value(k):
        i = k.as_long()
        if i >= 0:
            if not ip.branch(n > i):
                raise PyRaise(ExcVal(IndexError))
            return z3.IntVal(i)
        if not ip.branch(n >= -i):
            raise PyRaise(ExcVal(IndexError))
        return z3.simplify(n + i)
    if not ip.branch(z3.And(k < n, k >= -n)):
        raise PyRaise(ExcVal(IndexError))
    return z3.simplify(z3.If(k >= 0, k, n + k))


def dict_get(ip, present, val):
    if present is True:
        return val
    if present is False:
        raise PyRaise(ExcVal(KeyError))
    if ip.branch(present):
        return val
    raise PyRaise(ExcVal(KeyError))


def getitem(ip, v, k):
    if isinstance(v, Ref):
        c = ip.heap[v.id]
        if isinstance(c, DDict):
            p, val = ip.dlookup_content(c, k)
            if p is False and getattr(c, "default_factory", None):
                nv = c.default_factory(ip)
                setitem(ip, v, k, nv)
                return nv
            r = dict_get(ip, p, val)
            return own(ip, v, c, k, r)
        if isinstance(c, LList):
            if c.base is None and isinstance(k, int) and not isinstance(k, bool):
                if -len(c.suffix) <= k < len(c.suffix):
                    return c.suffix[k]
                raise PyRaise(ExcVal(IndexError))
            if isinstance(k, int) and k < 0 and len(c.suffix) >= -k:
                return c.suffix[k]
            s = ip.as_seq_content(c)
            return s.at(norm_index(ip, s.n, k))
        if isinstance(c, HObj):
            m = ip.lookup_class(c.cls, "__getitem__")
            if m is None:
                raise PyRaise(ExcVal(TypeError))
            return ip.call(ip.bind(m, v), [k], {})
        raise PyRaise(ExcVal(TypeError))
    if isinstance(v, (tuple, str)):
        if isinstance(k, int):
            if -len(v) <= k < len(v):
                return v[k]
            raise PyRaise(ExcVal(IndexError))
        raise Unsupported("symbolic index")
    if isinstance(v, SV):
        kd = ip.kind_of(v)
        sh = ip.refined(v, kd)
        if kd == K_DICT:
            kt = ip.to_v(k)
            if not ip.branch(has(v.t, kt)):
                raise PyRaise(ExcVal(KeyError))
            return ip.sv(get(v.t, kt), sh.of(k) if is_atom(k) else sh.default)
        if kd in (K_LIST, K_TUPLE):
            if isinstance(k, (str,)) or k is None:
                raise PyRaise(ExcVal(TypeError))
            i = norm_index(ip, length(v.t), k)
            return ip.sv_elem(v.t, i, getattr(sh, "elem", None))
        if kd == "str":
            if isinstance(k, str):
                raise PyRaise(ExcVal(TypeError))
            return SV(uf("charat", V, V, V)(v.t, ip.to_v(k)), StrS())
        if kd == K_OBJ and getattr(sh, "getitem", None):
            return sh.getitem(ip, v, k)
        raise PyRaise(ExcVal(TypeError))
    if v is None or isinstance(v, (int, bool, SI, SB)):
        raise PyRaise(ExcVal(TypeError))
    if isinstance(v, Real) and isinstance(v.obj, (dict, list)):
        return getitem(ip, ip.lift_data(v.obj), k)
    raise Unsupported(f"subscript of {v!r}")


def own(ip, v, c, k, val):
    """an item of a container that owns its nested containers: make it a heap object so that it can be changed in place"""
    if not getattr(c.shape, "owned", False) or not isinstance(val, SV) or c.frozen:
        return val
    sh = val.shape
    if isinstance(sh, DictS):
        r = ip.alloc(DDict(val.t, (), sh))
    elif isinstance(sh, ListS):
        t = val.t
        r = ip.alloc(LList(Seq(length(t), lambda i: ip.sv_elem(t, i, sh.elem), lambda x: mem(t, x))))
    else:
        return val
    setitem(ip, v, k, r)
    return r


def input_rooted(ip, t):
    while z3.is_app(t) and t.num_args() and t.decl().name() in ("get", "at", "attr", "keyat", "if"):
        t = t.arg(1) if t.decl().name() == "if" else t.arg(0)
    return z3.is_const(t) and t.decl().name() in ip.input_names


def frame_violation(ip, what, v=None):
    """the program changes something the contract does not let it change"""
    if ip.strict_frame and (v is None or input_rooted(ip, v.t)):
        ip.frame_violations.append((what, list(e for _, e in ip.pc)))
    raise Unsupported(f"frame: changes {what}")


def setitem(ip, v, k, x):
    if isinstance(v, Ref):
        c = ip.heap[v.id]
        if isinstance(c, DDict):
            mutable(ip, v)
            w = list(c.writes)
            for n, (k2, _, _) in enumerate(w):
                if ip.same_key(k, k2) and all(is_atom(kk) and is_atom(k) for kk, _, _ in w[n + 1:]):
                    # keep the insertion position
                    w[n] = (k, x, True)
                    break
            else:
                w.append((k, x, True))
            d = DDict(c.base, w, c.shape)
            if getattr(c, "default_factory", None):
                d.default_factory = c.default_factory
            ip.heap[v.id] = d
            return
        if isinstance(c, LList):
            mutable(ip, v)
            if c.base is None and isinstance(k, int):
                if not -len(c.suffix) <= k < len(c.suffix):
                    raise PyRaise(ExcVal(IndexError))
                s = list(c.suffix)
                s[k] = x
                ip.heap[v.id] = LList(None, s)
                return
            raise Unsupported("list item assignment")
        if isinstance(c, HObj):
            m = ip.lookup_class(c.cls, "__setitem__")
            if m is not None:
                return ip.call(ip.bind(m, v), [k, x], {})
        raise PyRaise(ExcVal(TypeError))
    if isinstance(v, SV):
        kd = ip.kind_of(v)
        if kd in (K_DICT, K_LIST):
            frame_violation(ip, "an input value", v)
        if kd == K_OBJ:
            raise Unsupported("item assignment on a symbolic object")
    raise PyRaise(ExcVal(TypeError))


def delitem(ip, v, k):
    if isinstance(v, Ref):
        c = ip.heap[v.id]
        if isinstance(c, DDict):
            mutable(ip, v)
            p, val = ip.dlookup_content(c, k)
            dict_get(ip, p, val)
            w = [x for x in c.writes if not (is_atom(x[0]) and is_atom(k) and x[0] == k)]
            if c.base is None and all(is_atom(x[0]) for x in c.writes) and is_atom(k):
                ip.heap[v.id] = DDict(None, w, c.shape)
            else:
                ip.heap[v.id] = DDict(c.base, list(c.writes) + [(k, None, False)], c.shape)
            return
        if isinstance(c, LList) and c.base is None and isinstance(k, int):
            mutable(ip, v)
            s = list(c.suffix)
            if not -len(s) <= k < len(s):
                raise PyRaise(ExcVal(IndexError))
            del s[k]
            ip.heap[v.id] = LList(None, s)
            return
        if isinstance(c, HObj):
            m = ip.lookup_class(c.cls, "__delitem__")
            if m is not None:
                return ip.call(ip.bind(m, v), [k], {})
    if isinstance(v, SV):
        frame_violation(ip, "an input value", v)
    raise Unsupported("del item")


def slice_(ip, v, lo, hi, st):
    if isinstance(v, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return v[lo:hi:st]
    if isinstance(v, SV):
        k = ip.kind_of(v)
        if k == "str":
            f = uf("slice", V, V, V, V, V)
            t = f(v.t, ip.to_v(lo), ip.to_v(hi), ip.to_v(st))
            return ip.sv(t, StrS())
        if k not in (K_LIST, K_TUPLE):
            raise PyRaise(ExcVal(TypeError))
    if isinstance(v, Ref):
        c = ip.heap[v.id]
        if not isinstance(c, LList):
            raise PyRaise(ExcVal(TypeError))
        if c.base is None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return ip.alloc(LList(None, c.suffix[lo:hi:st]))
        if (lo, hi, st) == (None, None, None):
            return ip.alloc(LList(c.base, c.suffix))
        s = ip.as_seq_content(c)
    elif isinstance(v, SV):
        s = ip.seq_of(v)
        if (lo, hi, st) == (None, None, None) and k == K_LIST:
            return ip.alloc(LList(s))
    else:
        raise Unsupported("slice")
    if st == -1 and lo is None and hi is None:
        return ip.alloc(LList(Seq(s.n, lambda i: s.at(s.n - 1 - i), s.memf)))
    if st not in (None, 1):
        raise Unsupported("slice step")

    def bound(x, d):
        if x is None:
            return d
        x = ip.zi(x)
        x = z3.If(x < 0, x + s.n, x)
        return z3.If(x < 0, 0, z3.If(x > s.n, s.n, x))
    l, h = bound(lo, z3.IntVal(0)), bound(hi, s.n)
    n = z3.simplify(z3.If(h > l, h - l, 0))
    l = z3.simplify(l)
    return ip.alloc(LList(Seq(n, lambda i: s.at(z3.simplify(l + i)))))


# ---------------------------------------------------------------- methods of builtin values
def method(ip, o, name, args, kw):
    if "**" in kw and name != "update" and (isinstance(o, (str, SV)) or isinstance(o, Ref) and isinstance(ip.heap[o.id], (LList, DDict, SSet))):
        raise Unsupported("** of an unknown dictionary")
    if isinstance(o, str):
        return str_method(ip, o, name, args, kw)
    if isinstance(o, Ref):
        c = ip.heap[o.id]
        if isinstance(c, LList):
            return list_method(ip, o, name, args, kw)
        if isinstance(c, DDict):
            return dict_method(ip, o, name, args, kw)
        if isinstance(c, SSet):
            return set_method(ip, o, name, args, kw)
        if isinstance(c, HObj):
            return ip.call(ip.getattr(o, name), args, kw)
    if isinstance(o, SV):
        k = ip.kind_of(o)
        if k == "str":
            return str_method(ip, o, name, args, kw)
        if k == K_DICT:
            return dict_method(ip, o, name, args, kw)
        if k in (K_LIST,):
            return list_method(ip, o, name, args, kw)
        if k in (K_SET,):
            return set_method(ip, o, name, args, kw)
        raise PyRaise(ExcVal(AttributeError))
    if isinstance(o, View):
        return method(ip, ip.view_ref(o), name, args, kw)
    if isinstance(o, tuple):
        if name == "index" or name == "count":
            return list_method(ip, ip.listref(list(o)), name, args, kw)
    raise Unsupported(f"method {name} of {o!r}")


STR_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "islower", "isupper"}
STR_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "format", "join", "title", "rjust", "zfill", "encode",
           "decode"}


def str_method(ip, o, name, args, kw):
    if not hasattr("", name):
        raise PyRaise(ExcVal(AttributeError))
    if isinstance(o, str) and all(isinstance(a, (str, int)) or (isinstance(a, tuple) and all(isinstance(x, str) for x in a))
                                  for a in args) and not kw:
        r = getattr(o, name)(*args)
        if isinstance(r, list):
            return ip.listref(r)
        return r
    if name == "join" and isinstance(args[0], Ref):
        c = ip.heap[args[0].id]
        if isinstance(c, LList) and c.base is None and all(isinstance(x, str) for x in c.suffix) and isinstance(o, str):
            return o.join(c.suffix)
    if name == "format":
        if isinstance(o, str) and not kw and o.count("{") == o.count("{}") == o.count("}") == len(args):
            lits = o.split("{}")
            return concat(ip, [y for k, v in enumerate(args) for y in (lits[k], v)] + [lits[-1]])
        return template(ip, "format:" + str(o), list(args) + [v for k, v in sorted(kw.items())])
    for a in args:
        if a is None and name in ("startswith", "endswith", "join"):
            raise PyRaise(ExcVal(TypeError))
    ip.assumptions.add("formatting and other string functions are uninterpreted functions of their arguments")
    ts = [ip.to_v(o)] + [ip.to_v(a) for a in args]
    if name in STR_BOOL:
        return SB(uf("str_" + name, *([V] * len(ts)), B)(*ts))
    if name in STR_STR:
        return ip.sv(uf("str_" + name, *([V] * len(ts)), V)(*ts), StrS())
    if name in ("split", "rsplit", "splitlines"):
        t = uf("str_" + name + str(len(ts)), *([V] * len(ts)), V)(*ts)
        ip.fact(z3.And(V.is_ref(t), kind(t) == K_LIST, length(t) >= 1))
        i = z3.Int("i")
        ip.fact(z3.ForAll([i], V.is_s(at(t, i)), patterns=[at(t, i)]))
        return ip.alloc(LList(Seq(length(t), lambda i: SV(at(t, i), StrS()), lambda x: mem(t, x))))
    if name in ("find", "count", "index"):
        return SI(uf("str_" + name, *([V] * len(ts)), I)(*ts))
    raise Unsupported(f"str.{name}")


def list_method(ip, o, name, args, kw):
    if isinstance(o, SV):
        if name in ("append", "extend", "insert", "remove", "pop", "reverse", "sort", "clear"):
            frame_violation(ip, "an input list", o)
        if name == "copy":
            return o
        if name == "index":
            it = ip.to_v(args[0])
            if not ip.branch(mem(o.t, it)):
                raise PyRaise(ExcVal(ValueError))
            return SI(idx(o.t, it))
        raise PyRaise(ExcVal(AttributeError)) if not hasattr([], name) else Unsupported(f"list.{name}")
    c = ip.heap[o.id]
    if name == "copy":
        return ip.alloc(LList(c.base, c.suffix))
    if name == "index":
        if c.base is None:
            for n, x in enumerate(c.suffix):
                if ip.branch(ip.eq(args[0], x)):
                    return n
            raise PyRaise(ExcVal(ValueError))
        t = ip.to_v(o)
        return list_method(ip, SV(t, ListS()), name, args, kw)
    if name == "count":
        raise Unsupported("list.count")
    if not hasattr([], name):
        raise PyRaise(ExcVal(AttributeError))
    mutable(ip, o)
    if name == "append":
        ip.heap[o.id] = LList(c.base, c.suffix + (args[0],))
        return None
    if name == "extend":
        x = args[0]
        if isinstance(x, Ref) and isinstance(ip.heap[x.id], LList) and ip.heap[x.id].base is None:
            ip.heap[o.id] = LList(c.base, c.suffix + ip.heap[x.id].suffix)
            return None
        it = ip.iterate(x)
        if it[0] == "conc":
            ip.heap[o.id] = LList(c.base, c.suffix + tuple(it[1]))
            return None
        if c.base is None and not c.suffix:
            l = ip.to_list(x)
            ip.heap[o.id] = ip.heap[l.id]
            return None
        if it[0] == "seq":
            s1, s2 = ip.as_seq_content(c), it[1]
            t1, t2 = s1, s2

            def at_(i):
                return SV(z3.If(i < t1.n, ip.to_v(t1.at(i)), ip.to_v(t2.at(i - t1.n))))
            m1 = ip.content_mem(c)
            m2 = s2.memf
            mf = None if m2 is None else (lambda y: z3.Or(m1(y), m2(y)))
            if isinstance(c.base, Bag) or s2.memf is not None and isinstance(x, Ref) and \
                    isinstance(getattr(ip.heap[x.id], "base", None), Bag):
                ip.heap[o.id] = LList(Bag(mf))
            else:
                ip.heap[o.id] = LList(Seq(z3.simplify(t1.n + t2.n), at_, mf))
            return None
        el = [(ip.to_v(e), g) for e, g in it[1]]
        m1 = ip.content_mem(c)
        ip.heap[o.id] = LList(Bag(lambda y: z3.Or(m1(y), disj([z3.And(g, y == e) for e, g in el]))))
        return None
    if name == "insert":
        if c.base is None and isinstance(args[0], int):
            s = list(c.suffix)
            s.insert(args[0], args[1])
            ip.heap[o.id] = LList(None, s)
            return None
        if args[0] == 0:
            s = ip.as_seq_content(c)
            x = ip.to_v(args[1])
            ip.heap[o.id] = LList(Seq(z3.simplify(s.n + 1), lambda i: SV(z3.If(i == 0, x, ip.to_v(s.at(i - 1))))))
            return None
    if name == "pop":
        if c.base is None:
            k = args[0] if args else -1
            s = list(c.suffix)
            if not isinstance(k, int):
                raise Unsupported("pop")
            if not -len(s) <= k < len(s):
                raise PyRaise(ExcVal(IndexError))
            v = s.pop(k)
            ip.heap[o.id] = LList(None, s)
            return v
        if c.suffix and (not args or args[0] == -1):
            ip.heap[o.id] = LList(c.base, c.suffix[:-1])
            return c.suffix[-1]
        s = ip.as_seq_content(c)
        if not ip.branch(s.n > 0):
            raise PyRaise(ExcVal(IndexError))
        if not args or args[0] == -1:
            ip.heap[o.id] = LList(Seq(z3.simplify(s.n - 1), s.at))
            return s.at(z3.simplify(s.n - 1))
        if args[0] == 0:
            ip.heap[o.id] = LList(Seq(z3.simplify(s.n - 1), lambda i: s.at(z3.simplify(i + 1))))
            return s.at(z3.IntVal(0))
    if name == "remove":
        if c.base is None:
            for n, x in enumerate(c.suffix):
                if ip.branch(ip.eq(args[0], x)):
                    s = list(c.suffix)
                    del s[n]
                    ip.heap[o.id] = LList(None, s)
                    return None
            raise PyRaise(ExcVal(ValueError))
    if name == "reverse":
        if c.base is None:
            ip.heap[o.id] = LList(None, c.suffix[::-1])
            return None
        s = ip.as_seq_content(c)
        ip.heap[o.id] = LList(Seq(s.n, lambda i: s.at(z3.simplify(s.n - 1 - i)), s.memf))
        return None
    if name == "clear":
        ip.heap[o.id] = LList(None, ())
        return None
    if name == "sort":
        r = sorted_(ip, o, kw)
        ip.heap[o.id] = ip.heap[r.id]
        return None
    raise Unsupported(f"list.{name}")


def dict_content(ip, o):
    if isinstance(o, Ref):
        return ip.heap[o.id]
    return DDict(o.t, (), ip.refined(o, K_DICT))


def dict_method(ip, o, name, args, kw):
    c = dict_content(ip, o)
    if name in ("keys", "values", "items"):
        return View(name, o)
    if name == "get":
        p, val = ip.dlookup_content(c, args[0])
        d = args[1] if len(args) > 1 else kw.get("default")
        if p is True:
            return own(ip, o, c, args[0], val) if isinstance(o, Ref) else val
        if p is False:
            return d
        if isinstance(o, Ref):
            return ip.region(lambda: own(ip, o, c, args[0], val) if ip.branch(p) else d)
        return ip.region(lambda: val if ip.branch(p) else d)
    if name == "copy":
        d = ip.alloc(DDict(c.base, c.writes, c.shape))
        return d
    if name == "__contains__":
        return ip.contains(args[0], o)
    if name == "__getitem__":
        return getitem(ip, o, args[0])
    if not hasattr({}, name):
        raise PyRaise(ExcVal(AttributeError))
    if isinstance(o, SV):
        frame_violation(ip, "an input dictionary", o)
    mutable(ip, o)
    if name == "update":
        for src in args:
            if src is None:
                raise PyRaise(ExcVal(TypeError))
            if isinstance(src, View):
                src = ip.view_ref(src)
            if isinstance(src, (Ref, SV)) and not (isinstance(src, Ref) and isinstance(ip.heap[src.id], (HObj, LList))):
                if isinstance(src, SV) and ip.kind_of(src) != K_DICT:
                    raise Unsupported("update from a non dictionary")
                sc = dict_content(ip, src)
                c = ip.heap[o.id]
                if sc.base is None:
                    for k, v, p in sc.writes:
                        if p is True:
                            setitem(ip, o, k, v)
                        elif p is not False:
                            def put(k=k, v=v, p=p):
                                if ip.branch(p):
                                    setitem(ip, o, k, v)
                            ip.region(put)
                elif c.base is None and not c.writes:
                    ip.heap[o.id] = DDict(sc.base, sc.writes, sc.shape)
                else:
                    h1, g1 = ip.dict_fns(c)
                    h2, g2 = ip.dict_fns(sc)
                    ip.heap[o.id] = DDict((lambda x: z3.Or(h1(x), h2(x)), lambda x: z3.If(h2(x), g2(x), g1(x))), (), None)
            else:
                it = ip.iterate(src)
                if it[0] != "conc":
                    raise Unsupported("update")
                for kv in it[1]:
                    k, v = ip.unpack(kv, 2)
                    setitem(ip, o, k, v)
        for k, v in kw.items():
            if k != "**":
                setitem(ip, o, k, v)
        if "**" in kw:
            dict_method(ip, o, "update", [kw["**"]], {})
        return None
    if name == "setdefault":
        p, val = ip.dlookup_content(c, args[0])
        d = args[1] if len(args) > 1 else None
        if p is True:
            return val

        def put():
            if p is not False and ip.branch(p):
                return own(ip, o, c, args[0], val)
            setitem(ip, o, args[0], d)
            return d
        return ip.region(put)
    if name == "pop":
        p, val = ip.dlookup_content(c, args[0])
        if len(args) > 1:
            def f():
                if p is True or (p is not False and ip.branch(p)):
                    delitem(ip, o, args[0])
                    return val
                return args[1]
            return ip.region(f)
        v = getitem(ip, o, args[0])
        delitem(ip, o, args[0])
        return v
    if name == "clear":
        ip.heap[o.id] = DDict(None, ())
        return None
    raise Unsupported(f"dict.{name}")


def set_method(ip, o, name, args, kw):
    if isinstance(o, SV):
        if name in ("add", "remove", "discard", "update", "pop", "clear", "intersection_update", "difference_update"):
            frame_violation(ip, "an input set", o)
        o = ip.to_set(o)
    c = ip.heap[o.id]
    if name in ("intersection", "union", "difference", "symmetric_difference"):
        r = o
        for a in args:
            s = a if isinstance(a, Ref) and isinstance(ip.heap[a.id], SSet) else ip.to_set(a)
            r = binop(ip, {"intersection": ast.BitAnd(), "union": ast.BitOr(), "difference": ast.Sub()}[name], r, s)
        return ip.alloc(ip.heap[r.id]) if r == o else r
    if name in ("issubset", "issuperset", "isdisjoint"):
        s = ip.to_set(args[0])
        if name == "isdisjoint":
            both = set_method(ip, o, "intersection", [args[0]], {})
            return ip.not_(ip.truth(both)) if hasattr(ip, "not_") else SB(z3.Not(ip.zb(ip.truth(both))))
        return ip.subset(o, s) if name == "issubset" else ip.subset(s, o)
    if name == "copy":
        return ip.alloc(SSet(c.memf, c.universe, shape=c.shape))
    if not hasattr(set(), name):
        raise PyRaise(ExcVal(AttributeError))
    mutable(ip, o)
    m = c.memf
    if name == "add":
        t = ip.to_v(args[0])
        u = c.universe
        if u is not None:
            u = u + [args[0]] if is_atom(args[0]) and args[0] not in u else (u if is_atom(args[0]) else None)
        ip.heap[o.id] = SSet(lambda x: z3.Or(m(x), x == t), u)
        return None
    if name in ("discard", "remove"):
        t = ip.to_v(args[0])
        if name == "remove" and not ip.branch(m(t)):
            raise PyRaise(ExcVal(KeyError))
        ip.heap[o.id] = SSet(lambda x: z3.And(m(x), x != t), c.universe)
        return None
    if name in ("update", "intersection_update", "difference_update"):
        r = set_method(ip, o, {"update": "union", "intersection_update": "intersection", "difference_update": "difference"}[name], args, {})
        ip.heap[o.id] = ip.heap[r.id]
        return None
    if name == "pop":
        if not ip.branch(z3.Exists([z3.Const("x", V)], m(z3.Const("x", V)))):
            raise PyRaise(ExcVal(KeyError))
        v = ip.fresh_v("popped", c.shape)
        ip.fact(m(v.t))
        ip.heap[o.id] = SSet(lambda x: z3.And(m(x), x != v.t), None, shape=c.shape)
        return v
    if name == "clear":
        ip.heap[o.id] = SSet(lambda x: z3.BoolVal(False), [])
        return None
    raise Unsupported(f"set.{name}")


# ---------------------------------------------------------------- builtin functions and classes
def call_real(ip, f, args, kw):
    key = ip.objname(f)
    if key in ip.contracts:
        ip.functions_seen.add(f"{key} (assumed contract)")
        return ip.contracts[key](ip, args, kw)
    h = BUILTINS.get(f) if isinstance(f, (type, types.BuiltinFunctionType, types.FunctionType)) else None
    if h is not None:
        return h(ip, args, kw)
    if isinstance(f, type) and issubclass(f, BaseException):
        return ExcVal(f, args)
    if isinstance(f, type):
        return ip.instantiate(f, args, kw)
    raise Unsupported(f"call of external {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)}")


def b_len(ip, a, kw):
    v = a[0]
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Ref):
        c = ip.heap[v.id]
        if isinstance(c, LList):
            if c.base is None:
                return len(c.suffix)
            if isinstance(c.base, Seq):
                return SI(z3.simplify(c.base.n + len(c.suffix)))
        if isinstance(c, DDict) and c.base is None and all(p is True for _, _, p in c.writes) and \
                all(is_atom(k) for k, _, _ in c.writes):
            return len({k for k, _, _ in c.writes})
        if isinstance(c, SSet) and c.universe is not None:
            r = z3.IntVal(0)
            for u in c.universe:
                r = r + z3.If(c.memf(ip.to_v(u)), 1, 0)
            return SI(z3.simplify(r))
        if isinstance(c, HObj):
            m = ip.lookup_class(c.cls, "__len__")
            if m is None:
                raise PyRaise(ExcVal(TypeError))
            return ip.call(ip.bind(m, v), [], {})
        t = ip.to_v(v)
        if not c.frozen:                    # the term is only used for its length: nothing else refers to it
            import copy
            c2 = copy.copy(ip.heap[v.id])
            c2.frozen = False
            ip.heap[v.id] = c2
        return SI(length(t))
    if isinstance(v, SV):
        k = ip.kind_of(v)
        if k in (K_DICT, K_LIST, K_SET, K_TUPLE):
            ip.fact(length(v.t) >= 0)
            return SI(length(v.t))
        if k == "str":
            f = uf("strlen", V, I)
            ip.fact(z3.And(f(v.t) >= 0, (f(v.t) == 0) == (V.sv(v.t) == 0)))
            return SI(f(v.t))
        raise PyRaise(ExcVal(TypeError))
    if isinstance(v, View):
        return b_len(ip, [ip.view_ref(v)], {})
    raise PyRaise(ExcVal(TypeError))


PYKIND = {dict: K_DICT, list: K_LIST, set: K_SET, tuple: K_TUPLE, str: "str", int: "int", bool: "bool"}


def b_isinstance(ip, a, kw):
    v, c = a
    cs = [x.obj for x in (c if isinstance(c, tuple) else (c,))]
    if isinstance(v, SV):
        k = ip.kind_of(v)
        for x in cs:
            if x is object or PYKIND.get(x) == k or (x is int and k == "bool"):
                return True
            if k != K_OBJ and x not in PYKIND and not ip.is_message_class(x):
                # an abstract class such as Mapping or Iterable: ask Python about the plain type of this kind
                if any(kk == k and issubclass(t, x) for t, kk in PYKIND.items()):
                    return True
            if k == K_OBJ:
                cl = getattr(ip.refined(v, k), "cls", None)
                if cl is None:
                    raise Unsupported("isinstance of an unknown object")
                if issubclass(cl, x):
                    return True
            elif k == K_DICT and ip.is_message_class(x):
                raise Unsupported("isinstance Message")
        return False

    def pytype(v):
        if isinstance(v, Ref):
            cc = ip.heap[v.id]
            return list if isinstance(cc, LList) else dict if isinstance(cc, DDict) else set if isinstance(cc, SSet) else cc.cls
        if isinstance(v, SI):
            return int
        if isinstance(v, SB):
            return bool
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, Real):
            return type(v.obj)
        if isinstance(v, (Fn, Ext, Bound)):
            return types.FunctionType
        if isinstance(v, View):
            return object
        return type(v)
    t = pytype(v)
    return any(issubclass(t, x) for x in cs)


def b_list(ip, a, kw):
    return ip.to_list(a[0]) if a else ip.listref([])


def b_set(ip, a, kw):
    return ip.to_set(a[0]) if a else ip.to_set(())


def b_tuple(ip, a, kw):
    if not a:
        return ()
    it = ip.iterate(a[0])
    if it[0] != "conc":
        raise Unsupported("tuple()")
    return tuple(it[1])


def b_dict(ip, a, kw):
    d = ip.alloc(DDict(None, ()))
    dict_method(ip, d, "update", [x for x in a], {k: v for k, v in kw.items() if k != "**"})
    if "**" in kw:
        dict_method(ip, d, "update", [kw["**"]], {})
    return d


def b_getattr(ip, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a symbolic name")
    if len(a) == 2:
        return ip.getattr(a[0], a[1])

    def f():
        try:
            return ip.getattr(a[0], a[1])
        except PyRaise as r:
            if issubclass(r.exc.cls, AttributeError):
                return a[2]
            raise
    return ip.region(f)


def b_hasattr(ip, a, kw):
    def f():
        try:
            ip.getattr(a[0], a[1])
            return True
        except PyRaise as r:
            if issubclass(r.exc.cls, AttributeError):
                return False
            raise
    return ip.region(f)


def b_minmax(ismin):
    def f(ip, a, kw):
        if kw:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            it = ip.iterate(a[0])
            if it[0] == "conc":
                items = it[1]
                if not items:
                    raise PyRaise(ExcVal(ValueError))
            elif it[0] == "seq":
                s = it[1]
                if not ip.branch(s.n > 0):
                    raise PyRaise(ExcVal(ValueError))
                m = ip.fresh("minmax", I)
                w = ip.fresh("arg", I)
                i = z3.Int(ip.fresh_name("i"))
                ti = ip.to_v_at(s, i)
                if not ip.branch(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), V.is_i(ti)))):
                    raise PyRaise(ExcVal(TypeError))
                ip.fact(z3.And(0 <= w, w < s.n, ip.to_v(s.at(w)) == V.i(m)))
                ip.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), V.iv(ti) >= m if ismin else V.iv(ti) <= m)))
                return SI(m)
            else:
                raise Unsupported("min/max")
        else:
            items = a
        if all(isinstance(x, (int, str)) for x in items):
            return (min if ismin else max)(items)
        r = ip.zi(items[0])
        for x in items[1:]:
            x = ip.zi(x)
            r = z3.If(x < r if ismin else x > r, x, r)
        return SI(z3.simplify(r))
    return f


def sorted_(ip, v, kw):
    it = ip.iterate(v)
    if it[0] == "conc" and all(isinstance(x, str) for x in it[1]) and not kw:
        return ip.listref(sorted(it[1]))
    # some permutation: membership is all that is known
    l = ip.to_list(v)
    c = ip.heap[l.id]
    return ip.alloc(LList(Bag(ip.content_mem(c), None)))


def b_range(ip, a, kw):
    if len(a) == 1:
        return View("range", 0, a[0])
    if len(a) == 2:
        return View("range", a[0], a[1])
    raise Unsupported("range step")


def b_str(ip, a, kw):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, str) or isinstance(v, int):
        return str(v)
    if isinstance(v, SV):
        if ip.implied(V.is_s(v.t)):
            return v
    return template(ip, "str({})", [v]) if not isinstance(v, ExcVal) else SV(ip.fresh("str", V), StrS())


def b_int(ip, a, kw):
    if isinstance(a[0], (int, str, float)):
        return int(a[0])
    if isinstance(a[0], SI):
        return a[0]
    return SI(ip.zi(a[0]))


def b_type(ip, a, kw):
    v = a[0]
    if isinstance(v, Ref) and isinstance(ip.heap[v.id], HObj):
        return Real(ip.heap[v.id].cls)
    if is_atom(v):
        return Real(type(v))
    raise Unsupported("type()")


def quant_builtin(isany):
    def f(ip, a, kw):
        it = ip.iterate(a[0])
        if it[0] == "conc":
            r = [ip.truth(x) for x in it[1]]
            return ip.or_all(r) if isany else ip.and_all(r)
        if it[0] == "seq":
            s = it[1]
            i = z3.Int(ip.fresh_name("i"))
            c = ip.zb(ip.truth(SV(ip.to_v_at(s, i))))
            g = z3.And(0 <= i, i < s.n)
            return SB(z3.Exists([i], z3.And(g, c)) if isany else z3.ForAll([i], z3.Implies(g, c)))
        raise Unsupported("any/all")
    return f


def b_next(ip, a, kw):
    it = ip.iterate(a[0])
    if it[0] == "conc":
        if it[1]:
            return it[1][0]
        if len(a) > 1:
            return a[1]
        raise PyRaise(ExcVal(StopIteration))
    s = ip.seq_of(a[0]) if it[0] != "seq" else it[1]
    if not ip.branch(s.n > 0):
        if len(a) > 1:
            return a[1]
        raise PyRaise(ExcVal(StopIteration))
    return s.at(z3.IntVal(0))


def each(keep):
    """filter and map, as the list of what they give"""
    def f(ip, a, kw):
        from .interp import Frame, Scope
        if kw or len(a) != 2:
            raise Unsupported("map or filter of several sequences")
        fun, xs = a
        acc = ip.alloc(LList(None, ()))

        def body():
            v = ip.frames[-1].vars["__x"]
            r = v if fun is None else ip.call(fun, [v], {})
            if not keep:
                list_method(ip, acc, "append", [r], {})
                return
            c = ip.truth(r)
            if isinstance(c, bool):
                if c:
                    list_method(ip, acc, "append", [v], {})
                return

            def add():
                if ip.branch(ip.zb(c)):
                    list_method(ip, acc, "append", [v], {})
            ip.region(add)

        def run():
            fr = ip.frames[-1]
            ip.frames.append(Frame({}, fr.glob, Scope(fr.vars, fr.closure), fr.fn))
            ip.for_loop(ip.iterate(xs), lambda v: ip.frames[-1].vars.__setitem__("__x", v), body, lambda: None)
            ip.frames.pop()
        ip.region(run)
        return acc
    return f


def b_deepcopy(ip, a, kw):
    return deep(ip, a[0])


def deep(ip, v):
    if isinstance(v, Ref):
        c = ip.heap[v.id]
        if isinstance(c, LList):
            return ip.alloc(LList(c.base, [deep(ip, x) for x in c.suffix]))
        if isinstance(c, DDict):
            return ip.alloc(DDict(c.base, [(k, deep(ip, x) if x is not None else None, p) for k, x, p in c.writes], c.shape))
        if isinstance(c, SSet):
            return ip.alloc(SSet(c.memf, c.universe, shape=c.shape))
        raise Unsupported("deepcopy of an object")
    if isinstance(v, SV) and ip.is_mutable_copy(v):
        k = ip.kind_of(v)
        if k == K_DICT:
            return ip.alloc(DDict(v.t, (), ip.refined(v, k)))
    return v


def shallow(ip, a, kw):
    v = a[0]
    if isinstance(v, Ref):
        c = ip.heap[v.id]
        if isinstance(c, HObj):
            return ip.alloc(HObj(c.cls, c.fields, c.name, c.strict))
        import copy
        c2 = copy.copy(c)
        c2.frozen = False
        c2.frozen_term = None
        return ip.alloc(c2)
    if isinstance(v, SV):
        k = ip.kind_of(v)
        if k == K_DICT:
            return ip.alloc(DDict(v.t, (), ip.refined(v, k)))
        if k == K_LIST:
            return ip.to_list(v)
    return v


import copy as _copy
import functools as _ft
import urllib.parse as _up


def b_setattr(ip, a, kw):
    ip.setattr(a[0], a[1], a[2])


def b_callable(ip, a, kw):
    if isinstance(a[0], (Fn, Ext, Bound)):
        return True
    if isinstance(a[0], Real):
        return callable(a[0].obj)
    if isinstance(a[0], Ref):
        c = ip.heap[a[0].id]
        return isinstance(c, HObj) and ip.lookup_class(c.cls, "__call__") is not None
    if isinstance(a[0], SV):
        return SB(V.is_f(a[0].t))
    return False


def b_filter(ip, a, kw):
    raise Unsupported("filter")


def b_sum(ip, a, kw):
    it = ip.iterate(a[0])
    if it[0] != "conc":
        raise Unsupported("sum")
    r = a[1] if len(a) > 1 else 0
    for x in it[1]:
        r = binop(ip, ast.Add(), r, x)
    return r


BUILTINS = {
    len: b_len, isinstance: b_isinstance, list: b_list, set: b_set, frozenset: b_set, tuple: b_tuple, dict: b_dict,
    getattr: b_getattr, hasattr: b_hasattr, setattr: b_setattr, min: b_minmax(True), max: b_minmax(False),
    sorted: lambda ip, a, kw: sorted_(ip, a[0], kw), range: b_range, str: b_str, int: b_int, type: b_type,
    any: quant_builtin(True), all: quant_builtin(False), next: b_next, filter: each(True), map: each(False), iter: lambda ip, a, kw: a[0],
    zip: lambda ip, a, kw: View("zip", a), enumerate: lambda ip, a, kw: View("enumerate", *(a + [kw["start"]] if kw else a)),
    reversed: lambda ip, a, kw: View("reversed", a[0]), bool: lambda ip, a, kw: ip.truth(a[0]) if a else False,
    _copy.deepcopy: b_deepcopy, _copy.copy: shallow, callable: b_callable, sum: b_sum,
    print: lambda ip, a, kw: None, issubclass: lambda ip, a, kw: issubclass(a[0].obj, a[1].obj),
    id: lambda ip, a, kw: SI(ip.fresh("id", I)), repr: lambda ip, a, kw: template(ip, "repr({})", a[:1]),
}
