"""Helpers for writing contracts."""
import z3

from pyvc.values import *
from pyvc.engine import *
from pyvc.verify import Contract
from pyvc import builtins as pb

Z = z3


def S(s):
    """the value term of a python atom"""
    if s is None:
        return V.none
    if isinstance(s, bool):
        return V.b(s)
    if isinstance(s, int):
        return V.i(s)
    return V.s(intern(s))


def FA(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)


def EX(vs, body, *pats):
    return z3.Exists(vs, body, patterns=list(pats)) if pats else z3.Exists(vs, body)


def rng(j, n, lo=0):
    return z3.And(lo <= j, j < n)


def dictlike(ip, t, fields=None, required=()):
    return ip.sv(t, DictS(fields or {}, None, required))


def no_raise(comp):
    return comp[0] == "return"


def int_cells(L):
    """(name, k -> int term, k -> 'it is an int' or None) for every numeric view of the loop state"""
    for c in L.cells.values():
        if c.tag == "i":
            yield c.name, c.f, None
        elif c.tag == "v":
            yield c.name, (lambda k, f=c.f: V.iv(f(k))), (lambda k, f=c.f: V.is_i(f(k)))
        elif c.tag == "fdict":
            for kk in c.keys:
                f = c.v[kk]
                yield f"{c.name}[{kk}]", (lambda k, f=f: V.iv(f(k))), (lambda k, f=f: V.is_i(f(k)))


def bool_cells(L):
    for c in L.cells.values():
        if c.tag == "b":
            yield c.name, c.f
        elif c.tag == "v":
            yield c.name + "?", (lambda k, f=c.f: V.is_none(f(k)))


def value_cells(L):
    for c in L.cells.values():
        if c.tag == "v":
            yield c.name, c.f
        elif c.tag == "fdict":
            for kk in c.keys:
                yield f"{c.name}[{kk}]", c.v[kk]


def mem_cells(L):
    for c in L.cells.values():
        if c.tag in ("list", "set", "dict"):
            yield c.name, c.mem


def truthy(ip, v):
    return ip.zb(ip.truth(v))


def obj(ip, cls, fields, name=""):
    """an object whose other attributes are not known (reading one makes the path undecided)"""
    return ip.alloc(HObj(cls, fields, name or (cls.__name__ if cls else ""), False))


def bind(ip, fn, args, kw, skip=0):
    """{parameter: value} of a call of the real function, defaults applied (a ** of unknown keys stays under '**')"""
    import inspect
    ps = list(inspect.signature(fn).parameters.values())[skip:]
    out, names = {}, [p.name for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    if len(args) > len(names):
        raise Unsupported("arguments of a call by contract")
    out.update(zip(names, args))
    haskw = any(p.kind == p.VAR_KEYWORD for p in ps)
    extra = {}
    for k, v in kw.items():
        if k == "**":
            out["**"] = v
        elif k in names or any(p.name == k and p.kind == p.KEYWORD_ONLY for p in ps):
            if k in out:
                raise PyRaise(ExcVal(TypeError))
            out[k] = v
        elif haskw:
            extra[k] = v
        else:
            raise PyRaise(ExcVal(TypeError))
    for p in ps:
        if p.name not in out and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL):
            if p.default is p.empty:
                raise PyRaise(ExcVal(TypeError))
            d = p.default
            out[p.name] = d if is_atom(d) else ip.lift(d)
    if haskw:
        out["extra"] = extra
    return out


def extras(ip, b):
    """the keyword arguments collected by ** as one dictionary value"""
    base = b.get("**")
    ws = [(k, v, True) for k, v in b.get("extra", {}).items()]
    if base is None:
        return ip.alloc(DDict(None, ws))
    r = ip.alloc(pb.dict_content(ip, base))
    for k, v, _ in ws:
        pb.setitem(ip, r, k, v)
    return r


def isdict(t):
    return z3.And(V.is_ref(t), kind(t) == K_DICT)


def islist(t):
    return z3.And(V.is_ref(t), kind(t) == K_LIST)


def recorder(ip):
    """ghost state: the calls made by contract, part of the path's state"""
    ip.rec = ip.alloc(HObj(None, {}, "recorder", False))


def record(ip, name, *vals):
    h = ip.heap[ip.rec.id]
    f = dict(h.fields)
    f[name] = tuple(f.get(name, ())) + (tuple(SV(ip.to_v(v)) for v in vals),)
    ip.heap[ip.rec.id] = HObj(None, f, "recorder", False)


def recorded(ip, name):
    return [tuple(v.t for v in c) for c in ip.heap[ip.rec.id].fields.get(name, ())]


class CallPrecondition(BaseException):
    """a call that does not meet the precondition of the callee's contract"""


def require(ip, formula):
    """the precondition of a contract at a call: a path on which it does not hold ends here, and fails the goals on exceptions"""
    if not ip.branch(formula):
        raise PyRaise(ExcVal(CallPrecondition))


class Msg:
    """an idpyoidc Message seen as a dictionary: the methods act on the dictionary in the field d"""
    def __getitem__(self, k): pass
    def __setitem__(self, k, v): pass
    def __delitem__(self, k): pass
    def __contains__(self, k): pass
    def __iter__(self): pass
    def __len__(self): pass
    def get(self, k, default=None): pass
    def keys(self): pass
    def values(self): pass
    def items(self): pass
    def update(self, *a, **kw): pass
    def setdefault(self, *a): pass
    def pop(self, *a): pass
    def request(self, location): pass
    def to_dict(self): pass
    def copy(self): pass
    def verify(self, **kw): pass


def msg_d(ip, o):
    return ip.heap[o.id].fields["d"]


def msg_getitem(ip, args, kw):
    return pb.getitem(ip, msg_d(ip, args[0]), args[1])


def msg_setitem(ip, args, kw):
    return pb.setitem(ip, msg_d(ip, args[0]), args[1], args[2])


def msg_method(name):
    return lambda ip, args, kw: pb.dict_method(ip, msg_d(ip, args[0]), name, list(args[1:]), kw)


def msg_truth(ip, args, kw):
    t = ip.truth(msg_d(ip, args[0]))
    return SI(z3.If(ip.zb(t), 1, 0)) if not isinstance(t, bool) else int(t)


def msg_delitem(ip, args, kw):
    return pb.delitem(ip, msg_d(ip, args[0]), args[1])


def msg_verify(ip, args, kw):
    h = ip.heap[args[0].id].fields
    if "_verify" not in h:
        raise Unsupported("verify of a message")
    return h["_verify"](ip, args, kw)


def msg_to_dict(ip, args, kw):
    return ip.alloc(pb.dict_content(ip, msg_d(ip, args[0])))


MSG = {"contracts.common.Msg." + k: v for k, v in {
    "__getitem__": msg_getitem, "__setitem__": msg_setitem, "__delitem__": msg_delitem, "__len__": msg_truth, "verify": msg_verify, "to_dict": msg_to_dict,
    "__contains__": lambda ip, a, kw: ip.contains(a[1], msg_d(ip, a[0])), "__iter__": lambda ip, a, kw: msg_d(ip, a[0]),
    **{n: msg_method(n) for n in ("get", "keys", "values", "items", "update", "setdefault", "pop", "copy")}}.items()}


def message(ip, d, cls=Msg, verify=None, name="message"):
    """a message with the content of the dictionary d (the constructor copies it)"""
    r = d if isinstance(d, Ref) else ip.alloc(DDict(d.t, (), d.shape))
    f = {"d": r}
    if verify is not None:
        f["_verify"] = verify
    return ip.alloc(HObj(cls, f, name, False))


def message_class(verify=None, shape=None, check=None):
    """the constructor of a Message class: keyword arguments, or one dictionary or message"""
    def f(ip, args, kw):
        ws = [(k, v, True) for k, v in kw.items() if k != "**"]
        base = kw.get("**", args[0] if args else None)
        if isinstance(base, Ref) and isinstance(ip.heap[base.id], HObj):
            base = msg_d(ip, base)
        if base is None:
            d = ip.alloc(DDict(None, (), shape))
        else:
            c = pb.dict_content(ip, base)
            d = ip.alloc(DDict(c.base, c.writes, c.shape))
        for k, v, _ in ws:
            pb.setitem(ip, d, k, v)
        return message(ip, d, verify=verify)
    return f
