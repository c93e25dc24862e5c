"""Value domain of the verifier.

Python values are represented by
  * native atoms (None, bool, int, str) and native tuples of values,
  * SI / SB  - symbolic int / bool (z3 terms),
  * SV       - a symbolic value of the z3 datatype V, possibly with a Shape (type invariant),
  * Ref      - a handle of a mutable object whose content is in Interp.heap,
  * Fn, Cls, Mod, Ext - functions (to be interpreted), classes, modules, modelled externals.

V is a *value* domain: two composite values are the same term iff they are equal in Python's sense
(extensionality).  Composite terms are described by the observers below.
"""
import z3


def pattern_ok(e):
    """only uninterpreted functions, constructors and variables"""
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR):
                return False
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            return False
    return True


def _quantifier(real):
    def f(vs, body, **kw):
        """patterns the solver cannot use are left out"""
        ps = [p for p in kw.pop("patterns", ()) if isinstance(p, z3.PatternRef) or pattern_ok(p)]
        return real(vs, body, patterns=ps, **kw)
    f.wrapped = True
    return f


if not getattr(z3.ForAll, "wrapped", False):
    z3.ForAll, z3.Exists = _quantifier(z3.ForAll), _quantifier(z3.Exists)

V = z3.Datatype("V")
V.declare("none")
V.declare("b", ("bv", z3.BoolSort()))
V.declare("i", ("iv", z3.IntSort()))
V.declare("s", ("sv", z3.IntSort()))
V.declare("f", ("fv", z3.IntSort()))      # functions, classes, opaque singletons
V.declare("ref", ("rv", z3.IntSort()))    # composite value
V = V.create()
I, B = z3.IntSort(), z3.BoolSort()

K_DICT, K_LIST, K_SET, K_OBJ, K_TUPLE = 1, 2, 3, 4, 5
kind = z3.Function("kind", V, I)
has = z3.Function("has", V, V, B)
get = z3.Function("get", V, V, V)
length = z3.Function("length", V, I)
at = z3.Function("at", V, I, V)
idx = z3.Function("idx", V, V, I)
mem = z3.Function("mem", V, V, B)
keyat = z3.Function("keyat", V, I, V)
keyidx = z3.Function("keyidx", V, V, I)
attr = z3.Function("attr", V, I, V)
hasattr_ = z3.Function("hasattr_", V, I, B)

_strs = {}
_strl = []


def intern(s):
    if s not in _strs:
        _strs[s] = len(_strl)
        _strl.append(s)
    return _strs[s]


intern("")  # id 0


def unintern(n):
    return _strl[n] if 0 <= n < len(_strl) else None


_fns = {}


def fn_id(key):
    return _fns.setdefault(key, len(_fns))


class SI:
    __slots__ = ("t",)

    def __init__(self, t): self.t = t
    def __repr__(self): return f"SI({self.t})"


class SB:
    __slots__ = ("t",)

    def __init__(self, t): self.t = t
    def __repr__(self): return f"SB({self.t})"


class SV:
    __slots__ = ("t", "shape")

    def __init__(self, t, shape=None):
        self.t = t
        self.shape = shape

    def __repr__(self): return f"SV({self.t})"


class Ref:
    __slots__ = ("id",)

    def __init__(self, id): self.id = id
    def __eq__(self, o): return isinstance(o, Ref) and o.id == self.id
    def __hash__(self): return hash(("Ref", self.id))
    def __repr__(self): return f"Ref({self.id})"


class Fn:
    """A python function to be interpreted: AST + globals (+ bound self, closure)"""

    def __init__(self, node, glob, qual, module, self_=None, closure=None, cls=None):
        self.node, self.glob, self.qual, self.module = node, glob, qual, module
        self.self_, self.closure, self.cls = self_, closure, cls

    def bind(self, s):
        return Fn(self.node, self.glob, self.qual, self.module, s, self.closure, self.cls)

    def __repr__(self): return f"Fn({self.module}:{self.qual})"


class Ext:
    """Modelled external: handler(interp, args, kwargs) -> value; may raise PyRaise / call interp.branch"""

    def __init__(self, name, handler): self.name, self.handler = name, handler
    def __repr__(self): return f"Ext({self.name})"


class Real:
    """A real python object (module, class, opaque) that the program refers to."""

    def __init__(self, obj): self.obj = obj
    def __repr__(self): return f"Real({self.obj!r})"


# ---- heap contents (immutable values; mutation replaces them) -------------------------------
class LList:
    """list: base (None | Seq | Bag) followed by a concrete suffix"""

    def __init__(self, base=None, suffix=(), frozen=False):
        self.base, self.suffix, self.frozen = base, tuple(suffix), frozen


class Seq:
    def __init__(self, n, at_, memf=None):
        self.n, self.at, self.memf = n, at_, memf   # n: z3 Int ; at: z3 Int -> value ; memf : V term -> Bool


class Bag:
    """some finite sequence of unknown order and multiplicity: only membership is known"""

    def __init__(self, memf, nonempty=None, shape=None, distinct=False):
        self.memf, self.nonempty, self.shape = memf, nonempty, shape
        self.distinct = distinct                # made from a set: each member once


class DDict:
    """dict: base (None | V term | (hasf, getf)) overlaid with conditional writes (key, value, present)"""

    def __init__(self, base=None, writes=(), shape=None, frozen=False):
        self.base, self.writes, self.shape, self.frozen = base, tuple(writes), shape, frozen


class SSet:
    """set: membership predicate; universe = list of native atoms when finite (then memf only on those)"""

    def __init__(self, memf, universe=None, frozen=False, shape=None):
        self.memf, self.universe, self.frozen, self.shape = memf, universe, frozen, shape


class HObj:
    def __init__(self, cls, fields, name="", strict=True):
        self.cls, self.fields, self.name, self.strict = cls, dict(fields), name, strict


# ---- shapes: type invariants of inputs, assumed when an input is inspected -------------------
class Shape:
    pass


class AnyS(Shape):
    pass


class StrS(Shape):
    pass


class IntS(Shape):
    def __init__(self, lo=None): self.lo = lo


class BoolS(Shape):
    pass


class NoneS(Shape):
    pass


class AtomS(Shape):
    """a scalar JSON value"""


class DictS(Shape):
    """dict with given shapes for some keys; `default` for all others; `required` keys are present"""

    def __init__(self, fields=None, default=None, required=(), keys=None, owned=False):
        """owned: this object owns its nested containers (no aliases), so that changing one of them is changing it"""
        self.fields, self.default, self.required, self.keys = fields or {}, default, tuple(required), keys
        self.owned = owned

    def of(self, k): return self.fields.get(k, self.default)


class ListS(Shape):
    def __init__(self, elem=None): self.elem = elem


class SetS(Shape):
    def __init__(self, elem=None): self.elem = elem


class ObjS(Shape):
    def __init__(self, cls=None, fields=None): self.cls, self.fields = cls, fields or {}


class OptS(Shape):
    def __init__(self, inner): self.inner = inner


class OneOfS(Shape):
    """atom or list (of atoms)"""

    def __init__(self, *alts): self.alts = alts
