"""Statements, expressions, calls and loops: the part of the verifier that gives fedservice's Python its meaning.

A conditional whose condition is not determined is executed on both sides and the results merged (or kept
as alternatives when they can not be merged).  A loop over a sequence of unknown length is executed once for
an arbitrary index k from an arbitrary reachable state; the step relation, closed forms of accumulators and
inductive invariants proved on the spot describe the state at any index (see DESIGN.md).
"""
import ast
import itertools
import sys

import z3

from .values import *
from .engine import *
from .engine import _Break, _Continue, _Return
from . import builtins as pb

sys.setrecursionlimit(20000)


class Scope:
    """variables of an enclosing function, by reference"""

    def __init__(self, vars_, parent): self.vars, self.parent = vars_, parent
    def __contains__(self, n): return n in self.vars or (self.parent is not None and n in self.parent)
    def __getitem__(self, n): return self.vars[n] if n in self.vars else self.parent[n]
    def get(self, n, d=None): return self[n] if n in self else d


class LoopInfo:
    """what an invariant provider may talk about"""

    def __init__(self, seq, n, k, entry, funcs, slots, heap):
        self.seq, self.n, self.k, self.entry, self.funcs, self.slots, self.heap = seq, n, k, entry, funcs, slots, heap


def terminates_block(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Machine(Interp):
    MAX_DEPTH = 60

    # ------------------------------------------------------------- exploring with stable names
    def explore(self, thunk, at_end=None):
        base = (self.next_ref, self.next_fresh, self.region_no)
        hi = list(base)

        def run():
            self.next_ref, self.next_fresh, self.region_no = base
            try:
                return thunk()
            finally:
                for n, v in enumerate((self.next_ref, self.next_fresh, self.region_no)):
                    hi[n] = max(hi[n], v)
        end = None
        if at_end:
            def end(comp):
                at_end(comp)
        try:
            return super().explore(run, end)
        finally:
            self.next_ref, self.next_fresh, self.region_no = [max(a, b) for a, b in
                                                              zip(hi, (self.next_ref, self.next_fresh, self.region_no))]

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if self.is_log(s.value):
            return
        self.eval(s.value)

    LOGNAMES = {"logger", "_logger", "LOGGER", "logging"}

    def is_log(self, e):
        return (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name)
                and e.func.value.id in self.LOGNAMES) or \
            (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "print")

    def x_Pass(self, s): pass
    def x_Import(self, s): raise Unsupported("local import")

    def x_ImportFrom(self, s):
        import importlib
        mod = importlib.import_module(s.module)
        for a in s.names:
            self.frames[-1].vars[a.asname or a.name] = self.lift(getattr(mod, a.name), a.name)

    def x_Return(self, s):
        raise _Return(self.eval(s.value) if s.value is not None else None)

    def x_Break(self, s): raise _Break()
    def x_Continue(self, s): raise _Continue()

    def log_only(self, fn):
        """names of a function that are read in logging calls only"""
        node = getattr(fn, "node", None)
        if not isinstance(node, ast.FunctionDef):
            return ()
        r = getattr(node, "_log_only", None)
        if r is None:
            inlog, loads, bound = {}, {}, set()

            def walk(n, log):
                if isinstance(n, ast.Expr) and self.is_log(n.value):
                    log = True
                if isinstance(n, ast.Name):
                    if isinstance(n.ctx, ast.Load):
                        loads[n.id] = loads.get(n.id, 0) + 1
                        inlog[n.id] = inlog.get(n.id, 0) + (1 if log else 0)
                    elif isinstance(n.ctx, ast.Del):
                        bound.add(n.id)
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    bound.update(n.names)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    bound.add(n.target.id)
                for c in ast.iter_child_nodes(n):
                    walk(c, log)
            for b in node.body:
                walk(b, False)
            r = node._log_only = {n for n, k in loads.items() if k == inlog[n] and n not in bound}
        return r

    def harmless(self, e):
        """an expression without effects: it only reads attributes and formats"""
        ok = (ast.ListComp, ast.comprehension, ast.JoinedStr, ast.FormattedValue, ast.Attribute, ast.Name, ast.Constant, ast.Load, ast.Store,
              ast.Compare, ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Tuple)
        return all(isinstance(n, ok) for n in ast.walk(e))

    def x_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in self.log_only(self.frames[-1].fn) and self.harmless(s.value):
            self.assumptions.add("putting a log message together has no effect and does not fail")
            return
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        cur = self.eval(self.as_load(s.target))
        rhs = self.eval(s.value)
        if isinstance(cur, Ref) and isinstance(s.op, (ast.Add, ast.BitOr)):
            c = self.heap[cur.id]
            if isinstance(c, LList):
                pb.list_method(self, cur, "extend", [rhs], {})
                return self.assign(s.target, cur)
            if isinstance(c, (SSet, DDict)):
                pb.method(self, cur, "update", [rhs], {})
                return self.assign(s.target, cur)
        self.assign(s.target, self.binop(s.op, cur, rhs))

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        return ast.Subscript(t.value, t.slice, ast.Load())

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[-1].vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval(t.slice), v)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise(ExcVal(ValueError))
            return v
        it = self.iterate(v)
        if it[0] == "conc":
            if len(it[1]) != n:
                raise PyRaise(ExcVal(ValueError))
            return it[1]
        s = self.seq_of(v)
        if not self.branch(s.n == n):
            raise PyRaise(ExcVal(ValueError))
        return [s.at(z3.IntVal(i)) for i in range(n)]

    def x_If(self, s):
        c = self.cond(s.test)
        if isinstance(c, bool):
            return self.exec_block(s.body if c else s.orelse)

        def thunk():
            if self.branch(c):
                self.exec_block(s.body)
            else:
                self.exec_block(s.orelse)
        return self.region(thunk)

    def x_Assert(self, s):
        c = self.cond(s.test)
        if not self.branch(c):
            raise PyRaise(ExcVal(AssertionError))

    def x_Raise(self, s):
        if s.exc is None:
            cur = self.frames[-1].vars.get("__exc__")
            if cur is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur)
        v = self.eval(s.exc)
        if isinstance(v, Real) and isinstance(v.obj, type):
            v = ExcVal(v.obj)
        if not isinstance(v, ExcVal):
            raise Unsupported("raise of a non exception")
        raise PyRaise(v)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval(t.slice))
            elif isinstance(t, ast.Name):
                self.frames[-1].vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def x_Try(self, s):
        def thunk():
            try:
                try:
                    self.exec_block(s.body)
                except PyRaise as r:
                    h = self.handler(s.handlers, r.exc)
                    if h is None:
                        raise
                    fr = self.frames[-1]
                    if h.name:
                        fr.vars[h.name] = r.exc
                    old = fr.vars.get("__exc__")
                    fr.vars["__exc__"] = r.exc
                    try:
                        self.exec_block(h.body)
                    finally:
                        fr.vars["__exc__"] = old
                        if h.name:
                            fr.vars.pop(h.name, None)
                else:
                    self.exec_block(s.orelse)
            except (Infeasible, PathEnd, Unsupported):
                raise
            except BaseException:
                if s.finalbody:
                    self.exec_block(s.finalbody)
                raise
            else:
                self.exec_block(s.finalbody)
        return self.region(thunk)

    def handler(self, handlers, exc):
        for h in handlers:
            if h.type is None:
                return h
            t = self.eval(h.type)
            ts = t if isinstance(t, tuple) else (t,)
            for c in ts:
                if not (isinstance(c, Real) and isinstance(c.obj, type)):
                    raise Unsupported("except of a non class")
                if issubclass(exc.cls, c.obj):
                    return h
                if exc.cls is ExternalFailure and issubclass(c.obj, Exception):
                    # an external may raise anything: it may or may not be this class
                    if self.branch(self.fresh("isexc", B)):
                        return h
        return None

    def x_With(self, s):
        def enter(n):
            if n == len(s.items):
                return self.exec_block(s.body)
            it = s.items[n]
            v = self.eval(it.context_expr)
            r = self.call(self.getattr(v, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
            try:
                enter(n + 1)
            except (Infeasible, PathEnd, Unsupported):
                raise
            except BaseException:
                self.call(self.getattr(v, "__exit__"), [None, None, None], {})
                raise
            self.call(self.getattr(v, "__exit__"), [None, None, None], {})
        enter(0)

    def x_FunctionDef(self, s):
        fr = self.frames[-1]
        self.frames[-1].vars[s.name] = Fn(s, fr.glob, f"{fr.fn.qual if fr.fn else ''}.<locals>.{s.name}",
                                          fr.fn.module if fr.fn else "", None, Scope(fr.vars, fr.closure))

    def x_While(self, s):
        def thunk():
            for _ in range(self.MAX_WHILE):
                c = self.cond(s.test)
                if not self.branch(c):
                    self.exec_block(s.orelse)
                    return
                try:
                    self.exec_block(s.body)
                except _Continue:
                    continue
                except _Break:
                    return
            raise Unsupported("while loop without a bound")
        return self.region(thunk)

    def x_For(self, s):
        it = self.iterate(self.eval(s.iter))
        self.for_loop(it, lambda v: self.assign(s.target, v), lambda: self.exec_block(s.body),
                      lambda: self.exec_block(s.orelse), s)

    def for_loop(self, it, bind, body, orelse, node=None):
        if it[0] in ("conc", "fin"):
            if it[0] == "fin":
                self.assumptions.add("sets are iterated in one fixed order")

            def thunk():
                for x in it[1]:
                    v, g = x if it[0] == "fin" else (x, True)
                    try:
                        def one():
                            if self.branch(g):
                                bind(v)
                                try:
                                    body()
                                except _Continue:
                                    pass
                        if isinstance(g, bool) and len(it[1]) == 1:
                            one()
                        else:
                            self.region(one)
                    except _Break:
                        return
                orelse()
            return self.region(thunk)
        return self.region(lambda: self.symbolic_for(it[1], bind, body, orelse, node))

    # ------------------------------------------------------------- symbolic loops
    def symbolic_for(self, seq, bind, body, orelse, node):
        from .loops import run_symbolic
        return run_symbolic(self, seq, bind, body, orelse, node)

    # ------------------------------------------------------------- expressions
    def cond(self, e):
        """truth of an expression: python bool or SB"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.not_(self.cond(e.operand))
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            return self.shortcut(e.values, isand)
        return self.truth(self.eval(e))

    def shortcut(self, values, isand):
        c = self.cond(values[0])
        if len(values) == 1:
            return c
        if isinstance(c, bool):
            return self.shortcut(values[1:], isand) if c == isand else c

        def thunk():
            b = self.branch(c)
            return self.shortcut(values[1:], isand) if b == isand else b
        return self.region(thunk)

    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, (bytes, complex)) or e.value is ...:
            return Real(e.value)
        return e.value

    def e_Name(self, e): return self.name(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if isinstance(c, bool):
                return go(vals[1:]) if c == isand else v

            def thunk():
                return go(vals[1:]) if self.branch(c) == isand else self.narrow(v, not isand)
            return self.region(thunk)
        return go(e.values)

    def narrow(self, v, truth):
        if isinstance(v, SB):
            return truth
        return v

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse)
        return self.region(lambda: self.eval(e.body) if self.branch(c) else self.eval(e.orelse))

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return self.not_(self.cond(e.operand))
        v = self.eval(e.operand)
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, (int, float)) else SI(z3.simplify(-self.zi(v)))
        raise Unsupported("unary operator")

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        return pb.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        if len(e.ops) == 1:
            return self.compare(e.ops[0], left, self.eval(e.comparators[0]))

        def go(left, n):
            right = self.eval(e.comparators[n])
            c = self.compare(e.ops[n], left, right)
            if n == len(e.ops) - 1:
                return c
            if isinstance(c, bool):
                return go(right, n + 1) if c else False
            return self.region(lambda: go(right, n + 1) if self.branch(c) else False)
        return go(left, 0)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return self.alloc(LList(None, self.elts(e.elts)))

    def e_Set(self, e):
        return self.to_set(tuple(self.elts(e.elts)))

    def elts(self, l):
        r = []
        for x in l:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value))
                if it[0] != "conc":
                    raise Unsupported("starred")
                r.extend(it[1])
            else:
                r.append(self.eval(x))
        return r

    def e_Dict(self, e):
        d = self.alloc(DDict(None, ()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                pb.method(self, d, "update", [self.eval(v)], {})
            else:
                kk = self.eval(k)
                self.setitem(d, kk, self.eval(v))
        return d

    def e_JoinedStr(self, e):
        pieces = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                pieces.append(p.value)
                continue
            v = self.eval(p.value)
            if p.format_spec is not None or p.conversion not in (-1, 115):
                pieces.append(pb.template(self, f"conv:{p.conversion}:{ast.dump(p.format_spec) if p.format_spec else ''}:{{}}", [v]))
            elif is_atom(v) and not isinstance(v, bool) and v is not None:
                pieces.append(str(v))
            else:
                pieces.append(v)
        return pb.concat(self, pieces)

    def e_Lambda(self, e):
        fr = self.frames[-1]
        return Fn(e, fr.glob, "<lambda>", fr.fn.module if fr.fn else "", None, Scope(fr.vars, fr.closure))

    # comprehensions become loops in a scope of their own
    def e_ListComp(self, e):
        acc = self.alloc(LList(None, ()))
        self.comp(e.generators, lambda: pb.list_method(self, acc, "append", [self.eval(e.elt)], {}))
        return acc

    def e_GeneratorExp(self, e): return self.e_ListComp(e)

    def e_SetComp(self, e):
        acc = self.to_set(())
        self.comp(e.generators, lambda: pb.method(self, acc, "add", [self.eval(e.elt)], {}))
        return acc

    def e_DictComp(self, e):
        acc = self.alloc(DDict(None, ()))

        def put():
            k = self.eval(e.key)
            self.setitem(acc, k, self.eval(e.value))
        self.comp(e.generators, put)
        return acc

    def comp(self, gens, leaf):
        it0 = self.eval(gens[0].iter)
        fr = self.frames[-1]

        def run():
            self.frames.append(Frame({}, fr.glob, Scope(fr.vars, fr.closure), fr.fn))
            self.comp_gen(gens, 0, leaf, it0)
            self.frames.pop()
        return self.region(run)

    def comp_gen(self, gens, n, leaf, itv=None):
        g = gens[n]
        it = self.iterate(itv if n == 0 else self.eval(g.iter))

        def body():
            def rest():
                if n + 1 < len(gens):
                    self.comp_gen(gens, n + 1, leaf)
                else:
                    leaf()
            if not g.ifs:
                return rest()
            c = self.shortcut(g.ifs, True)
            if isinstance(c, bool):
                if c:
                    rest()
                return

            def thunk():
                if self.branch(c):
                    rest()
            self.region(thunk)
        self.for_loop(it, lambda v: self.assign(g.target, v), body, lambda: None)

    def quantified(self, e, isany):
        """any(...) / all(...) over a generator expression"""
        fr = self.frames[-1]
        it0 = self.eval(e.generators[0].iter)

        def run():
            self.frames.append(Frame({"__r": not isany}, fr.glob, Scope(fr.vars, fr.closure), fr.fn))

            def leaf():
                c = self.cond(e.elt)

                def hit():
                    if self.branch(c) == isany:
                        self.frames[-1].vars["__r"] = isany
                        raise _Break()
                if isinstance(c, bool):
                    if c == isany:
                        self.frames[-1].vars["__r"] = isany
                        raise _Break()
                else:
                    self.region(hit)
            if len(e.generators) > 1:
                raise Unsupported("nested any/all")
            self.comp_gen(e.generators, 0, leaf, it0)
            r = self.frames[-1].vars["__r"]
            self.frames.pop()
            return r
        return self.region(run)

    # ------------------------------------------------------------- attributes, items
    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, v, name):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, HObj):
                return self.obj_getattr(v, c, name)
            return self.builtin_attr({"DDict": dict, "LList": list}.get(type(c).__name__), v, name)
        if isinstance(v, Real):
            return self.real_getattr(v, name)
        if isinstance(v, SV):
            return self.sv_getattr(v, name)
        if isinstance(v, ExcVal):
            if name == "args":
                return tuple(v.args)
            return Bound(v, name)
        if v is None or isinstance(v, (int, float, bool, SI, SB)):
            raise PyRaise(ExcVal(AttributeError))
        if isinstance(v, (str, tuple, View)):
            return self.builtin_attr(type(v) if not isinstance(v, View) else None, v, name)
        if isinstance(v, pb.Super):
            return v.getattr(self, name)
        if isinstance(v, Fn) and name == "__name__":
            return v.node.name
        raise Unsupported(f"attribute {name} of {v!r}")

    def builtin_attr(self, cls, v, name):
        if cls is not None and not hasattr(cls, name):
            raise PyRaise(ExcVal(AttributeError, (name,)))
        return Bound(v, name)

    def obj_getattr(self, v, c, name):
        if name in c.fields:
            r = c.fields[name]
            if isinstance(r, LazyAttr):
                val = r.make(self)
                self.heap[v.id] = HObj(c.cls, {**c.fields, name: val}, c.name, c.strict)
                return val
            return r
        if name == "__class__":
            return Real(c.cls)
        if name == "__dict__":
            raise Unsupported("__dict__")
        f = self.lookup_class(c.cls, name)
        if f is not None:
            return self.bind(f, v)
        if c.strict:
            raise PyRaise(ExcVal(AttributeError, (name,)))
        raise Unsupported(f"attribute {name} of {c.name or c.cls}")

    def real_getattr(self, v, name):
        o = v.obj
        key = f"{self.objname(o) or ''}.{name}"
        if key in self.overrides:
            x = self.overrides[key]
            return x if isinstance(x, (Ext, Fn, Real, Ref, SV)) or not callable(x) else Ext(key, x)
        if not hasattr(o, name):
            raise PyRaise(ExcVal(AttributeError))
        x = getattr(o, name)
        if isinstance(o, type) and isinstance(o.__dict__.get(name, None), (staticmethod,)):
            return self.lift(x)
        return self.lift(x, name)

    def sv_getattr(self, v, name):
        k = self.kind_of(v)
        if k == "none" or k in ("int", "bool"):
            raise PyRaise(ExcVal(AttributeError))
        if k == K_OBJ:
            sh = self.refined(v, k)
            if name in getattr(sh, "fields", {}):
                return self.sv(attr(v.t, z3.IntVal(intern("." + name))), sh.fields[name])
            f = self.lookup_class(getattr(sh, "cls", None), name)
            if f is not None:
                return self.bind(f, v)
            raise Unsupported(f"attribute {name} of a symbolic object")
        if k == "fn":
            raise Unsupported("attribute of an opaque value")
        return self.builtin_attr({K_DICT: dict, "str": str, "list": list}.get(k), v, name)

    def setattr(self, v, name, val):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, HObj):
                f = self.lookup_class(c.cls, name)
                if f is not None and isinstance(f[1], property):
                    raise Unsupported("property setter")
                self.heap[v.id] = HObj(c.cls, {**c.fields, name: val}, c.name, c.strict)
                return
        raise Unsupported(f"attribute assignment to {v!r}")

    def e_Subscript(self, e):
        v = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower) if e.slice.lower is not None else None
            hi = self.eval(e.slice.upper) if e.slice.upper is not None else None
            st = self.eval(e.slice.step) if e.slice.step is not None else None
            return pb.slice_(self, v, lo, hi, st)
        return self.getitem(v, self.eval(e.slice))

    def e_Slice(self, e): raise Unsupported("slice object")

    def getitem(self, v, k): return pb.getitem(self, v, k)
    def setitem(self, v, k, x): return pb.setitem(self, v, k, x)
    def delitem(self, v, k): return pb.delitem(self, v, k)

    def instantiate(self, cls, args, kw):
        """an object of a class of the package: run its real __init__"""
        if not (cls.__module__ or "").split(".")[0] == self.package:
            raise Unsupported(f"object of external class {cls.__module__}.{cls.__qualname__}")
        if any(issubclass(cls, t) for t in (dict, list, set, tuple, str, int)):
            raise Unsupported(f"object of class {cls.__qualname__}")
        r = self.alloc(HObj(cls, {}, cls.__name__))
        init = self.lookup_class(cls, "__init__")
        if init is not None and init[0] is not object:
            self.call(self.bind(init, r), args, kw)
        elif args or kw:
            raise PyRaise(ExcVal(TypeError))
        return r

    def is_message_class(self, cls): return False
    def is_mutable_copy(self, v): return False

    # ------------------------------------------------------------- calls
    def e_Call(self, e):
        f = e.func
        if self.is_log(e):
            return None
        if isinstance(f, ast.Name) and f.id in ("any", "all") and len(e.args) == 1 and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and f.id not in self.frames[-1].vars:
            return self.quantified(e.args[0], f.id == "any")
        if isinstance(f, ast.Name) and f.id == "dict" and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                isinstance(e.args[0].elt, ast.Tuple) and len(e.args[0].elt.elts) == 2 and getattr(self.eval(f), 'obj', None) is dict:
            a = e.args[0]
            return self.e_DictComp(ast.copy_location(ast.DictComp(a.elt.elts[0], a.elt.elts[1], a.generators), a))
        if isinstance(f, ast.Name) and f.id == "super":
            fr = self.frames[-1]
            selfv = fr.vars.get(fr.fn.node.args.args[0].arg)
            if e.args:
                return pb.Super(self.eval(e.args[0]).obj, self.eval(e.args[1]))
            return pb.Super(fr.fn.cls, selfv)
        fn = self.eval(f)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.mapping(self.eval(k.value))
                it = self.iterate(View("items", d)) if isinstance(d, (Ref, SV)) else ("conc", [])
                if it[0] != "conc":
                    kw["**"] = d
                    continue
                for kk, vv in it[1]:
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(fn, args, kw)

    def mapping(self, d):
        """the dictionary behind a message object (the ghost messages keep it in d)"""
        if isinstance(d, Ref) and isinstance(self.heap[d.id], HObj):
            if "d" not in self.heap[d.id].fields:
                raise Unsupported("an object as a mapping")
            return self.heap[d.id].fields["d"]
        return d

    def call(self, f, args, kw):
        if isinstance(f, Ext):
            return f.handler(self, list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            return pb.method(self, f.obj, f.name, list(args), kw)
        if isinstance(f, Real):
            return pb.call_real(self, f.obj, list(args), kw)
        if isinstance(f, Ref):
            c = self.heap[f.id]
            if isinstance(c, HObj):
                m = self.lookup_class(c.cls, "__call__")
                if m is not None:
                    return self.call(self.bind(m, f), args, kw)
            raise PyRaise(ExcVal(TypeError))
        if isinstance(f, SV):
            if getattr(f.shape, "call", None):
                return f.shape.call(self, list(args), kw)
            raise Unsupported("call of an unknown value")
        if f is None or is_atom(f):
            raise PyRaise(ExcVal(TypeError))
        raise Unsupported(f"call of {f!r}")

    def fkey(self, f):
        return f"{f.module}.{f.qual}"

    def call_fn(self, f, args, kw):
        key = self.fkey(f)
        args = list(args)
        if f.self_ is not None:
            args = [f.self_] + args
        if key in self.contracts:
            self.functions_seen.add(key + " (by contract)")
            return self.contracts[key](self, args, kw)
        return self.inline(f, args, kw)

    def inline(self, f, args, kw):
        if "**" in kw and not (isinstance(f.node, ast.FunctionDef) and f.node.args.kwarg):
            raise Unsupported("** of an unknown dictionary")
        if self.depth > self.MAX_DEPTH:
            raise Unsupported("recursion too deep")
        node = f.node
        # defaults are evaluated in the defining scope
        vars_ = self.bind_args(f, args, kw)
        if isinstance(node, ast.FunctionDef):
            self.functions_seen.add(self.fkey(f))
            for n in ast.walk(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await)):
                    raise Unsupported("generator or global")

        def thunk():
            self.depth += 1
            self.frames.append(Frame(dict(vars_), f.glob, f.closure, f))
            try:
                if isinstance(node, ast.Lambda):
                    r = self.eval(node.body)
                else:
                    try:
                        self.exec_block(node.body)
                        r = None
                    except _Return as x:
                        r = x.value
            except PyRaise:
                self.frames.pop()
                self.depth -= 1
                raise
            self.frames.pop()
            self.depth -= 1
            return r
        return self.region(thunk)

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        if len(args) > len(names):
            if not a.vararg:
                raise PyRaise(ExcVal(TypeError))
            vars_[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            vars_[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars_[n] = v
        extra = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vars_:
                    raise PyRaise(ExcVal(TypeError))
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(ExcVal(TypeError))
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vars_:
                if n not in defs:
                    raise PyRaise(ExcVal(TypeError))
                self.frames.append(Frame({}, f.glob, f.closure, f))
                vars_[n] = self.eval(defs[n])
                self.frames.pop()
        if a.kwarg:
            if "**" in kw:
                d = kw["**"]
                base = pb.method(self, d, "copy", [], {})
                for k, v in extra.items():
                    self.setitem(base, k, v)
                vars_[a.kwarg.arg] = base
            else:
                vars_[a.kwarg.arg] = self.alloc(DDict(None, [(k, v, True) for k, v in extra.items()]))
        return vars_

    # ------------------------------------------------------------- obligations
    def prove(self, goal, ms=None):
        """'discharged' | 'refuted' | 'unknown'"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if isinstance(goal, SB):
            goal = goal.t
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "discharged", "simplifier"
        r = self.check(z3.Not(goal), ms=min(ms or self.prove_ms, 2000))
        if r == z3.unsat:
            return "discharged", "z3"
        if r == z3.sat:
            return "refuted", "z3"
        if self.prove_by_instances(goal, ms or self.prove_ms):
            return "discharged", "z3"
        # a fresh solver often does better than the incremental one
        s = z3.Solver()
        s.set("timeout", ms or self.prove_ms)
        s.set("random_seed", 7)
        for a in global_axioms() + self.axioms:
            s.add(a)
        for _, e in self.pc:
            s.add(e)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        if r == z3.unsat:
            return "discharged", "z3"
        if r == z3.sat:
            return "refuted", "z3"
        r = self.cvc5(s)
        if r == "unsat":
            return "discharged", "cvc5"
        return "unknown", "z3"

    def prove_by_instances(self, goal, ms, extra=()):
        """skolemise the goal and add the instances of the quantified hypotheses at the skolem constants (sound: only adds
        consequences of the hypotheses)"""
        sks = []

        def sk(g):
            if z3.is_quantifier(g) and g.is_forall():
                cs = [z3.Const(self.fresh_name("sk"), g.var_sort(n)) for n in range(g.num_vars())]
                sks.extend(cs)
                return sk(z3.substitute_vars(g.body(), *reversed(cs)))
            if z3.is_or(g):
                return z3.Or(*[sk(a) for a in g.children()])
            if z3.is_implies(g):
                return z3.Implies(g.arg(0), sk(g.arg(1)))
            return g
        body = sk(goal)
        if not sks:
            return False
        s = z3.Solver()
        s.set("timeout", ms)
        for a in global_axioms() + self.axioms:
            s.add(a)
        n = 0

        names = {c.decl().name() for c in sks}
        cands, seen = list(sks), set()

        def ground(e):
            if z3.is_quantifier(e) or e.get_id() in seen:
                return
            seen.add(e.get_id())
            if e.num_args() and e.sort() in (I, V) and mentions(e, names) and len(cands) < 12:
                cands.append(e)
            for ch in e.children():
                ground(ch)
        ground(body)

        def insts(e, depth=0):
            if z3.is_quantifier(e) and e.is_forall() and e.num_vars() <= 2:
                cs = [[c for c in cands if c.sort() == e.var_sort(v)] for v in range(e.num_vars())]
                if e.num_vars() == 2:
                    cs = [[c for c in x if any(c.eq(s) for s in sks)] for x in cs]
                for x in itertools.product(*cs):
                    r = z3.substitute_vars(e.body(), *reversed(x))
                    yield r
                    if depth < 1:
                        yield from insts(r, depth + 1)
            elif z3.is_implies(e):
                for x in insts(e.arg(1), depth):
                    yield z3.Implies(e.arg(0), x)
            elif z3.is_and(e):
                for c in e.children():
                    yield from insts(c, depth)
            elif z3.is_or(e):
                ch = e.children()
                for m, c in enumerate(ch):
                    if z3.is_quantifier(c):
                        for x in insts(c, depth):
                            yield z3.Or(*(ch[:m] + [x] + ch[m + 1:]))
        for e in [e for _, e in self.pc] + list(extra):
            s.add(e)
            if n < 2000:
                for x in insts(e):
                    s.add(x)
                    n += 1
        s.add(z3.Not(body))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r == z3.unsat

    def cvc5(self, s):
        if not self.use_cvc5:
            return "unknown"
        import cvc5
        t = time.time()
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption("tlimit-per", "10000")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", ""), "q")
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                c.invoke(slv, sm)
            r = slv.checkSat()
            return "unsat" if r.isUnsat() else "unknown"
        except Exception:
            return "unknown"
        finally:
            self.solver_time += time.time() - t

    use_cvc5 = True

    # ------------------------------------------------------------- names
    def bound(self, n, v):
        if isinstance(v, MaybeUndef):
            if self.branch(v.cond):
                return v.value
            raise PyRaise(ExcVal(UnboundLocalError))
        if isinstance(v, Undef):
            raise Unsupported(f"possibly unbound variable {n}")
        return v

    def name(self, n):
        fr = self.frames[-1]
        if n in fr.vars:
            return self.bound(n, fr.vars[n])
        if fr.closure is not None and n in fr.closure:
            return self.bound(n, fr.closure[n])
        if n in fr.glob:
            return self.lift(fr.glob[n], n)
        import builtins as _b
        if hasattr(_b, n):
            return Real(getattr(_b, n))
        raise PyRaise(ExcVal(NameError))


class LazyAttr:
    def __init__(self, make): self.make = make
