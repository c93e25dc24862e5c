"""Symbolic executor / verification condition generator for the Python subset used by fedservice.

The executor interprets the AST of the functions in /repo/src (re-read on every run, located from the
imported function objects, so what is verified is what runs).  See DESIGN.md for the semantics.
"""
import ast
import builtins as _bi
import inspect
import os
import time
import types

import z3

from .values import *


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self): return f"Exc({self.cls.__name__})"


class ExternalFailure(Exception):
    """stands for any exception an external may raise"""


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    pass


class _Return(Exception):
    def __init__(self, value): self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Undef:
    def __repr__(self): return "UNDEF"


UNDEF = Undef()


class MaybeUndef(Undef):
    """a variable that is bound exactly when cond holds (from joining two paths)"""
    def __init__(self, cond, value): self.cond, self.value = cond, value


class Frame:
    def __init__(self, vars_, glob, closure=None, fn=None):
        self.vars, self.glob, self.closure, self.fn = vars_, glob, closure, fn


class Ctx:
    def __init__(self, forced):
        self.forced, self.pos, self.taken, self.alts = forced, 0, [], []


class Outcome:
    def __init__(self, dec, facts, heap, varss, comp, obl=()):
        self.dec, self.facts, self.heap, self.varss, self.comp, self.obl = dec, facts, heap, varss, comp, obl

    @property
    def guard(self):
        return conj(self.dec)


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    return z3.BoolVal(True) if not l else (l[0] if len(l) == 1 else z3.And(*l))


def disj(l):
    l = [x for x in l if not z3.is_false(x)]
    return z3.BoolVal(False) if not l else (l[0] if len(l) == 1 else z3.Or(*l))


def is_atom(v):
    return v is None or isinstance(v, (bool, int, str))


def shape_alts(sh):
    """the kinds a shape allows, None when it allows anything"""
    if sh is None or isinstance(sh, AnyS):
        return None
    if isinstance(sh, OptS):
        a = shape_alts(sh.inner)
        return None if a is None else [NoneS()] + a
    if isinstance(sh, OneOfS):
        out = []
        for s in sh.alts:
            a = shape_alts(s)
            if a is None:
                return None
            out += a
        return out
    if isinstance(sh, AtomS):
        return [StrS(), IntS(), BoolS()]
    return [sh]


def join_shape(a, b):
    if a is b:
        return a
    x, y = shape_alts(a), shape_alts(b)
    if x is None or y is None:
        return None
    by = {}
    for s in x + y:
        by.setdefault(type(s), []).append(s)
    out = [l[0] if all(s is l[0] for s in l) or not l[0].__dict__ else t() for t, l in by.items()]
    return out[0] if len(out) == 1 else OneOfS(*out)


def mentions(e, syms):
    """does the z3 expression mention one of the declarations (ids)?"""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() in syms:
                return True
            stack.extend(x.children())
    return False


GLOBAL_AXIOMS = None


def global_axioms():
    global GLOBAL_AXIOMS
    if GLOBAL_AXIOMS is None:
        l, d, x = z3.Const("l", V), z3.Const("d", V), z3.Const("x", V)
        i = z3.Int("i")
        FA = z3.ForAll
        GLOBAL_AXIOMS = [
            FA([l, i], z3.Implies(z3.And(0 <= i, i < length(l), kind(l) != K_DICT), mem(l, at(l, i))), patterns=[at(l, i)]),
            FA([l, x], z3.Implies(mem(l, x), z3.And(0 <= idx(l, x), idx(l, x) < length(l), at(l, idx(l, x)) == x)),
               patterns=[mem(l, x)]),
            FA([l], length(l) >= 0, patterns=[length(l)]),
            FA([d, x], z3.Implies(has(d, x), length(d) > 0), patterns=[has(d, x)]),
            FA([d], z3.Implies(z3.And(kind(d) == K_DICT, length(d) > 0), has(d, keyat(d, 0))), patterns=[length(d)]),
        ]
    return GLOBAL_AXIOMS


class SourceIndex:
    """AST nodes of functions by (file, first line)"""

    def __init__(self):
        self.files = {}

    def load(self, fname):
        if fname not in self.files:
            src = open(fname).read()
            tree = ast.parse(src, fname)
            d = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    ln = n.lineno
                    if getattr(n, "decorator_list", None):
                        ln = min([ln] + [x.lineno for x in n.decorator_list])
                    d[(getattr(n, "name", "<lambda>"), ln)] = n
            self.files[fname] = d
        return self.files[fname]

    def node(self, func):
        code = func.__code__
        d = self.load(code.co_filename)
        n = d.get((code.co_name, code.co_firstlineno))
        if n is None:
            raise Unsupported(f"no source for {func.__qualname__}")
        return n


SOURCES = SourceIndex()


class Interp:
    MAX_WHILE = 80
    MAX_PATHS = 6000
    trace = None

    def __init__(self, package="fedservice", overrides=None, contracts=None, hooks=None, feas_ms=150,
                 prove_ms=10000, deadline=None):
        self.package = package
        self.overrides = overrides or {}
        self.contracts = contracts or {}     # qualname -> callable(interp, fn, args, kwargs) used at call sites
        self.hooks = hooks or []             # loop invariant candidate providers
        self.feas_ms, self.prove_ms = feas_ms, prove_ms
        self.deadline = deadline
        self.obligations = []                # dicts
        self.functions_seen = set()
        self.assumptions = set()
        self.memo = {}
        self.strict = True
        self.solver_time = 0.0
        self.nchecks = 0
        self.loops_seen = []
        self.axioms = []

    # ---------------------------------------------------------------- path state
    in_setup, input_names = False, set()

    def reset(self):
        self.heap = {}
        self.next_ref = 1
        self.next_fresh = 0
        self.pc = []
        self.loop_ctx = []
        self.frames = []
        self.dctx = []
        self.region_no = 0
        self.frozen_cache = {}
        self.depth = 0
        self.solver = z3.SimpleSolver()
        self.solver.set("random_seed", 1)
        self.solver.set("mbqi", False)
        for a in global_axioms() + self.axioms:
            self.solver.add(a)

    def fresh_name(self, base):
        self.next_fresh += 1
        return f"{base}!{self.next_fresh}"

    def fresh(self, base, sort):
        n = self.fresh_name(base)
        if self.loop_ctx:
            return z3.Function(n, *([I] * len(self.loop_ctx)), sort)(*self.loop_ctx)
        return z3.Const(n, sort)

    def fresh_v(self, base="v", shape=None):
        t = self.fresh(base, V)
        if self.in_setup:
            self.input_names.add(t.decl().name())
        return self.sv(t, shape)

    def fresh_fn(self, base, *sorts):
        n = self.fresh_name(base)
        if self.loop_ctx:
            f = z3.Function(n, *([I] * len(self.loop_ctx)), *sorts)
            ctx = list(self.loop_ctx)
            g = lambda *a: f(*ctx, *a)
            g.fname = n
            return g
        f = z3.Function(n, *sorts)
        g = lambda *a: f(*a)
        g.fname = n
        return g

    def alloc(self, content):
        r = Ref(self.next_ref)
        self.next_ref += 1
        self.heap[r.id] = content
        return r

    def fact(self, e):
        if z3.is_true(e):
            return
        self.pc.append(("f", e))
        self.solver.add(e)

    def decide(self, e):
        self.pc.append(("d", e))
        self.solver.add(e)

    def check(self, *extra, ms=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        self.solver.set("timeout", ms or self.feas_ms)
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.solver_time += dt
        if self.trace is not None:
            import sys
            f = sys._getframe(1)
            key = (f.f_code.co_name, f.f_lineno, f.f_back.f_code.co_name, str(r))
            a = self.trace.setdefault(key, [0, 0.0])
            a[0] += 1
            a[1] += dt
        self.nchecks += 1
        return r

    def feasible(self, e):
        return self.check(e) != z3.unsat

    def implied(self, e, ms=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.check(z3.Not(e), ms=ms) == z3.unsat

    # ---------------------------------------------------------------- decisions
    def branch(self, cond):
        """fork on a condition: python bool, SB or z3 Bool"""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SB):
            cond = cond.t
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def choose(self, guards):
        ctx = self.dctx[-1]
        if ctx.pos < len(ctx.forced):
            c, implied = ctx.forced[ctx.pos]
            ctx.pos += 1
            ctx.taken.append((c, implied))
            if implied:
                self.fact(guards[c])
            else:
                self.decide(guards[c])
            return c
        ok = [n for n, g in enumerate(guards) if self.feasible(g)]
        if not ok:
            raise Infeasible()
        implied = len(ok) == 1
        for c in ok[1:]:
            ctx.alts.append(ctx.taken + [(c, False)])
        ctx.taken.append((ok[0], implied))
        ctx.pos += 1
        if implied:
            self.fact(guards[ok[0]])
        else:
            self.decide(guards[ok[0]])
        return ok[0]

    def path_id(self):
        return tuple(tuple(c.taken) for c in self.dctx)

    # ---------------------------------------------------------------- exploration
    def _snap(self):
        return (dict(self.heap), [dict(f.vars) for f in self.frames], list(self.loop_ctx), self.depth, len(self.frames))

    def _restore(self, s):
        self.heap = dict(s[0])
        del self.frames[s[4]:]
        for f, v in zip(self.frames, s[1]):
            f.vars.clear()
            f.vars.update(v)
        self.loop_ctx = list(s[2])
        self.depth = s[3]

    def explore(self, thunk, at_end=None):
        """all feasible outcomes of thunk from the current state"""
        snap = self._snap()
        outs = []
        stack = [[]]
        n = 0
        while stack:
            n += 1
            if n > self.MAX_PATHS:
                raise Unsupported("too many paths")
            forced = stack.pop()
            self._restore(snap)
            self.solver.push()
            pc0 = len(self.pc)
            ctx = Ctx(forced)
            self.dctx.append(ctx)
            comp = None
            try:
                comp = ("normal", thunk())
            except _Return as r:
                comp = ("return", r.value)
            except _Break:
                comp = ("break", None)
            except _Continue:
                comp = ("continue", None)
            except PyRaise as r:
                comp = ("raise", r.exc)
            except (Infeasible, PathEnd):
                comp = None
            finally:
                if comp is not None and at_end:
                    at_end(comp)
                self.dctx.pop()
                self.solver.pop()
                if comp is not None:
                    tail = self.pc[pc0:]
                    outs.append(Outcome([e for t, e in tail if t == "d"], [e for t, e in tail if t == "f"], self.heap,
                                        [dict(f.vars) for f in self.frames[:snap[4]]], comp))
                del self.pc[pc0:]
            stack.extend(reversed(ctx.alts))
        self._restore(snap)
        return outs

    def region(self, thunk):
        """run thunk on all sub-paths, merge what can be merged, continue on one alternative"""
        self.region_no += 1
        key = (self.path_id(), self.region_no)
        m = self.memo.get(key)
        if m is None:
            rn = self.region_no
            outs = self.explore(thunk)
            alts = self.merge_outcomes(outs)
            m = (alts, self.next_ref, self.next_fresh, self.region_no)
            self.memo[key] = m
        alts, nr, nf, rn = m
        self.next_ref, self.next_fresh, self.region_no = max(self.next_ref, nr), max(self.next_fresh, nf), rn
        return self.install(alts)

    def install(self, alts):
        if not alts:
            raise Infeasible()
        if len(alts) == 1:
            a = alts[0]
            self.fact(a.guard)
        else:
            a = alts[self.choose([x.guard for x in alts])]
        for f in a.facts:
            self.fact(f)
        self.heap = dict(a.heap)
        for f, v in zip(self.frames, a.varss):
            f.vars.clear()
            f.vars.update(v)
        k, v = a.comp
        if k == "normal":
            return v
        if k == "return":
            raise _Return(v)
        if k == "break":
            raise _Break()
        if k == "continue":
            raise _Continue()
        raise PyRaise(v)

    # ---------------------------------------------------------------- merging
    def merge_outcomes(self, outs):
        alts = []
        for o in outs:
            o = Outcome([o.guard], list(o.facts), o.heap, o.varss, o.comp)
            o.dec0 = o.guard
            done = False
            for n, a in enumerate(alts):
                m = self.try_merge(a, o)
                if m is not None:
                    alts[n] = m
                    done = True
                    break
            if not done:
                alts.append(o)
        return alts

    def try_merge(self, a, b):
        if a.comp[0] != b.comp[0]:
            return None
        g = a.guard
        try:
            heap0 = self.heap
            self._mf = []
            if a.comp[0] == "raise":
                if a.comp[1].cls is not b.comp[1].cls:
                    return None
                comp = a.comp
            else:
                self._mh = (a.heap, b.heap)
                comp = (a.comp[0], self.merge_val(g, a.comp[1], b.comp[1]))
            self._mh = (a.heap, b.heap)
            varss = []
            for va, vb in zip(a.varss, b.varss):
                d = {}
                for k in set(va) | set(vb):
                    d[k] = self.merge_var(g, va, vb, k)
                varss.append(d)
            heap = {}
            for k in set(a.heap) | set(b.heap):
                if k not in a.heap:
                    heap[k] = b.heap[k]
                elif k not in b.heap:
                    heap[k] = a.heap[k]
                elif a.heap[k] is b.heap[k]:
                    heap[k] = a.heap[k]
                else:
                    heap[k] = self.merge_content(g, a.heap[k], b.heap[k])
        except NoMerge:
            return None
        facts = [z3.Implies(a.guard, f) for f in a.facts] + [z3.Implies(b.guard, f) for f in b.facts] + self._mf
        # common facts need no guard
        r = Outcome([z3.simplify(z3.Or(a.guard, b.guard))], self._dedup(a, b) + self._mf, heap, varss, comp)
        return r

    def _dedup(self, a, b):
        ida = {f.get_id() for f in a.facts}
        idb = {f.get_id() for f in b.facts}
        out = []
        for f in a.facts:
            out.append(f if f.get_id() in idb else z3.Implies(a.guard, f))
        for f in b.facts:
            if f.get_id() not in ida:
                out.append(z3.Implies(b.guard, f))
        return out

    def merge_var(self, g, va, vb, k):
        pa, pb = ((z3.BoolVal(False), None) if k not in v else (v[k].cond, v[k].value) if isinstance(v[k], MaybeUndef) else (z3.BoolVal(True), v[k]) for v in (va, vb))
        if isinstance(pa[1], Undef) or isinstance(pb[1], Undef):
            return UNDEF
        cond = z3.simplify(z3.If(g, pa[0], pb[0]))
        if pa[1] is None and k not in va:
            val = pb[1]
        elif pb[1] is None and k not in vb:
            val = pa[1]
        else:
            val = self.merge_val(g, pa[1], pb[1])
        return val if z3.is_true(cond) else MaybeUndef(cond, val)

    def merge_val(self, g, a, b):
        if a is b:
            return a
        if is_atom(a) and is_atom(b) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return a
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return SB(z3.If(g, self.zb(a), self.zb(b)))
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(g, x, y) for x, y in zip(a, b))
        if isinstance(a, int) and isinstance(b, int):
            raise NoMerge()
        if isinstance(a, (int, SI)) and isinstance(b, (int, SI)) and not isinstance(a, bool) and not isinstance(b, bool):
            return SI(z3.If(g, self.zi(a), self.zi(b)))
        if isinstance(a, str) and isinstance(b, str):
            raise NoMerge()
        il = lambda v: isinstance(v, SI) or (isinstance(v, int) and not isinstance(v, bool)) or \
            (isinstance(v, SV) and isinstance(v.shape, IntS))
        zi = lambda v: V.iv(v.t) if isinstance(v, SV) else self.zi(v)
        if il(a) and il(b) and not (isinstance(a, SV) and isinstance(b, SV) and a.t.eq(b.t)):
            return SI(z3.If(g, zi(a), zi(b)))
        if isinstance(a, SV) and isinstance(b, SV):
            if a.t.eq(b.t):
                return a
            return SV(z3.If(g, a.t, b.t), join_shape(a.shape, b.shape))
        if (isinstance(a, SV) or isinstance(b, SV)) and all(isinstance(x, (SV, SI, SB)) or is_atom(x) for x in (a, b)):
            return SV(z3.If(g, self.to_v(a), self.to_v(b)), join_shape(self.shape_of(a), self.shape_of(b)))
        raise NoMerge()

    def shape_of(self, v, side=None):
        """the shape of any value, None when unknown"""
        if isinstance(v, SV):
            return v.shape
        if v is None:
            return NoneS()
        if isinstance(v, (bool, SB)):
            return BoolS()
        if isinstance(v, (int, SI)):
            return IntS()
        if isinstance(v, str):
            return StrS()
        if isinstance(v, Ref):
            c = (self._mh[side] if side is not None else self.heap).get(v.id)
            return {LList: ListS, DDict: DictS, SSet: SetS}.get(type(c), lambda: None)()
        return None

    def merge_deep(self, g, a, b):
        """merge of values stored in dicts: composite values may be frozen"""
        try:
            return self.merge_val(g, a, b)
        except NoMerge:
            pass
        if isinstance(a, (SV, SI, SB, Ref, tuple)) or isinstance(b, (SV, SI, SB, Ref, tuple)) or (is_atom(a) and is_atom(b)):
            ta = self.freeze_in(a, 0)
            tb = self.freeze_in(b, 1)
            return SV(z3.If(g, ta, tb), join_shape(self.shape_of(a, 0), self.shape_of(b, 1)))
        raise NoMerge()

    def freeze_in(self, v, side):
        if not isinstance(v, (Ref, tuple)):
            return self.to_v(v)
        h = self.heap
        pc0 = len(self.pc)
        self.heap = dict(self._mh[side])
        self.solver.push()
        try:
            t = self.to_v(v)
            new = [e for _, e in self.pc[pc0:]]
            self._mf.extend(new)
            c = self.heap.get(v.id) if isinstance(v, Ref) else None
        finally:
            del self.pc[pc0:]
            self.solver.pop()
            self.heap = h
        return t

    def tri(self, p):
        """True, False or the simplified condition"""
        if isinstance(p, bool):
            return p
        p = z3.simplify(self.zb(p))
        return True if z3.is_true(p) else False if z3.is_false(p) else p

    def merge_content(self, g, a, b):
        if type(a) is not type(b):
            raise NoMerge()
        if isinstance(a, LList):
            if a.base is b.base and len(a.suffix) == len(b.suffix):
                return LList(a.base, [self.merge_val(g, x, y) for x, y in zip(a.suffix, b.suffix)], a.frozen or b.frozen)
            raise NoMerge()
        if isinstance(a, SSet):
            u = None
            if a.universe is not None and b.universe is not None:
                u = list(a.universe) + [x for x in b.universe if x not in a.universe]
            am, bm = a.memf, b.memf
            return SSet(lambda x: z3.If(g, am(x), bm(x)), u, a.frozen or b.frozen)
        if isinstance(a, DDict):
            if a.base is not b.base:
                raise NoMerge()
            n = 0
            while n < len(a.writes) and n < len(b.writes) and a.writes[n] is b.writes[n]:
                n += 1
            keys = []
            for k, v, p in a.writes[n:] + b.writes[n:]:
                if not any(self.same_key(k, k2) for k2 in keys):
                    keys.append(k)
            for x in range(len(keys)):       # keys must be pairwise distinct to be merged key by key
                for y in range(x):
                    if not (is_atom(keys[x]) and is_atom(keys[y])):
                        raise NoMerge()
            w = list(a.writes[:n])
            for k in keys:
                self._merging = True
                try:
                    pa, va = self.dlookup_content(a, k)
                    pb, vb = self.dlookup_content(b, k)
                finally:
                    self._merging = False
                pa, pb = self.tri(pa), self.tri(pb)
                if isinstance(pa, bool) and isinstance(pb, bool) and pa == pb:
                    pres = pa
                else:
                    pres = self.tri(z3.If(g, self.zb(pa), self.zb(pb)))
                if pa is False:
                    val = vb
                elif pb is False:
                    val = va
                elif va is vb:
                    val = va
                else:
                    val = self.merge_deep(g, va, vb)
                w.append((k, val, pres))
            return DDict(a.base, w, a.shape, a.frozen or b.frozen)
        if isinstance(a, HObj):
            if a.cls is not b.cls or set(a.fields) != set(b.fields):
                raise NoMerge()
            return HObj(a.cls, {k: self.merge_val(g, a.fields[k], b.fields[k]) for k in a.fields}, a.name, a.strict)
        raise NoMerge()

    # ---------------------------------------------------------------- conversions
    def zb(self, v):
        if isinstance(v, SB):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, z3.BoolRef):
            return v
        raise Unsupported(f"not a bool: {v}")

    def zi(self, v):
        if isinstance(v, SI):
            return v.t
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SV):
            if self.implied(V.is_i(v.t)):
                return V.iv(v.t)
            if self.branch(V.is_i(v.t)):
                return V.iv(v.t)
            raise PyRaise(ExcVal(TypeError))
        raise Unsupported(f"not an int: {v}")

    def sv(self, t, shape=None):
        if shape is not None:
            f = self.shape_facts(t, shape)
            if f is not None:
                self.fact(f)
        return SV(t, shape)

    def shape_facts(self, t, shape):
        if shape is None or isinstance(shape, AnyS):
            return None
        if isinstance(shape, StrS):
            return V.is_s(t)
        if isinstance(shape, IntS):
            return z3.And(V.is_i(t), V.iv(t) >= shape.lo) if shape.lo is not None else V.is_i(t)
        if isinstance(shape, BoolS):
            return V.is_b(t)
        if isinstance(shape, NoneS):
            return V.is_none(t)
        if isinstance(shape, AtomS):
            return z3.Or(V.is_s(t), V.is_i(t), V.is_b(t))
        if isinstance(shape, DictS):
            return conj([V.is_ref(t), kind(t) == K_DICT] + [has(t, self.to_v(k)) for k in shape.required])
        if isinstance(shape, ListS):
            return z3.And(V.is_ref(t), kind(t) == K_LIST)
        if isinstance(shape, SetS):
            return z3.And(V.is_ref(t), kind(t) == K_SET)
        if isinstance(shape, ObjS):
            return z3.And(V.is_ref(t), kind(t) == K_OBJ)
        if isinstance(shape, OptS):
            f = self.shape_facts(t, shape.inner)
            return None if f is None else z3.Or(V.is_none(t), f)
        if isinstance(shape, OneOfS):
            fs = [self.shape_facts(t, s) for s in shape.alts]
            return None if any(f is None for f in fs) else z3.Or(*fs)
        raise Unsupported(f"shape {shape}")

    def to_v(self, v):
        if v is None:
            return V.none
        if isinstance(v, bool):
            return V.b(v)
        if isinstance(v, int):
            return V.i(v)
        if isinstance(v, str):
            return V.s(intern(v))
        if isinstance(v, float):
            return V.f(fn_id(("float", v)))
        if isinstance(v, SI):
            return V.i(v.t)
        if isinstance(v, SB):
            return V.b(v.t)
        if isinstance(v, SV):
            return v.t
        if isinstance(v, z3.ExprRef):
            if v.sort() == V:
                return v
            if v.sort() == I:
                return V.i(v)
            if v.sort() == B:
                return V.b(v)
        if isinstance(v, Ref):
            return self.freeze(v)
        if isinstance(v, tuple):
            return self.freeze_seq(K_TUPLE, v)
        if isinstance(v, Real):
            return V.f(fn_id(("real", id(v.obj))))
        if isinstance(v, (Fn, Ext)):
            return V.f(fn_id((type(v).__name__, getattr(v, "qual", None) or v.name)))
        raise Unsupported(f"cannot embed {v!r}")

    def freeze_seq(self, knd, items):
        ts = [self.to_v(x) for x in items]
        key = ("seq", knd, tuple(t.get_id() for t in ts))
        if key in self.frozen_cache:
            t = self.frozen_cache[key][0]
        else:
            # value semantics: the same items give the same value, also across paths
            n = len(ts)
            f = z3.Function(f"mk{knd}_{n}", *([V] * n), V)
            t = f(*ts)
            self.frozen_cache[key] = (t, ts)
        self.fact(z3.And(V.is_ref(t), kind(t) == knd, length(t) == len(ts)))
        for i, x in enumerate(ts):
            self.fact(at(t, i) == x)
        x = z3.Const("x", V)
        self.fact(z3.ForAll([x], mem(t, x) == disj([x == y for y in ts]), patterns=[mem(t, x)]))
        return t

    def freeze(self, ref):
        c = self.heap[ref.id]
        if getattr(c, "frozen_term", None) is not None:
            ft, ctx, facts = c.frozen_term
            for f in facts:
                self.fact(f)
            return ft
        pc0 = len(self.pc)
        t = self._freeze(c, ref)
        facts = [e for _, e in self.pc[pc0:]]
        if not isinstance(c, HObj):
            import copy
            c2 = copy.copy(c)
            c2.frozen_term = (t, list(self.loop_ctx), facts)
            c2.frozen = True
            self.heap[ref.id] = c2
        return t

    def _freeze(self, c, ref):
        x = z3.Const("x", V)
        if isinstance(c, LList):
            if c.base is None:
                return self.freeze_seq(K_LIST, c.suffix)
            if not c.suffix and getattr(c.base, "term", None) is not None:
                return c.base.term          # an unchanged copy has the same value
            t = self.fresh("lst", V)
            self.fact(z3.And(V.is_ref(t), kind(t) == K_LIST))
            if isinstance(c.base, Seq):
                s = self.as_seq_content(c)
                self.fact(length(t) == s.n)
                i = z3.Int("i")
                pc0 = len(self.pc)
                e = self.to_v_at(s, i)
                self.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), at(t, i) == e), patterns=[at(t, i)]))
                # at <-> mem comes with the global axioms
                if c.base.memf is not None and not c.suffix:
                    m = c.base.memf(x)
                    pats = [mem(t, x)] + ([m] if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
                    self.fact(z3.ForAll([x], mem(t, x) == m, patterns=pats))
            else:
                m = self.content_mem(c)
                self.fact(z3.ForAll([x], mem(t, x) == m(x), patterns=[mem(t, x)]))
                if getattr(c.base, "distinct", False) and not c.suffix:
                    i = z3.Int("i")
                    self.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < length(t)), idx(t, at(t, i)) == i), patterns=[at(t, i)]))
            return t
        if isinstance(c, SSet):
            t = self.fresh("set", V)
            self.fact(z3.And(V.is_ref(t), kind(t) == K_SET))
            self.fact(z3.ForAll([x], mem(t, x) == c.memf(x), patterns=[mem(t, x)]))
            return t
        if isinstance(c, DDict):
            if not c.writes and isinstance(c.base, z3.ExprRef) and c.base.sort() == V:
                self.fact(z3.And(V.is_ref(c.base), kind(c.base) == K_DICT))
                return c.base               # an unchanged copy has the same value
            t = self.fresh("dct", V)
            self.fact(z3.And(V.is_ref(t), kind(t) == K_DICT))
            if all(is_atom(k) for k, _, _ in c.writes) and c.base is None:
                last = {}
                for k, v, p in c.writes:
                    last[k] = (v, p)
                if not last:
                    return self.empty_dict()
                for k, (v, p) in last.items():
                    self.fact(has(t, self.to_v(k)) == self.zb(p))
                    if v is not None or p is not False:
                        tv = self.to_v(v)
                        self.fact(z3.Implies(self.zb(p), get(t, self.to_v(k)) == tv))
                self.fact(z3.ForAll([x], z3.Implies(has(t, x), disj([x == self.to_v(k) for k in last])),
                                    patterns=[has(t, x)]))
                self.fact((length(t) > 0) == disj([self.zb(p) for v, p in last.values()]))
            else:
                h, g = self.dict_fns(c)
                self.fact(z3.ForAll([x], z3.And(has(t, x) == h(x), z3.Implies(h(x), get(t, x) == g(x))),
                                    patterns=[has(t, x), get(t, x)]))
            return t
        if isinstance(c, HObj):
            return V.ref(-1000 - ref.id)
        raise Unsupported("freeze")

    def empty_dict(self):
        t = z3.Const("EMPTY_DICT", V)
        x = z3.Const("x", V)
        self.fact(z3.And(V.is_ref(t), kind(t) == K_DICT, length(t) == 0, z3.ForAll([x], z3.Not(has(t, x)))))
        return t

    def to_v_at(self, s, i):
        """term for element i (i may be a bound variable: no facts may be emitted about it)"""
        pc0 = len(self.pc)
        self.solver.push()
        v = s.at(i)
        t = self.to_v(v)
        new = self.pc[pc0:]
        del self.pc[pc0:]
        self.solver.pop()
        for tag, e in new:
            if not self.has_var(e, i):
                self.fact(e)
            # facts about the bound index are type facts: dropped (weaker, sound)
        return t

    def has_var(self, e, i):
        return mentions(e, {i.decl().name()}) if z3.is_app(i) else True

    # dict content as functions
    def dict_fns(self, c):
        if c.base is None:
            h0, g0 = (lambda x: z3.BoolVal(False)), None
        elif isinstance(c.base, tuple):
            h0, g0 = c.base
        else:
            b = c.base
            h0, g0 = (lambda x: has(b, x)), (lambda x: get(b, x))
        ws = [(self.to_v(k), (self.to_v(v) if not (v is None and p is False) else None), self.zb(p)) for k, v, p in c.writes]

        def h(x):
            r = h0(x)
            for k, v, p in ws:
                r = z3.If(x == k, p, r)
            return z3.simplify(r) if not ws else r

        def g(x):
            r = g0(x) if g0 else V.none
            for k, v, p in ws:
                if v is not None:
                    r = z3.If(x == k, v, r)
            return r
        return h, g

    def dlookup_content(self, c, key):
        """(present, value) of key in dict content; present: bool or z3 Bool; no forking"""
        kt = None
        acc = []   # (cond, pres, val) from the latest
        for k, v, p in reversed(c.writes):
            e = self.key_eq(k, key)
            if e is False:
                continue
            if e is True:
                base = (p, v)
                break
            acc.append((e, p, v))
        else:
            if c.base is None:
                base = (False, None)
            elif isinstance(c.base, tuple):
                kt = self.to_v(key)
                base = (c.base[0](kt), SV(c.base[1](kt), c.shape.of(key) if c.shape else None))
            else:
                kt = self.to_v(key)
                sh = c.shape.of(key) if c.shape else None
                v = SV(get(c.base, kt), sh)
                if sh is not None:
                    f = self.shape_facts(v.t, sh)
                    if f is not None:
                        self.fact(z3.Implies(has(c.base, kt), f))
                base = (has(c.base, kt), v)
        pres, val = base
        for e, p, v in reversed(acc):
            if pres is False and val is None:
                pres, val = z3.And(e, self.zb(p)), v
                continue
            if p is False:
                pres = z3.And(z3.Not(e), self.zb(pres))
                continue
            if getattr(self, "_merging", False):
                raise NoMerge()              # the values are in one of the two heaps that are being merged
            npres = z3.If(e, self.zb(p), self.zb(pres))
            self._mh = (self.heap, self.heap)
            self._mf = []
            val = self.merge_deep(e, v, val)
            for f in self._mf:
                self.fact(f)
            pres = npres
        if not isinstance(pres, bool):
            pres = z3.simplify(self.zb(pres))
            if z3.is_true(pres):
                pres = True
            elif z3.is_false(pres):
                pres = False
        return pres, val

    def key_eq(self, a, b):
        if is_atom(a) and is_atom(b):
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported("tuple keys")
        e = z3.simplify(self.to_v(a) == self.to_v(b))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.implied(e):
            return True
        if self.implied(z3.Not(e)):
            return False
        return e

    def same_key(self, a, b):
        if is_atom(a) and is_atom(b):
            return type(a) is type(b) and a == b
        if is_atom(a) or is_atom(b):
            return False
        return self.to_v(a).eq(self.to_v(b))

    # list content
    def as_seq_content(self, c):
        if isinstance(c, LList):
            if c.base is None:
                items = list(c.suffix)
                return Seq(z3.IntVal(len(items)), lambda i: self.nth(items, i))
            if isinstance(c.base, Bag):
                t = self._freeze(c, None)
                sh = c.base.shape
                return Seq(length(t), lambda i: self.sv_elem(t, i, sh), lambda x: mem(t, x))
            b = c.base
            if not c.suffix:
                return b
            suf = list(c.suffix)

            def at_(i):
                r = None
                base = b.at(i)
                tb = self.to_v(base)
                for n, s in enumerate(suf):
                    tb = z3.If(i == b.n + n, self.to_v(s), tb)
                return SV(tb)
            return Seq(b.n + len(suf), at_)
        raise Unsupported("as_seq")

    def nth(self, items, i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            n = i.as_long()
            if 0 <= n < len(items):
                return items[n]
        if not items:
            return SV(V.none)
        t = self.to_v(items[-1])
        for n in range(len(items) - 2, -1, -1):
            t = z3.If(i == n, self.to_v(items[n]), t)
        return SV(t)

    def sv_elem(self, t, i, shape):
        v = at(t, i)
        f = self.shape_facts(v, shape) if shape is not None else None
        if f is not None:
            self.fact(z3.Implies(z3.And(0 <= i, i < length(t)), f))
        return SV(v, shape)

    def content_mem(self, c):
        if isinstance(c, SSet):
            return c.memf
        if isinstance(c, LList):
            suf = [self.to_v(s) for s in c.suffix]
            if c.base is None:
                m0 = lambda x: z3.BoolVal(False)
            elif isinstance(c.base, Bag):
                m0 = c.base.memf
            elif c.base.memf is not None:
                m0 = c.base.memf
            else:
                b = c.base
                i = z3.Int(self.fresh_name("mi"))
                t = self.to_v_at(b, i)
                m0 = lambda x: z3.Exists([i], z3.And(0 <= i, i < b.n, t == x))
            return lambda x: disj([m0(x)] + [x == s for s in suf])
        if isinstance(c, DDict):
            return self.dict_fns(c)[0]
        raise Unsupported("membership")

    def mem_of(self, v):
        """membership predicate of a container value (V term -> Bool)"""
        if isinstance(v, Ref):
            return self.content_mem(self.heap[v.id])
        if isinstance(v, tuple):
            ts = [self.to_v(x) for x in v]
            return lambda x: disj([x == t for t in ts])
        if isinstance(v, SV):
            k = self.kind_of(v)
            if k == K_DICT:
                return lambda x: has(v.t, x)
            return lambda x: mem(v.t, x)
        if isinstance(v, View):
            return self.mem_of_view(v)
        raise Unsupported(f"container {v!r}")

    def mem_of_view(self, v):
        if v.what == "keys":
            return self.mem_of(v.obj)
        raise Unsupported(f"membership in {v.what}")

    def kind_of(self, v):
        """kind of a symbolic value; forks when unknown"""
        sh = v.shape
        if isinstance(sh, DictS):
            return K_DICT
        if isinstance(sh, ListS):
            return K_LIST
        if isinstance(sh, SetS):
            return K_SET
        if isinstance(sh, ObjS):
            return K_OBJ
        if isinstance(sh, (StrS,)):
            return "str"
        if isinstance(sh, IntS):
            return "int"
        if isinstance(sh, BoolS):
            return "bool"
        t = v.t
        al = shape_alts(sh)
        if al:
            ks = list(dict.fromkeys({DictS: K_DICT, ListS: K_LIST, SetS: K_SET, ObjS: K_OBJ, StrS: "str", IntS: "int", BoolS: "bool",
                                     NoneS: "none"}[type(s)] for s in al))
            if len(ks) == 1:
                return ks[0]
            g = {"none": V.is_none(t), "bool": V.is_b(t), "int": V.is_i(t), "str": V.is_s(t)}
            return ks[self.choose([g[k] if k in g else z3.And(V.is_ref(t), kind(t) == k) for k in ks])]
        gs = [V.is_none(t), V.is_b(t), V.is_i(t), V.is_s(t), V.is_f(t), z3.And(V.is_ref(t), kind(t) == K_DICT),
              z3.And(V.is_ref(t), kind(t) == K_LIST), z3.And(V.is_ref(t), kind(t) == K_SET),
              z3.And(V.is_ref(t), kind(t) == K_TUPLE),
              z3.And(V.is_ref(t), kind(t) != K_DICT, kind(t) != K_LIST, kind(t) != K_SET, kind(t) != K_TUPLE)]
        return ["none", "bool", "int", "str", "fn", K_DICT, K_LIST, K_SET, K_TUPLE, K_OBJ][self.choose(gs)]

    def refined(self, v, k):
        """shape to use for v once its kind is known to be k"""
        sh = v.shape
        for s in self._alts(sh):
            if (k == K_DICT and isinstance(s, DictS)) or (k == K_LIST and isinstance(s, ListS)) or \
                    (k == K_OBJ and isinstance(s, ObjS)) or (k == K_SET and isinstance(s, SetS)):
                return s
        return {K_DICT: DictS(), K_LIST: ListS(), K_SET: SetS(), K_OBJ: ObjS()}.get(k)

    def _alts(self, sh):
        if isinstance(sh, OptS):
            return self._alts(sh.inner)
        if isinstance(sh, OneOfS):
            return [y for s in sh.alts for y in self._alts(s)]
        return [sh]

    # ---------------------------------------------------------------- truth, equality, order
    def truth(self, v):
        """python bool or SB"""
        if isinstance(v, (bool, SB)):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, tuple)):
            return bool(v)
        if isinstance(v, SI):
            return SB(v.t != 0)
        if isinstance(v, (Fn, Ext, Real, Bound)):
            return True
        if isinstance(v, SV):
            return SB(self.truth_term(v))
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, LList):
                if c.suffix:
                    return True
                if c.base is None:
                    return False
                if isinstance(c.base, Seq):
                    return SB(c.base.n > 0)
                if c.base.nonempty is not None:
                    return SB(c.base.nonempty)
                return SB(self.nonempty(c.base.memf))
            if isinstance(c, SSet):
                if c.universe is not None:
                    return SB(disj([c.memf(self.to_v(u)) for u in c.universe]))
                return SB(self.nonempty(c.memf))
            if isinstance(c, DDict):
                if c.base is None and all(is_atom(k) for k, _, _ in c.writes):
                    last = {k: p for k, v2, p in c.writes}
                    if any(p is True for p in last.values()):
                        return True
                    return SB(disj([self.zb(p) for p in last.values()])) if last else False
                return SB(self.nonempty(self.dict_fns(c)[0]))
            if isinstance(c, HObj):
                for nm in ("__bool__", "__len__"):
                    if c.cls is not None and isinstance(c.cls, type) and hasattr(c.cls, nm):
                        r = self.call(self.getattr(v, nm), [], {})
                        return self.truth(r)
                return True
        if isinstance(v, View):
            return self.truth(v.obj) if v.what in ("keys", "items", "values") else self.truth_seq(v)
        raise Unsupported(f"truth of {v!r}")

    def truth_seq(self, v):
        it = self.iterate(v)
        if it[0] == "conc":
            return bool(it[1])
        if it[0] == "seq":
            return SB(it[1].n > 0)
        return SB(disj([g for _, g in it[1]]))

    def nonempty(self, memf):
        x = z3.Const(self.fresh_name("ne"), V)
        return z3.Exists([x], memf(x))

    def truth_term(self, v):
        t = v.t
        return z3.simplify(z3.If(V.is_none(t), False, z3.If(V.is_b(t), V.bv(t), z3.If(
            V.is_i(t), V.iv(t) != 0, z3.If(V.is_s(t), V.sv(t) != 0, z3.If(
                z3.And(V.is_ref(t), z3.Or(kind(t) == K_DICT, kind(t) == K_LIST, kind(t) == K_SET, kind(t) == K_TUPLE)),
                length(t) > 0, True)))))) if v.shape is None else z3.simplify(self._truth_shaped(t, v.shape))

    def _truth_shaped(self, t, sh):
        if isinstance(sh, StrS):
            return V.sv(t) != 0
        if isinstance(sh, IntS):
            return V.iv(t) != 0
        if isinstance(sh, BoolS):
            return V.bv(t)
        if isinstance(sh, (DictS, ListS, SetS)):
            return length(t) > 0
        if isinstance(sh, ObjS):
            return z3.BoolVal(True)
        if isinstance(sh, OptS):
            return z3.And(z3.Not(V.is_none(t)), self._truth_shaped(t, sh.inner))
        return self.truth_term(SV(t))

    def eq(self, a, b):
        """python bool or SB"""
        if is_atom(a) and is_atom(b):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        if isinstance(a, View):
            a = self.view_ref(a)
        if isinstance(b, View):
            b = self.view_ref(b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.eq_ref(a, b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return False
                r = [self.eq(x, y) for x, y in zip(a, b)]
                return self.and_all(r)
            if not (isinstance(a, SV) or isinstance(b, SV)):
                return False
        if isinstance(a, Real) and isinstance(b, Real):
            return a.obj is b.obj
        e = z3.simplify(self.to_v(a) == self.to_v(b))
        return True if z3.is_true(e) else False if z3.is_false(e) else SB(e)

    def and_all(self, l):
        if any(x is False for x in l):
            return False
        l = [self.zb(x) for x in l if x is not True]
        return SB(conj(l)) if l else True

    def eq_ref(self, a, b):
        if not isinstance(a, Ref):
            a, b = b, a
        ca = self.heap[a.id]
        if isinstance(b, Ref):
            cb = self.heap[b.id]
            if isinstance(ca, HObj) or isinstance(cb, HObj):
                return a == b
            if type(ca) is not type(cb):
                return False
            if isinstance(ca, SSet):
                if ca.universe is not None and cb.universe is not None:
                    u = list(ca.universe) + [x for x in cb.universe if x not in ca.universe]
                    return SB(z3.simplify(conj([ca.memf(self.to_v(x)) == cb.memf(self.to_v(x)) for x in u])))
                x = z3.Const(self.fresh_name("x"), V)
                return SB(z3.ForAll([x], ca.memf(x) == cb.memf(x)))
            if isinstance(ca, DDict) and ca.base is None and cb.base is None and \
                    all(is_atom(k) for k, _, _ in ca.writes + cb.writes):
                r = []
                for k in {k for k, _, _ in ca.writes + cb.writes}:
                    pa, va = self.dlookup_content(ca, k)
                    pb, vb = self.dlookup_content(cb, k)
                    if pa is False and pb is False:
                        continue
                    pe = z3.simplify(self.zb(pa) == self.zb(pb))
                    r.append(SB(pe))
                    if z3.is_false(pe):
                        return False
                    r.append(SB(z3.Implies(self.zb(pa), self.zb(self.eq(va, vb)))))
                return self.and_all(r)
            if isinstance(ca, LList) and ca.base is None and cb.base is None:
                if len(ca.suffix) != len(cb.suffix):
                    return False
                return self.and_all([self.eq(x, y) for x, y in zip(ca.suffix, cb.suffix)])
        if isinstance(b, SV):
            empty = (isinstance(ca, LList) and ca.base is None and not ca.suffix) or \
                    (isinstance(ca, DDict) and ca.base is None and not ca.writes)
            if empty:
                kn = K_LIST if isinstance(ca, LList) else K_DICT
                return SB(z3.And(V.is_ref(b.t), kind(b.t) == kn, length(b.t) == 0))
        if is_atom(b) or isinstance(b, (SI, SB)):
            return False
        # general: equality of values
        x = z3.Const(self.fresh_name("x"), V)
        if isinstance(ca, DDict):
            h, g = self.dict_fns(ca)
            if isinstance(b, SV):
                return SB(z3.And(V.is_ref(b.t), kind(b.t) == K_DICT,
                                 z3.ForAll([x], z3.And(has(b.t, x) == h(x), z3.Implies(h(x), get(b.t, x) == g(x))))))
            h2, g2 = self.dict_fns(cb)
            return SB(z3.ForAll([x], z3.And(h2(x) == h(x), z3.Implies(h(x), g2(x) == g(x)))))
        if isinstance(ca, SSet) and isinstance(b, SV):
            return SB(z3.And(V.is_ref(b.t), kind(b.t) == K_SET, z3.ForAll([x], mem(b.t, x) == ca.memf(x))))
        if isinstance(ca, LList):
            if isinstance(ca.base, Bag) or (isinstance(b, Ref) and isinstance(cb.base, Bag)):
                return SB(self.to_v(a) == self.to_v(b))
            i = z3.Int(self.fresh_name("i"))
            s = self.as_seq_content(ca)
            if isinstance(b, SV):
                return SB(z3.And(V.is_ref(b.t), kind(b.t) == K_LIST, length(b.t) == s.n,
                                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), at(b.t, i) == self.to_v_at(s, i)))))
            s2 = self.as_seq_content(cb)
            return SB(z3.And(s.n == s2.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n),
                                                                   self.to_v_at(s2, i) == self.to_v_at(s, i)))))
        raise Unsupported("eq")

    def contains(self, item, cont):
        if isinstance(cont, str):
            if isinstance(item, str):
                return item in cont
            return SB(z3.Function("substr", V, V, B)(self.to_v(item), self.to_v(cont)))
        if isinstance(cont, Ref):
            c = self.heap[cont.id]
            if isinstance(c, HObj):
                m = self.lookup_class(c.cls, "__contains__")
                if m is None:
                    raise Unsupported("in object")
                return self.truth(self.call(self.bind(m, cont), [item], {}))
            if isinstance(c, DDict):
                return self.sbool(self.dlookup_content(c, item)[0])
            if isinstance(c, LList) and c.base is None:
                return self.or_all([self.eq(item, x) for x in c.suffix])
            if isinstance(c, SSet) and c.universe is not None and is_atom(item) and item not in c.universe:
                return False
            return self.sbool(self.content_mem(c)(self.to_v(item)))
        if isinstance(cont, tuple):
            return self.or_all([self.eq(item, x) for x in cont])
        if isinstance(cont, SV):
            k = self.kind_of(cont)
            if k == K_DICT:
                return self.sbool(has(cont.t, self.to_v(item)))
            if k in (K_LIST, K_SET, K_TUPLE):
                return self.sbool(mem(cont.t, self.to_v(item)))
            if k == "str":
                return SB(z3.Function("substr", V, V, B)(self.to_v(item), cont.t))
            if k == K_OBJ:
                return self.obj_contains(item, cont)
            raise PyRaise(ExcVal(TypeError))
        if isinstance(cont, View):
            if cont.what == "keys":
                return self.contains(item, cont.obj)
            return self.contains(item, self.view_ref(cont))
        raise Unsupported(f"in {cont!r}")

    def obj_contains(self, item, cont):
        raise Unsupported("in object")

    def sbool(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        return True if z3.is_true(e) else False if z3.is_false(e) else SB(e)

    def or_all(self, l):
        if any(x is True for x in l):
            return True
        l = [self.zb(x) for x in l if x is not False]
        return SB(disj(l)) if l else False

    def not_(self, v):
        v = self.truth(v)
        if isinstance(v, bool):
            return not v
        return SB(z3.Not(v.t))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq_dispatch(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_(self.eq_dispatch(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = self.eq(a, b) if not (isinstance(a, (Ref, tuple, View)) or isinstance(b, (Ref, tuple, View))) else False
                if isinstance(a, (Fn, Ext, Real)) or isinstance(b, (Fn, Ext, Real)):
                    r = False
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a == b
            elif isinstance(a, Real) and isinstance(b, Real):
                r = a.obj is b.obj
            elif self.same_list(a, b):
                # two elements of a list: the same object when it is the same position
                self.assumptions.add("the elements of an input list are distinct objects")
                r = SB(z3.simplify(a.t.arg(1) == b.t.arg(1)))
            else:
                # identity of immutable values: approximated by equality (value domain)
                self.assumptions.add("object identity of values is treated as equality")
                r = self.eq(a, b)
            return self.not_(r) if isinstance(op, ast.IsNot) else r
        if is_atom(a) and is_atom(b) and type(a) is type(b):
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        for v in (a, b):
            if v is None or isinstance(v, str):
                raise PyRaise(ExcVal(TypeError))
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.heap[a.id], SSet):
            if isinstance(op, ast.LtE):
                return self.subset(a, b)
            if isinstance(op, ast.GtE):
                return self.subset(b, a)
            raise Unsupported("proper subset")
        x, y = self.zi(a), self.zi(b)
        e = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        return self.sbool(e)

    def eq_dispatch(self, a, b):
        return self.eq(a, b)

    def subset(self, a, b):
        ua = self.universe_of(a)
        ma, mb = self.mem_of(a), self.mem_of(b)
        if ua is not None:
            return self.sbool(conj([z3.Implies(ma(self.to_v(u)), mb(self.to_v(u))) for u in ua]))
        x = z3.Const(self.fresh_name("x"), V)
        return SB(z3.ForAll([x], z3.Implies(ma(x), mb(x))))

    def universe_of(self, v):
        """finite list of native atoms that covers the members, or None"""
        if isinstance(v, tuple) and all(is_atom(x) for x in v):
            return list(v)
        if isinstance(v, View) and v.what == "keys":
            return self.universe_of(v.obj)
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, SSet):
                return c.universe
            if isinstance(c, LList) and c.base is None and all(is_atom(x) for x in c.suffix):
                return list(dict.fromkeys(c.suffix))
            if isinstance(c, DDict) and c.base is None and all(is_atom(k) for k, _, _ in c.writes):
                return list(dict.fromkeys(k for k, _, _ in c.writes))
        return None

    def same_list(self, a, b):
        return all(isinstance(v, SV) and isinstance(v.shape, (DictS, ListS)) and z3.is_app(v.t) and v.t.decl().name() == "at" for v in (a, b)) and \
            a.t.arg(0).eq(b.t.arg(0))

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        """('conc', [values]) | ('fin', [(value, guard)]) | ('seq', Seq)"""
        if isinstance(v, tuple):
            return ("conc", list(v))
        if isinstance(v, str):
            return ("conc", list(v))
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, LList):
                if c.base is None:
                    return ("conc", list(c.suffix))
                return ("seq", self.as_seq_content(c))
            if isinstance(c, SSet):
                if c.universe is not None:
                    return ("fin", [(u, z3.simplify(c.memf(self.to_v(u)))) for u in c.universe])
                t = self.to_v(v)
                self.members(t, c.memf)
                return ("seq", self.set_seq(t, c.shape))
            if isinstance(c, DDict):
                return self.iter_dict(v, c, "keys")
            if isinstance(c, HObj):
                m = self.lookup_class(c.cls, "__iter__")
                if m is not None:
                    return self.iterate(self.call(self.bind(m, v), [], {}))
        if isinstance(v, SV):
            k = self.kind_of(v)
            sh = self.refined(v, k)
            if k == K_DICT:
                return self.iter_dict(v, DDict(v.t, (), sh), "keys")
            if k in (K_LIST, K_SET, K_TUPLE):
                el = getattr(sh, "elem", None)
                t = v.t
                if k == K_SET:
                    return ("seq", self.set_seq(t, el))
                sq = Seq(length(t), lambda i: self.sv_elem(t, i, el), lambda x: mem(t, x))
                if k == K_LIST:
                    sq.term = t
                return ("seq", sq)
            raise PyRaise(ExcVal(TypeError))
        if isinstance(v, View):
            return v.iterate(self)
        raise Unsupported(f"iterate {v!r}")

    def members(self, t, memf):
        """what a computed set contains is in its enumeration: a consequence of the embedding, stated where membership of the parts is known"""
        x = z3.Const("x", V)
        f = memf(x)
        pats, todo = {}, [f]
        while todo and len(pats) <= 4:
            e = todo.pop()
            if z3.is_quantifier(e):
                continue
            if z3.is_app(e):
                if e.decl().name() in ("mem", "has") and e.num_args() == 2 and e.arg(1).eq(x) and not z3.is_app_of(e.arg(0), z3.Z3_OP_ITE):
                    pats[e.get_id()] = e
                else:
                    todo += e.children()
        for e in list(pats.values())[:4]:
            self.fact(z3.ForAll([x], z3.Implies(f, z3.And(mem(t, x), 0 <= idx(t, x), idx(t, x) < length(t), at(t, idx(t, x)) == x)), patterns=[e]))

    def set_seq(self, t, elem):
        """a set is iterated in some order, each element once"""
        i = z3.Int("i")
        self.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < length(t)), idx(t, at(t, i)) == i), patterns=[at(t, i)]))
        sq = Seq(length(t), lambda n: self.sv_elem(t, n, elem), lambda x: mem(t, x))
        sq.done = lambda k, x: z3.And(mem(t, x), idx(t, x) < k)
        return sq

    def iter_dict(self, obj, c, what):
        def pick(k, val):
            return k if what == "keys" else val if what == "values" else (k, val)
        if c.base is None and all(is_atom(k) for k, _, _ in c.writes):
            last = {}
            for k, v, p in c.writes:
                last[k] = (v, p)
            if all(p is True for v, p in last.values()):
                return ("conc", [pick(k, v) for k, (v, p) in last.items()])
            return ("fin", [(pick(k, v), self.zb(p)) for k, (v, p) in last.items() if p is not False])
        if c.base is not None and not isinstance(c.base, tuple) and not c.writes:
            t = c.base
        else:
            if isinstance(obj, Ref):
                t = self.to_v(obj)
            else:
                raise Unsupported("iter dict")
        i, x = z3.Int("i"), z3.Const("x", V)
        self.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < length(t)), z3.And(has(t, keyat(t, i)),
                                                                                 keyidx(t, keyat(t, i)) == i)),
                            patterns=[keyat(t, i)]))
        self.fact(z3.ForAll([x], z3.Implies(has(t, x), z3.And(0 <= keyidx(t, x), keyidx(t, x) < length(t),
                                                              keyat(t, keyidx(t, x)) == x)), patterns=[has(t, x)]))
        sh = c.shape

        def at_(i):
            kt = keyat(t, i)
            ks = getattr(sh, "keys", None)
            g = z3.And(0 <= i, i < length(t))
            if ks is not None:
                f = self.shape_facts(kt, ks)
                if f is not None:
                    self.fact(z3.Implies(g, f))
            k = SV(kt, ks)
            if what == "keys":
                return k
            self.fact(z3.Implies(g, has(t, kt)))
            d = sh.default if sh is not None else None
            vt = get(t, kt)
            if d is not None:
                f = self.shape_facts(vt, d)
                if f is not None:
                    self.fact(z3.Implies(g, f))
            return pick(k, SV(vt, d))
        sq = Seq(length(t), at_, (lambda x: has(t, x)) if what == "keys" else None)
        sq.over = t
        sq.done = lambda k, x: z3.And(has(t, x), keyidx(t, x) < k)
        return ("seq", sq)

    def seq_of(self, v):
        it = self.iterate(v)
        if it[0] == "conc":
            items = it[1]
            return Seq(z3.IntVal(len(items)), lambda i: self.nth(items, i))
        if it[0] == "seq":
            return it[1]
        # finite set with guards: as list with unknown order -> Bag
        t = self.fresh("fin", V)
        x = z3.Const("x", V)
        self.fact(z3.And(V.is_ref(t), kind(t) == K_LIST))
        self.fact(z3.ForAll([x], mem(t, x) == disj([z3.And(g, x == self.to_v(e)) for e, g in it[1]]), patterns=[mem(t, x)]))
        return Seq(length(t), lambda i: self.sv_elem(t, i, None), lambda x: mem(t, x))

    def listref(self, items):
        return self.alloc(LList(None, items))

    def view_ref(self, v):
        it = v.iterate(self)
        if it[0] == "conc":
            return self.listref(it[1])
        if it[0] == "seq":
            return self.alloc(LList(it[1]))
        s = self.seq_of(v)
        return self.alloc(LList(s))

    def to_list(self, v):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, LList):
                return self.alloc(LList(c.base, c.suffix))
            if isinstance(c, SSet):
                if c.universe is not None and not all(z3.is_true(z3.simplify(c.memf(self.to_v(u)))) or
                                                      z3.is_false(z3.simplify(c.memf(self.to_v(u)))) for u in c.universe):
                    return self.alloc(LList(Bag(c.memf, disj([c.memf(self.to_v(u)) for u in c.universe]), None, True)))
                if c.universe is not None:
                    return self.listref([u for u in c.universe if z3.is_true(z3.simplify(c.memf(self.to_v(u))))])
                return self.alloc(LList(Bag(c.memf, None, c.shape, True)))
        it = self.iterate(v)
        if it[0] == "conc":
            return self.listref(it[1])
        if it[0] == "fin":
            el = [(self.to_v(e), g) for e, g in it[1]]
            return self.alloc(LList(Bag(lambda x: disj([z3.And(g, x == e) for e, g in el]), disj([g for _, g in el]))))
        return self.alloc(LList(it[1]))

    def to_set(self, v):
        u = self.universe_of(v)
        sh = None
        if isinstance(v, SV) and isinstance(v.shape, (ListS, SetS)):
            sh = v.shape.elem
        if isinstance(v, str):
            return self.to_set(tuple(v))
        if isinstance(v, View) and v.what != "keys":
            it = self.iterate(v)
            if it[0] == "conc":
                return self.to_set(self.listref(it[1]))
            v = self.view_ref(v)
        if isinstance(v, SV):
            k = self.kind_of(v)
            if k == "str":
                f = z3.Function("chars", V, V, B)
                t = v.t
                return self.alloc(SSet(lambda x: f(t, x)))
            if k not in (K_DICT, K_LIST, K_SET, K_TUPLE):
                raise PyRaise(ExcVal(TypeError))
            self.hashable_elems(v, k)
        elif v is None or isinstance(v, (bool, int, SI, SB)):
            raise PyRaise(ExcVal(TypeError))
        m = self.mem_of(v)
        return self.alloc(SSet(m, u, shape=sh))

    def hashable_elems(self, v, k):
        pass

    # ---------------------------------------------------------------- names / lifting
    def lift(self, obj, name=""):
        if is_atom(obj):
            return obj
        if isinstance(obj, float):
            return obj
        key = self.objname(obj)
        if key in self.overrides:
            o = self.overrides[key]
            return o if not callable(o) or isinstance(o, (Ext, Fn, Real, Ref, SV)) else Ext(key, o)
        if isinstance(obj, types.FunctionType):
            return self.fn_of(obj)
        if isinstance(obj, (type, types.ModuleType, types.BuiltinFunctionType)):
            return Real(obj)
        if isinstance(obj, (list, tuple, set, frozenset, dict)):
            return self.lift_data(obj)
        return Real(obj)

    def lift_data(self, obj):
        if isinstance(obj, tuple):
            return tuple(self.lift(x) for x in obj)
        if isinstance(obj, list):
            return self.alloc(LList(None, [self.lift(x) for x in obj]))
        if isinstance(obj, (set, frozenset)):
            items = sorted(obj, key=str)
            ts = [self.to_v(x) for x in items]
            return self.alloc(SSet(lambda x: disj([x == t for t in ts]), items))
        if isinstance(obj, dict):
            return self.alloc(DDict(None, [(k, self.lift(v), True) for k, v in obj.items()]))
        raise Unsupported("lift")

    def objname(self, obj):
        if isinstance(obj, types.ModuleType):
            return obj.__name__
        m = getattr(obj, "__module__", None)
        q = getattr(obj, "__qualname__", None)
        if q is None:
            return None
        return f"{m}.{q}"

    def fn_of(self, func, self_=None, cls=None):
        func = inspect.unwrap(func) if not isinstance(func, types.FunctionType) else func
        if not (func.__module__ or "").split(".")[0] == self.package:
            return Real(func)
        node = SOURCES.node(func)
        clo = None
        if func.__closure__:
            clo = {n: self.lift(c.cell_contents) for n, c in zip(func.__code__.co_freevars, func.__closure__)
                   if n != "__class__"}
            cls = cls or next((c.cell_contents for n, c in zip(func.__code__.co_freevars, func.__closure__)
                               if n == "__class__"), None)
        return Fn(node, func.__globals__, func.__qualname__, func.__module__, self_, clo, cls)

    def lookup_class(self, cls, name):
        if cls is None or not isinstance(cls, type):
            return None
        for k in cls.__mro__:
            if name in k.__dict__:
                return (k, k.__dict__[name])
        return None

    def bind(self, found, self_val):
        k, m = found
        key = f"{k.__module__}.{k.__qualname__}.{getattr(m, '__name__', '')}"
        if isinstance(m, staticmethod):
            f = m.__func__
            key = f"{f.__module__}.{f.__qualname__}"
            if key in self.overrides:
                return Ext(key, self.overrides[key])
            return self.fn_of(f)
        if isinstance(m, classmethod):
            raise Unsupported("classmethod")
        if isinstance(m, types.FunctionType):
            key = f"{m.__module__}.{m.__qualname__}"
            if key in self.overrides:
                h = self.overrides[key]
                return Ext(key, lambda ip, a, kw: h(ip, [self_val] + list(a), kw))
            f = self.fn_of(m)
            if isinstance(f, Fn):
                f = f.bind(self_val)
                f.cls = k
                return f
            if key in self.contracts:
                self.functions_seen.add(key + " (assumed contract)")
                h = self.contracts[key]
                return Ext(key, lambda ip, a, kw: h(ip, [self_val] + list(a), kw))
            raise Unsupported(f"external method {key}")
        if isinstance(m, property):
            f = self.fn_of(m.fget)
            if not isinstance(f, Fn):
                raise Unsupported(f"external property {key}")
            return self.call(f.bind(self_val), [], {})
        return self.lift(m)

    def name(self, n):
        fr = self.frames[-1]
        if n in fr.vars:
            return self.bound(n, fr.vars[n])
        c = fr.closure
        while c:
            if n in c:
                return c[n]
            c = c.get("__parent__")
        if n in fr.glob:
            obj = fr.glob[n]
            return self.lift(obj, n)
        if hasattr(_bi, n):
            return Real(getattr(_bi, n))
        raise PyRaise(ExcVal(NameError))


class NoMerge(Exception):
    pass


class Bound:
    """method of a modelled builtin value"""

    def __init__(self, obj, name): self.obj, self.name = obj, name
    def __repr__(self): return f"Bound({self.obj!r}.{self.name})"


class View:
    """lazy iterable: keys/values/items of a dict, zip, enumerate, reversed, range, slice"""

    def __init__(self, what, obj, *args): self.what, self.obj, self.args = what, obj, args

    def iterate(self, ip):
        w = self.what
        if w in ("keys", "values", "items"):
            o = self.obj
            if isinstance(o, Ref):
                return ip.iter_dict(o, ip.heap[o.id], w)
            return ip.iter_dict(o, DDict(o.t, (), ip.refined(o, K_DICT)), w)
        if w == "zip":
            its = [ip.iterate(x) for x in self.obj]
            if all(i[0] == "conc" for i in its):
                return ("conc", [tuple(x) for x in zip(*[i[1] for i in its])])
            ss = [ip.seq_of(x) for x in self.obj]
            n = ss[0].n
            for s in ss[1:]:
                n = z3.If(s.n < n, s.n, n)
            return ("seq", Seq(z3.simplify(n), lambda i: tuple(s.at(i) for s in ss)))
        if w == "enumerate":
            it = ip.iterate(self.obj)
            st = self.args[0] if self.args else 0
            if it[0] == "conc":
                return ("conc", [(n + st, x) for n, x in enumerate(it[1])])
            s = ip.seq_of(self.obj)
            return ("seq", Seq(s.n, lambda i: (SI(i + st), s.at(i))))
        if w == "reversed":
            it = ip.iterate(self.obj)
            if it[0] == "conc":
                return ("conc", list(reversed(it[1])))
            s = ip.seq_of(self.obj)
            return ("seq", Seq(s.n, lambda i: s.at(s.n - 1 - i), s.memf))
        if w == "range":
            lo, hi = self.obj, self.args[0]
            if isinstance(lo, int) and isinstance(hi, int):
                return ("conc", list(range(lo, hi)))
            lo, hi = ip.zi(lo), ip.zi(hi)
            n = z3.simplify(z3.If(hi > lo, hi - lo, 0))
            return ("seq", Seq(n, lambda i: SI(z3.simplify(lo + i))))
        if w == "seq":
            return ("seq", self.obj)
        if w == "conc":
            return ("conc", self.obj)
        raise Unsupported(w)
