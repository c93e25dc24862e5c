"""Loops over sequences of unknown length.

State at the start of iteration k is given by functions of k ("cells") for everything the body changes.
The body is explored once for an arbitrary k with 0 <= k < n.  From its outcomes follow
  * the step relation  cells(k) -> cells(k+1)  of iterations that complete,
  * closed forms of accumulators (lists appended to, sets, dictionaries, flags), checked before use,
  * inductive invariants: candidates are kept only if the solver proves base case and preservation.
The loop then ends either exhausted (every index completed) or at some k with one of the early exits.
"""
import time

import z3

from .values import *
from .engine import *
from .engine import _Break, _Continue, _Return


def subst(e, k, j):
    return z3.substitute(e, (k, j))


def same(a, b):
    if a is b:
        return True
    if is_atom(a) and is_atom(b):
        return type(a) is type(b) and a == b
    if isinstance(a, (SV, SI, SB)) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


class Cell:
    """a variable (frame, name), object field (ref, field) or container content (ref)"""

    def __init__(self, ip, where, tag, name):
        self.where, self.tag, self.name = where, tag, name
        f = ip.fresh_fn
        self.keys = None
        self.universe = None
        self.shape = None
        if tag in ("i", "b", "v"):
            self.f = f(name, I, {"i": I, "b": B, "v": V}[tag])
        elif tag in ("list", "nlist"):
            self.len = f(name + "_len", I, I)
            self.at = f(name + "_at", I, I, V)
            self.mem = f(name + "_mem", I, V, B)
        elif tag in ("set", "nset"):
            self.mem = f(name + "_mem", I, V, B)
        elif tag in ("dict", "ndict"):
            self.mem = f(name + "_has", I, V, B)
            self.get = f(name + "_get", I, V, V)
        elif tag == "fdict":
            self.p, self.v = {}, {}

    def value(self, k):
        if self.tag == "i":
            return SI(self.f(k))
        if self.tag == "b":
            return SB(self.f(k))
        if self.tag == "v":
            return SV(self.f(k), self.shape)
        if self.tag == "undef":
            return UNDEF
        raise Unsupported("cell value")

    def content(self, ip, k):
        if self.tag == "list":
            return LList(Seq(self.len(k), lambda i: SV(self.at(k, i), self.shape), lambda x: self.mem(k, x)))
        if self.tag == "set":
            return SSet(lambda x: self.mem(k, x), self.universe)
        if self.tag == "dict":
            return DDict((lambda x: self.mem(k, x), lambda x: self.get(k, x)), (), self.shape)
        if self.tag == "fdict":
            return DDict(None, [(key, SV(self.v[key](k)), SB(self.p[key](k)).t) for key in self.keys], None)
        raise Unsupported("cell content")


def join_tag(vals):
    if any(isinstance(v, Undef) for v in vals):
        return "undef"
    if all(isinstance(v, (bool, SB)) for v in vals):
        return "b"
    if all((isinstance(v, (int, SI)) and not isinstance(v, bool)) or (isinstance(v, SV) and isinstance(v.shape, IntS))
           for v in vals):
        return "i"
    return "v"


def same_shape(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (StrS, BoolS)))


def shape_of(v):
    if isinstance(v, SV):
        return v.shape
    if v is None:
        return NoneS()
    if isinstance(v, (bool, SB)):
        return BoolS()
    if isinstance(v, (int, SI)):
        return IntS()
    return StrS() if isinstance(v, str) else None


def conforms(v, shape):
    """the value has what the shape says"""
    a, b = shape_alts(shape_of(v)), shape_alts(shape)
    if a is None or b is None:
        return b is None
    return all(any(x is y or (type(x) is type(y) and (isinstance(y, (NoneS, StrS, BoolS)) or isinstance(y, IntS) and y.lo is None)) for y in b) for x in a)


def joined_shape(v0, v1):
    """a shape both values have, or None"""
    a, b = shape_alts(shape_of(v0)), shape_alts(shape_of(v1))
    if a is None or b is None:
        return None
    out = list(a)
    for y in b:
        if not any(x is y or (type(x) is type(y) and isinstance(y, (NoneS, StrS, BoolS))) for x in out):
            out.append(y)
    if len({type(x) for x in out}) != len(out):         # two different shapes of one kind
        return None
    return out[0] if len(out) == 1 else OneOfS(*out)


class Loop:
    def __init__(self, ip, seq, bind, body, orelse, node):
        self.ip, self.seq, self.bind, self.body, self.orelse, self.node = ip, seq, bind, body, orelse, node
        self.n = z3.simplify(seq.n) if not isinstance(seq.n, int) else z3.IntVal(seq.n)
        self.cells = {}
        self.cands = None
        self.noshape = set()

    # -- state handling
    def install(self, k):
        ip = self.ip
        for c in self.cells.values():
            self.install_cell(c, k)

    def install_cell(self, c, k):
        ip = self.ip
        if c.where[0] == "var":
            fr = ip.frames[c.where[1]]
            if c.tag == "nref":
                return
            fr.vars[c.where[2]] = c.value(k)
        elif c.where[0] == "field":
            o = ip.heap[c.where[1]]
            ip.heap[c.where[1]] = HObj(o.cls, {**o.fields, c.where[2]: c.value(k)}, o.name, o.strict)
        else:
            ip.heap[c.where[1]] = c.content(ip, k)

    def entry_value(self, c):
        if c.where[0] == "var":
            return self.entry_vars[c.where[1]].get(c.where[2], UNDEF)
        if c.where[0] == "field":
            return self.entry_heap[c.where[1]].fields.get(c.where[2], UNDEF)
        return self.entry_heap[c.where[1]]

    def current(self, c):
        ip = self.ip
        if c.where[0] == "var":
            return ip.frames[c.where[1]].vars.get(c.where[2], UNDEF)
        if c.where[0] == "field":
            return ip.heap[c.where[1]].fields.get(c.where[2], UNDEF)
        return ip.heap[c.where[1]]

    def link(self, c, k, val, ref=None):
        """facts: cell c at index k has the given value/content (in the current state)"""
        ip = self.ip
        x, i = z3.Const("x", V), z3.Int("i")
        if c.tag == "undef":
            return []
        if c.tag == "i":
            return [c.f(k) == ip.zi(val)]
        if c.tag == "b":
            return [c.f(k) == ip.zb(val)]
        if c.tag == "v":
            return [c.f(k) == ip.to_v(val)]
        if c.tag == "list":
            out = []
            if isinstance(val.base, Bag) or (val.base is not None and getattr(val.base, "memf", None) is not None):
                m = ip.content_mem(val)
                out.append(z3.ForAll([x], c.mem(k, x) == m(x)))
            elif val.base is None:
                m = ip.content_mem(val)
                out.append(z3.ForAll([x], c.mem(k, x) == m(x)))
            if not isinstance(val.base, Bag):
                s = ip.as_seq_content(val)
                out.append(c.len(k) == s.n)
                if val.base is None:
                    for n, it in enumerate(val.suffix):
                        out.append(c.at(k, z3.IntVal(n)) == ip.to_v(it))
                else:
                    out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), c.at(k, i) == ip.to_v_at(s, i))))
            return out
        if c.tag == "set":
            return [z3.ForAll([x], c.mem(k, x) == val.memf(x))]
        if c.tag == "dict":
            h, g = ip.dict_fns(val)
            return [z3.ForAll([x], z3.And(c.mem(k, x) == h(x), z3.Implies(h(x), c.get(k, x) == g(x))))]
        if c.tag == "fdict":
            out = []
            for key in c.keys:
                p, v = ip.dlookup_content(val, key)
                out.append(c.p[key](k) == ip.zb(p))
                if p is not False:
                    out.append(z3.Implies(ip.zb(p), c.v[key](k) == ip.to_v(v)))
            return out
        raise Unsupported("link")

    # -- one exploration of the body
    def iteration(self):
        ip, k = self.ip, self.k
        ip.loop_ctx.append(k)
        self.install(k)
        elem = self.seq.at(k)
        self.bind(elem)
        try:
            self.body()
        except _Continue:
            pass
        # what changed, and the step facts of this path
        new = self.changes()
        facts = {}
        if not new:
            for key, c in self.cells.items():
                pc0 = len(ip.pc)
                facts[key] = self.link(c, k + 1, self.current(c))
                facts[key, "delta"] = self.deltas(c, self.current(c))
        return (new, facts)

    def deltas(self, c, val):
        """how an accumulator grew on this path"""
        ip = self.ip
        if c.tag == "list" and val.base is not None:
            if isinstance(val.base, Seq) and z3.simplify(val.base.n).eq(z3.simplify(c.len(self.k))):
                return ("append", [ip.to_v(s) for s in val.suffix])
        return None

    def changes(self):
        ip = self.ip
        new = []
        for fi, ev in enumerate(self.entry_vars):
            now = ip.frames[fi].vars
            for name in set(ev) | set(now):
                if name == "__exc__":
                    continue
                key = ("var", fi, name)
                v0 = ev.get(name, UNDEF)
                v1 = now.get(name, UNDEF)
                if key in self.cells:
                    c = self.cells[key]
                    if c.tag == "undef":
                        continue
                    t = join_tag([c.value(self.k), v1])
                    if t != c.tag and not (c.tag == "v"):
                        new.append((key, "v" if t != "undef" else "undef", v0, v1))
                    elif c.tag == "v" and not isinstance(v1, Undef) and c.shape is not None and not conforms(v1, c.shape):
                        self.noshape.add(key)
                        new.append((key, "v", v0, v1))
                    elif c.tag == "v" and isinstance(v1, Undef):
                        new.append((key, "undef", v0, v1))
                    continue
                if not same(v0, v1):
                    new.append((key, join_tag([v0, v1]), v0, v1))
        for rid, c0 in self.entry_heap.items():
            c1 = ip.heap.get(rid)
            key = ("slot", rid)
            if key in self.cells:
                c = self.cells[key]
                if c.tag == "fdict" and isinstance(c1, DDict):
                    if not (c1.base is None and all(is_atom(kk) for kk, _, _ in c1.writes)):
                        new.append((key, "dict", c0, c1))
                    else:
                        ks = [kk for kk, _, _ in c1.writes if kk not in c.keys]
                        if ks:
                            new.append((key, "fdict", c0, c1))
                if c.tag == "dict" and getattr(c, "derived", None) is not None and not (
                        isinstance(c1, DDict) and c1.shape is c.shape and
                        all(p is False or getattr(v, "shape", None) is c.shape.default for _, v, p in c1.writes)):
                    self.noshape.add(key)
                    new.append((key, "dict", c0, c1))
                elif c.tag == "dict" and c.shape is not None and not (isinstance(c1, DDict) and c1.shape is c.shape and self.fits(c1, c.shape)):
                    self.noshape.add(key)
                    new.append((key, "dict", c0, c1))
                if c.tag == "list" and getattr(c, "derived", None) is not None and not (
                        isinstance(c1, LList) and isinstance(c1.base, Seq) and z3.simplify(c1.base.n).eq(z3.simplify(c.len(self.k))) and
                        all(same_shape(getattr(v, "shape", None), c.shape) for v in c1.suffix)):
                    self.noshape.add(key)
                    new.append((key, "list", c0, c1))
                if c.tag == "set" and c.universe is not None:
                    if c1.universe is None or any(u not in c.universe for u in c1.universe):
                        new.append((key, "set", c0, c1))
                continue
            if c1 is c0:
                continue
            if getattr(c1, "frozen_term", None) is not None and self.same_content(c0, c1):
                continue
            if isinstance(c0, HObj):
                for f in set(c0.fields) | set(c1.fields):
                    v0, v1 = c0.fields.get(f, UNDEF), c1.fields.get(f, UNDEF)
                    fk = ("field", rid, f)
                    if fk not in self.cells:
                        if not same(v0, v1):
                            new.append((fk, join_tag([v0, v1]), v0, v1))
                        continue
                    c = self.cells[fk]
                    if c.tag == "undef":
                        continue
                    t = "undef" if isinstance(v1, Undef) else join_tag([c.value(self.k), v1])
                    if t != c.tag and (c.tag != "v" or t == "undef"):
                        new.append((fk, t, v0, v1))
                    elif c.tag == "v" and c.shape is not None and not conforms(v1, c.shape):
                        self.noshape.add(fk)
                        new.append((fk, "v", v0, v1))
                continue
            if isinstance(c0, LList):
                new.append((key, "list", c0, c1))
            elif isinstance(c0, SSet):
                new.append((key, "set", c0, c1))
            elif isinstance(c0, DDict):
                fin = all(c.base is None and all(is_atom(kk) for kk, _, _ in c.writes) for c in (c0, c1))
                new.append((key, "fdict" if fin else "dict", c0, c1))
            else:
                raise Unsupported("loop changes an unknown object")
        return new

    def same_content(self, a, b):
        if isinstance(a, LList) and isinstance(b, LList):
            return a.base is b.base and len(a.suffix) == len(b.suffix) and all(same(x, y) for x, y in zip(a.suffix, b.suffix))
        if isinstance(a, DDict) and isinstance(b, DDict):
            return a.base is b.base and len(a.writes) == len(b.writes) and \
                all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.writes, b.writes))
        if isinstance(a, SSet) and isinstance(b, SSet):
            return a.memf is b.memf
        return False

    def add_cell(self, key, tag, v0, v1):
        ip = self.ip
        name = "L" + "_".join(str(x) for x in key)
        old = self.cells.get(key)
        c = Cell(ip, key, tag, name)
        if tag == "fdict":
            ks = list(old.keys) if old is not None and old.keys else []
            for cc in (v0, v1):
                for kk, _, _ in cc.writes:
                    if kk not in ks:
                        ks.append(kk)
            c.keys = ks
            for kk in ks:
                c.p[kk] = ip.fresh_fn(f"{name}_p_{kk}", I, B)
                c.v[kk] = ip.fresh_fn(f"{name}_v_{kk}", I, V)
        if tag == "set":
            if v0.universe is not None and v1.universe is not None:
                us = list(old.universe or []) if old is not None else []
                for u in list(v0.universe) + list(v1.universe):
                    if u not in us:
                        us.append(u)
                c.universe = us if len(us) < 60 else None
        if tag == "dict":
            c.shape = v0.shape if key not in self.noshape and self.fits(v0, v0.shape) else None
            if v0.shape is None and key not in self.noshape:
                c.shape = c.derived = self.common_shape(v0, v1)
        if tag == "list" and key not in self.noshape and isinstance(v0, LList) and isinstance(v1, LList) and v0.base is None:
            shs = [getattr(v, "shape", None) for v in list(v0.suffix) + list(v1.suffix)]
            if shs and shs[0] is not None and all(same_shape(x, shs[0]) for x in shs):
                c.shape = c.derived = shs[0]
        if tag == "v":
            c.shape = joined_shape(v0, v1) if key not in self.noshape else None
        self.cells[key] = c

    def fits(self, d, sh):
        """what was written in the dictionary has what the shape says"""
        if not isinstance(sh, DictS):
            return sh is None
        for k, v, p in d.writes:
            if p is not True and sh.required and (not is_atom(k) or k in sh.required):
                return False
            if p is False:
                continue
            for x in ([sh.of(k)] if is_atom(k) else [sh.default] + list(sh.fields.values())):
                if not (self.container_fits(v, x) if isinstance(v, Ref) else conforms(v, x)):
                    return False
        return True

    def container_fits(self, v, sh):
        c = self.ip.heap[v.id]
        alts = shape_alts(sh)
        if alts is None:
            return True
        for y in alts:
            if isinstance(y, DictS) and isinstance(c, DDict) and (c.shape is y or c.base is None) and self.fits(c, y) and \
                    (c.base is not None or all(any(k == r and p is True for k, _, p in c.writes if is_atom(k)) for r in y.required)):
                return True
            if isinstance(y, ListS) and isinstance(c, LList) and (y.elem is None or c.base is None and all(not isinstance(v, Ref) and conforms(v, y.elem) for v in c.suffix)):
                return True
        return False

    def common_shape(self, v0, v1):
        """every value ever stored in this (new) dictionary has the same shape, so by induction each of them has it"""
        sh = None
        if v0.base is not None:
            return None
        for kk, v, p in list(v0.writes) + list(v1.writes):
            if p is False:
                continue
            s = getattr(v, "shape", None)
            if s is None or (sh is not None and s is not sh):
                return None
            sh = s
        return DictS({}, sh) if isinstance(sh, ObjS) else None

    # -- the whole loop
    def run(self):
        ip = self.ip
        n = self.n
        ip.fact(n >= 0)
        k = self.k = ip.fresh("k", I)
        # the analysis is the same each time this path is replayed
        ip.region_no += 1
        mkey = ("loop", ip.path_id(), ip.region_no)
        if mkey in ip.memo:
            (self.cells, self.invs, self.entry_vars, self.entry_heap, normal, exits, base_facts, ctr) = ip.memo[mkey]
            ip.next_ref, ip.next_fresh, ip.region_no = ctr
            return self.finish(normal, exits, base_facts)
        self.entry_vars = [dict(f.vars) for f in ip.frames]
        self.entry_heap = dict(ip.heap)
        self.bases = {}
        cands = {}
        dropped = set()
        for rnd in range(14):
            # candidates for the current cells
            cands = {l: p for l, p in self.candidates().items() if l not in dropped}
            base_facts = self.base_facts()
            self.filter_base(cands, dropped, base_facts)
            ip.solver.push()
            pc0 = len(ip.pc)
            ip.fact(z3.And(0 <= k, k < n))
            for f in base_facts:
                ip.fact(f)
            for p in cands.values():
                ip.fact(p(k))
            for c in self.cells.values():
                if c.tag == "list":             # the two views of a list agree
                    i = z3.Int("i")
                    ip.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.len(k)), c.mem(k, c.at(k, i))), patterns=[c.at(k, i)]))
            keep_bases = self.bases
            outs = ip.explore(self.iteration_with_bases)
            normal = [o for o in outs if o.comp[0] in ("normal", "continue")]
            exits = [o for o in outs if o.comp[0] in ("return", "break", "raise")]
            new = {}
            for o in normal:
                for key, tag, v0, v1 in o.comp[1][0]:
                    if key in new:
                        old = new[key]
                        t = tag if tag == old[0] else ("undef" if "undef" in (tag, old[0]) else "dict" if "dict" in (tag, old[0]) else "v")
                        new[key] = (t, v0, v1, old[2])
                    else:
                        new[key] = (tag, v0, v1)
            bad = []
            if not new:
                bad = self.preserved(cands, normal)
            del ip.pc[pc0:]
            ip.solver.pop()
            if new:
                for key, x in new.items():
                    self.add_cell(key, x[0], x[1], x[2])
                continue
            if bad:
                dropped.update(bad)
                continue
            break
        else:
            raise Unsupported("loop state did not stabilise")
        ip.loops_seen.append({"line": getattr(self.node, "lineno", None), "cells": len(self.cells),
                              "invariants": sorted(cands)})
        self.invs = cands
        ip.memo[mkey] = (self.cells, self.invs, self.entry_vars, self.entry_heap, normal, exits, base_facts,
                         (ip.next_ref, ip.next_fresh, ip.region_no))
        return self.finish(normal, exits, base_facts)

    def iteration_with_bases(self):
        # the content objects of list cells must be the same object on every path
        return self.iteration()

    def base_facts(self):
        out = []
        for c in self.cells.values():
            v0 = self.entry_value(c)
            if c.tag == "undef":
                continue
            out += self.link(c, z3.IntVal(0), v0)
        return out

    def filter_base(self, cands, dropped, base_facts):
        ip = self.ip
        if not cands:
            return
        ip.solver.push()
        for f in base_facts:
            ip.solver.add(f)
        for l in list(cands):
            if ip.check(z3.Not(cands[l](z3.IntVal(0))), ms=2000) != z3.unsat:
                dropped.add(l)
                del cands[l]
        ip.solver.pop()

    def preserved(self, cands, normal):
        ip, k = self.ip, self.k
        bad = []
        if not cands:
            return bad
        rel = self.step_facts_for(normal)
        for o, st in rel:
            ip.solver.push()
            for f in o.dec + o.facts + st:
                ip.solver.add(f)
            for l, p in cands.items():
                if l in bad:
                    continue
                r = ip.check(z3.Not(p(k + 1)), ms=3000)
                if r == z3.unknown and ip.prove_by_instances(z3.simplify(p(k + 1)), 3000, o.dec + o.facts + st):
                    continue
                if r != z3.unsat:
                    bad.append(l)
            ip.solver.pop()
        return bad

    def step_facts_for(self, normal):
        return [(o, [f for key, fs in o.comp[1][1].items() if not (isinstance(key, tuple) and key[-1] == "delta") for f in fs])
                for o in normal]

    def candidates(self):
        ip = self.ip
        out = {}
        K0 = z3.IntVal(0)
        for key, c in self.cells.items():
            nm = c.name
            if c.tag == "v":
                f = c.f
                out[nm + ":none"] = lambda k, f=f: V.is_none(f(k))
                for lab, pr in [("str", V.is_s), ("int", V.is_i), ("bool", V.is_b),
                                ("list", lambda t: z3.And(V.is_ref(t), kind(t) == K_LIST)),
                                ("dict", lambda t: z3.And(V.is_ref(t), kind(t) == K_DICT))]:
                    out[f"{nm}:{lab}"] = lambda k, f=f, pr=pr: pr(f(k))
                    out[f"{nm}:opt{lab}"] = lambda k, f=f, pr=pr: z3.Or(V.is_none(f(k)), pr(f(k)))
            if c.tag == "i":
                f = c.f
                out[nm + ":nonneg"] = lambda k, f=f: f(k) >= 0
                out[nm + ":nonneg1"] = lambda k, f=f: z3.Or(k == 0, f(k) >= 0)
                out[nm + ":same0"] = lambda k, f=f: z3.Or(k > 0, f(k) == f(z3.IntVal(0)))
            if c.tag == "list":
                out[nm + ":len"] = lambda k, c=c: c.len(k) >= 0
            if c.tag == "fdict":
                for kk in c.keys:
                    out[f"{nm}[{kk}]:present"] = lambda k, c=c, kk=kk: c.p[kk](k)
                    f = c.v[kk]
                    for lab, pr in [("str", V.is_s), ("int", V.is_i),
                                    ("list", lambda t: z3.And(V.is_ref(t), kind(t) == K_LIST)),
                                    ("dict", lambda t: z3.And(V.is_ref(t), kind(t) == K_DICT))]:
                        out[f"{nm}[{kk}]:{lab}"] = lambda k, f=f, pr=pr: pr(f(k))
                        out[f"{nm}[{kk}]:opt{lab}"] = lambda k, f=f, pr=pr: z3.Or(V.is_none(f(k)), pr(f(k)))
            if c.tag == "dict":
                x = z3.Const("x", V)
                d = getattr(self.seq, "over", None)
                done = (lambda k: self.seq.done(k, x)) if getattr(self.seq, "done", None) else (lambda k: z3.BoolVal(False))
                m, g = c.mem, c.get
                if d is not None:
                    out[nm + ":copied"] = lambda k, m=m, g=g, d=d, done=done: z3.ForAll([x], z3.Implies(
                        done(k), z3.And(m(k, x), g(k, x) == get(d, x))), patterns=[m(k, x), has(d, x)])
                    out[nm + ":copies"] = lambda k, m=m, g=g, d=d, done=done: z3.ForAll([x], z3.Implies(
                        z3.And(m(k, x), z3.Not(m(K0, x))), z3.And(done(k), g(k, x) == get(d, x))), patterns=[m(k, x)])
                out[nm + ":kept"] = lambda k, m=m, g=g, done=done: z3.ForAll([x], z3.Implies(
                    z3.And(m(K0, x), z3.Not(done(k))), z3.And(m(k, x), g(k, x) == g(K0, x))), patterns=[m(k, x)])
                out[nm + ":monotone"] = lambda k, m=m, g=g: z3.ForAll([x], z3.Implies(m(K0, x), m(k, x)), patterns=[m(k, x)])
        for h in ip.hooks:
            for l, p in (h(ip, self) or {}).items():
                out[l] = p
        return out

    def finish(self, normal, exits, base_facts):
        ip, k, n = self.ip, self.k, self.n
        rel = self.step_facts_for(normal)
        j = z3.Int(ip.fresh_name("j"))
        closed = self.closed_forms(normal)
        lc = ip.fresh("lc", I)
        alts = ["exhausted"] + exits
        c = ip.choose([lc == a for a in range(len(alts))]) if len(alts) > 1 else 0
        K = n if c == 0 else k
        for f in base_facts:
            ip.fact(f)
        if c != 0:
            ip.fact(z3.And(0 <= k, k < n))
        # every earlier iteration completed
        rng = z3.And(0 <= j, j < K)
        parts = []
        if len(rel) == 0:
            parts = [z3.BoolVal(False)]
        elif len(rel) == 1:
            o, st = rel[0]
            parts = o.dec + o.facts + st
        else:
            parts = [disj([o.guard for o, _ in rel])]
            for o, st in rel:
                for f in o.facts + st:
                    parts.append(z3.Implies(o.guard, f))
        for p in parts:
            p = z3.simplify(p)
            if z3.is_true(p):
                continue
            if not self.mentions_k(p):
                ip.fact(z3.Implies(K > 0, p))
            else:
                ip.fact(z3.ForAll([j], z3.Implies(rng, subst(p, k, j))))
        for l, p in self.invs.items():
            if c == 0:
                ip.fact(p(n))
            else:
                ip.fact(p(k))
            ip.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= K), p(j))))
        for f in closed:
            for e in f(K):
                ip.fact(e)
        if c == 0:
            self.install(n)
            self.install_closed(n)
            if ip.check(ms=ip.feas_ms) == z3.unsat:
                raise Infeasible()
            self.orelse()
            return
        o = exits[c - 1]
        for f in o.dec + o.facts:
            ip.fact(f)
        if ip.check(ms=ip.feas_ms) == z3.unsat:
            raise Infeasible()
        ip.heap = dict(o.heap)
        for f, v in zip(ip.frames, o.varss):
            f.vars.clear()
            f.vars.update(v)
        kd, v = o.comp
        if kd == "break":
            return
        if kd == "return":
            raise _Return(v)
        raise PyRaise(v)

    def mentions_k(self, e):
        # cheap occurrence test: substituting must change the term
        return not subst(e, self.k, z3.IntVal(-77777)).eq(e)

    # -- closed forms: list of functions K -> facts
    def closed_forms(self, normal):
        ip, k = self.ip, self.k
        out = []
        self.maps = {}
        for key, c in self.cells.items():
            try:
                out += self.closed_cell(key, c, normal)
            except (Unsupported, z3.Z3Exception):
                pass
        return out

    def closed_cell(self, key, c, normal):
        ip, k = self.ip, self.k
        x = z3.Const("x", V)
        j = z3.Int(ip.fresh_name("j"))
        out = []
        steps = [(o, o.comp[1][1].get(key)) for o in normal]
        if c.tag == "b":
            aft = self.after(normal, lambda o, fs: fs[0].arg(1), key)
            d = subst1(aft, c.f(k), z3.BoolVal(False))
            if self.valid(z3.Or(c.f(k), d) == aft):
                f0 = c.f(z3.IntVal(0))
                out.append(lambda K: [c.f(K) == z3.Or(f0, z3.Exists([j], z3.And(0 <= j, j < K, subst(d, k, j))))])
            else:
                e = subst1(aft, c.f(k), z3.BoolVal(True))
                if self.valid(z3.And(c.f(k), e) == aft):
                    f0 = c.f(z3.IntVal(0))
                    out.append(lambda K: [c.f(K) == z3.And(f0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < K), subst(e, k, j))))])
        if c.tag in ("set", "list", "dict"):
            aft = self.after_mem(normal, key, c, x)
            if aft is not None:
                d = drop_mem(aft, c, k)
                if self.valid(z3.ForAll([x], z3.Or(c.mem(k, x), d) == aft)):
                    inv = getattr(self.seq, "inv", None)

                    def mk(K, d=d):
                        fs = [z3.ForAll([x], c.mem(K, x) == z3.Or(c.mem(z3.IntVal(0), x),
                                                                 z3.Exists([j], z3.And(0 <= j, j < K, subst(d, k, j)))),
                                        patterns=[c.mem(K, x)])]
                        # each element comes from some iteration: name it
                        w = ip.fresh_fn("wit", V, I)
                        fs.append(z3.ForAll([x], z3.Implies(c.mem(K, x), z3.Or(c.mem(z3.IntVal(0), x), z3.And(
                            0 <= w(x), w(x) < K, subst(d, k, w(x))))), patterns=[c.mem(K, x)]))
                        return fs
                    out.append(mk)
        if c.tag == "list":
            # the two views of a list agree
            def coh(K):
                i = z3.Int("i")
                ix = ip.fresh_fn("ix", V, I)
                return [z3.Implies(c.len(K) > 0, c.mem(K, c.at(K, z3.IntVal(0)))),
                        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.len(K)), c.mem(K, c.at(K, i))), patterns=[c.at(K, i)]),
                        z3.ForAll([x], z3.Implies(c.mem(K, x), z3.And(0 <= ix(x), ix(x) < c.len(K), c.at(K, ix(x)) == x)),
                                  patterns=[c.mem(K, x)])]
            out.append(coh)
            apps = [o.comp[1][1].get((key, "delta")) for o in normal]
            if apps and all(a is not None and len(a[1]) <= 1 for a in apps):
                app = z3.simplify(disj([o.guard for o, a in zip(normal, apps) if a[1]]))
                val = None
                for o, a in zip(normal, apps):
                    if a[1]:
                        val = a[1][0] if val is None or val.eq(a[1][0]) else z3.If(o.guard, a[1][0], val)
                always = all(a[1] for a in apps)

                def mk2(K):
                    l0 = c.len(z3.IntVal(0))
                    i = z3.Int("i")
                    rng = z3.And(0 <= j, j < K)
                    fs = [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l0), c.at(K, i) == c.at(z3.IntVal(0), i)),
                                    patterns=[c.at(K, i)])]
                    if val is None:
                        return fs + [c.len(K) == l0]
                    vi = subst(val, k, z3.simplify(i - l0))
                    body = z3.ForAll([i], z3.Implies(z3.And(l0 <= i, i < l0 + K), c.at(K, i) == vi), patterns=[c.at(K, i)])
                    if always:
                        return fs + [c.len(K) == l0 + K, body]
                    allapp = z3.ForAll([j], z3.Implies(rng, subst(app, k, j)))
                    # what was appended is still there
                    vj = subst(val, k, j)
                    if z3.is_app(vj) and vj.num_args() and not z3.is_app_of(vj, z3.Z3_OP_ITE) and not vj.eq(val):
                        pos = ip.fresh_fn("pos", I, I)
                        try:
                            fs.append(z3.ForAll([j], z3.Implies(z3.And(rng, subst(app, k, j)), z3.And(l0 <= pos(j), pos(j) < c.len(K), c.at(K, pos(j)) == vj)), patterns=[vj]))
                        except z3.Z3Exception:
                            pass
                    return fs + [c.len(K) >= l0, c.len(K) <= l0 + K, (c.len(K) == l0 + K) == allapp,
                                 z3.Implies(c.len(K) == l0 + K, body)]
                out.append(mk2)
        return out

    def after(self, normal, pick, key):
        r = None
        for o in normal:
            t = pick(o, o.comp[1][1][key])
            r = t if r is None else z3.If(o.guard, t, r)
        return r

    def after_mem(self, normal, key, c, x):
        """membership after the iteration, as a formula over x"""
        r = None
        for o in normal:
            fs = o.comp[1][1][key]
            t = None
            for f in fs:
                if z3.is_quantifier(f) and f.num_vars() == 1 and f.var_sort(0) == V:
                    b = z3.substitute_vars(f.body(), x)
                    if z3.is_and(b):
                        b = b.arg(0)
                    if z3.is_eq(b):
                        t = b.arg(1)
                        break
            if t is None:
                return None
            r = t if r is None else z3.If(o.guard, t, r)
        return r

    def valid(self, e):
        ip = self.ip
        ip.solver.push()
        ip.solver.add(z3.And(0 <= self.k, self.k < self.n))
        r = ip.check(z3.Not(e), ms=2000)
        ip.solver.pop()
        return r == z3.unsat

    def install_closed(self, n):
        """lists built by appending exactly one element per iteration are maps of the sequence"""
        ip, k = self.ip, self.k
        for key, (entry, val) in self.maps.items():
            pass


def subst1(e, a, b):
    return z3.substitute(e, (a, b))


def drop_mem(e, c, k):
    """replace membership in the accumulator at index k by false"""
    probe = z3.Const("probe", V)
    decl = c.mem(k, probe).decl()
    memo = {}

    def go(t):
        if t.get_id() in memo:
            return memo[t.get_id()][1]
        if z3.is_quantifier(t):
            r = t
            b = go(t.body())
            if not b.eq(t.body()):
                vs = [z3.Const(f"{t.var_name(i)}!q{i}", t.var_sort(i)) for i in range(t.num_vars())]
                bb = go(z3.substitute_vars(t.body(), *reversed(vs)))
                r = z3.ForAll(vs, bb) if t.is_forall() else z3.Exists(vs, bb)
        elif z3.is_app(t) and t.decl().eq(decl) and t.arg(t.num_args() - 2).eq(k):
            r = z3.BoolVal(False)
        elif z3.is_app(t) and t.num_args():
            ch = [go(a) for a in t.children()]
            r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
            if z3.is_and(t) or z3.is_or(t):
                r = z3.And(*ch) if z3.is_and(t) else z3.Or(*ch)
        else:
            r = t
        memo[t.get_id()] = (t, r)
        return r
    return z3.simplify(go(e))


def run_symbolic(ip, seq, bind, body, orelse, node):
    return Loop(ip, seq, bind, body, orelse, node).run()
