#!/usr/bin/env python3
"""automut.py N [seed] [file-substr]: N randomly chosen small changes (operators of mutation testing) to functions that are under contract; each is run against
the checks that have the function under contract until one reports it.  What no check reports is printed with its text, for a person to judge whether it breaks a
property (most survivors change logging, defaults nobody uses, or are equivalent)."""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def cover():
    fn, wall = {}, {}
    for f in glob.glob(f"{HERE}/evidence/C*.json"):
        d = json.load(open(f))
        wall[d["property"]] = d["wall_s"]
        c = d["coverage"]
        und = set(c["functions_under_contract"])
        for k in und | {x for x in c["functions_interpreted"] if not x.endswith(")")}:
            fn.setdefault(k, []).append((0 if k in und else 1, d["wall_s"], d["property"]))
    return {k: [p for _, _, p in sorted(v)] for k, v in fn.items()}


def functions():
    src = f"{REPO}/src/fedservice/"
    for p in sorted(glob.glob(src + "**/*.py", recursive=True)):
        mod = "fedservice." + p[len(src):-3].replace("/", ".")
        mod = mod[:-9] if mod.endswith(".__init__") else mod
        s = open(p).read()
        for n in ast.parse(s).body:
            if isinstance(n, ast.FunctionDef):
                yield p[len(src):], f"{mod}:{n.name}", n, s
            elif isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        yield p[len(src):], f"{mod}:{n.name}.{m.name}", m, s


def logging(n):
    t = ast.unparse(n)
    return t.startswith(("logger.", "LOGGER.")) or "logger" in t[:12]


def mutants(fn, s):
    lines = s.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = s.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        i, j = pos(n)
        return b[i:j].decode()
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or logging(n)) or isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
    skip |= {id(x) for x in ast.walk(fn.args)}
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield n, f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}", "compare"
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "boolop"
            for v in n.values:
                yield n, "(" + text(v) + ")", "operand"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, "(" + text(n.operand) + ")", "not"
        elif isinstance(n, ast.If):
            yield n.test, f"not ({text(n.test)})", "negate"
            yield n.test, f"({text(n.test)}) and False", "never"
            yield n.test, f"({text(n.test)}) or True", "always"
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield n, "return None", "return"
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield n, "pass", "drop"
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            yield n, str(n.value + 1), "constant"
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n, str(not n.value), "constant"
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield n, "pass", "jump"
            yield n, "break" if isinstance(n, ast.Continue) else "continue", "jump"
        elif isinstance(n, ast.Call):
            if n.keywords and not isinstance(n.func, ast.Name):
                pass
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy"):
                yield n, text(n.func.value) if not n.args else text(n.args[0]), "nocopy"
            if len(n.args) == 2 and not n.keywords and not (isinstance(n.func, ast.Attribute) and n.func.attr == "get"):
                yield n, f"{text(n.func)}({text(n.args[1])}, {text(n.args[0])})", "swap"
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + [f"{x.arg}={text(x.value)}" if x.arg else f"**{text(x.value)}" for x in n.keywords if x is not k]
                    yield n, f"{text(n.func)}({', '.join(rest)})", "keyword"
        elif isinstance(n, ast.For):
            yield n.iter, f"list({text(n.iter)})[1:]", "loop"
            yield n.iter, f"list({text(n.iter)})[:-1]", "loop"


def build(s, n, new):
    lines = s.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    i, j = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    b = s.encode()
    return (b[:i] + new.encode() + b[j:]).decode()


def run(job):
    file, key, props, new_src, what = job
    d = tempfile.mkdtemp(prefix="am")
    try:
        shutil.copytree(f"{REPO}/src", f"{d}/src")
        open(f"{d}/src/fedservice/{file}", "w").write(new_src)
        w = f"{d}/verif"
        shutil.copytree(HERE, w, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "out"))
        os.makedirs(w + "/evidence", exist_ok=True)
        und = []
        for prop in props:
            try:
                r = subprocess.run([f"{w}/check.py", prop], env={**os.environ, "VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, capture_output=True, text=True, timeout=880)
            except subprocess.TimeoutExpired:
                und.append(f"{prop}:timeout")
                continue
            if r.returncode == 1:
                return key, what, "caught " + prop + (" nfi" if "no-failing-input-found" in r.stdout else "")
            if r.returncode:
                und.append(f"{prop}:exit{r.returncode} {r.stderr[-200:]}")
            und += [f"{prop}: {l[:160]}" for l in r.stdout.splitlines() if l.startswith("undecided")]
        return key, what, "SURVIVED " + " ".join(props) + " | " + "; ".join(und)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1
    sel = sys.argv[3] if len(sys.argv) > 3 else ""
    cov = cover()
    rnd = random.Random(seed)
    per = {}
    for file, key, node, s in functions():
        if key not in cov or sel not in file or os.environ.get("SKIP", "\0") in file:
            continue
        for nd, new, kind in mutants(node, s):
            src = build(s, nd, new)
            try:
                compile(src, file, "exec")
            except SyntaxError:
                continue
            old = ast.get_source_segment(s, nd) or ""
            per.setdefault(key, []).append((file, key, cov[key], src, f"{kind} L{nd.lineno}: {' '.join(old.split())[:110]} => {' '.join(new.split())[:110]}"))
    jobs = []
    keys = sorted(per)
    for k in keys:
        rnd.shuffle(per[k])
    while len(jobs) < n and any(per.values()):
        for k in keys:
            if per[k]:
                jobs.append(per[k].pop())
    jobs = jobs[:n]
    rnd.shuffle(jobs)
    print(len(keys), "functions", len(jobs), "mutants", flush=True)
    c = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for f in as_completed([ex.submit(run, j) for j in jobs]):
            key, what, st = f.result()
            c += st.startswith("caught")
            print(("ok " if st.startswith("caught") else "?? "), key.replace("fedservice.", ""), "|", what, "|", st[:400], flush=True)
    print(f"{len(jobs)} mutants, {c} caught")
