"""The register of issued trust marks.  Monitor: sequences of additions, clock steps, queries and dump/load round trips on FileDB (files in
a scratch directory that is removed) and SimpleDB, against a list of what was added."""
import os
import shutil
import tempfile

BUDGET = 40
BOUND = "sequences of up to 40 operations over 3 identifiers (one never registered) and 4 subjects"
RULE = "the history"
ASSUMPTIONS = ["the register's files are not changed from outside", "at the very second of expiry either answer is accepted"]

IDS = ["https://marks.example.org/gold", "https://marks.example.org/gold2", "https://marks.example.org/x\n\u2028ü"]
SUBS = ["https://a.example.org", "https://a.example.org/b", "https://b.example.org", "https://ü.example.org/\n\"x\" "]


def history(case):
    from . import fed
    from fedservice.trust_mark_entity import FileDB, SimpleDB
    d = tempfile.mkdtemp(prefix="c11-")
    n_db = [0]

    def new():
        n_db[0] += 1
        if case["db"] == "SimpleDB":
            return SimpleDB()
        return FileDB(**{i: os.path.join(d, f"{n_db[0]}-{k}") for k, i in enumerate(IDS[:case.get("registered", 3)])})
    try:
        db = new()
        added = []
        t = 1_000_000
        ids = IDS[:case.get("registered", 3)]
        for step, op in enumerate(case["ops"]):
            if op[0] == "tick":
                t += op[1]
                continue
            with fed.Frozen(t):
                if op[0] == "add":
                    i, s = IDS[op[1]], SUBS[op[2]]
                    m = {"id": i, "sub": s, "iat": t - op[4]}
                    if op[3] is not None:
                        m["exp"] = t + op[3]
                    if len(op) > 5:
                        m.update(op[5])
                    if case["db"] == "FileDB" and i not in ids:
                        continue
                    db.add(dict(m))
                    added.append(m)
                elif op[0] in ("dump", "dumps"):
                    was = db.dump() if op[0] == "dump" else db.dumps()
                    db2 = new()
                    (db2.load if op[0] == "dump" else db2.loads)(was)
                    db = db2
                elif op[0] == "reopen" and case["db"] == "FileDB":
                    db = FileDB(**db.config)
                bad = check(db, added, t, case)
                if bad:
                    return f"{case}: after step {step} {op}: {bad}"
    finally:
        shutil.rmtree(d)


def check(db, added, t, case):
    for i in IDS + ["https://marks.example.org/none", ""]:
        mine = [m for m in added if m["id"] == i]
        for s in SUBS + ["https://none.example.org"]:
            ms = [m for m in mine if m["sub"] == s]
            got = db.find(i, s)
            if ms and ms[-1].get("exp") == t:
                pass
            else:
                want = bool(ms) and ("exp" not in ms[-1] or ms[-1]["exp"] > t)
                if bool(got) != want:
                    return f"find({i!r}, {s!r}) at {t} is {got!r}, added for it: {ms}"
            for iat in sorted({m["iat"] for m in added}) + [t + 77]:
                got = db.find(i, s, iat)
                here = [m for m in ms if m["iat"] == iat]
                if got and not here:
                    return f"find({i!r}, {s!r}, iat={iat}) is {got!r}, added for it: {ms}"
                if ms and ms[-1]["iat"] == iat and not got and ("exp" not in ms[-1] or ms[-1]["exp"] > t):
                    return f"find({i!r}, {s!r}, iat={iat}) is {got!r}, the latest is {ms[-1]} at {t}"
                if got and ms[-1]["iat"] == iat and ms[-1].get("exp", t + 1) < t:
                    return f"find({i!r}, {s!r}, iat={iat}) is {got!r}, the latest {ms[-1]} has expired at {t}"
            got = db.list(i, s)
            if list(got) != ([s] if ms else []):
                return f"list({i!r}, {s!r}) is {got!r}, added for it: {ms}"
        got = list(db.list(i))
        if sorted(got) != sorted({m["sub"] for m in mine}):
            return f"list({i!r}) is {got!r}, added: {mine}"


def rand_ops(r, n):
    ops = []
    for _ in range(n):
        x = r.random()
        if x < .55:
            op = ["add", r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2, 3]), r.choice([None, None, 10, 100, 100000, -5, 0]), r.choice([0, 0, 0, 5, 1000])]
            if r.random() < .2:
                op.append({"ref": "x", "extra": {"a": [1, 2]}})
            ops.append(op)
        elif x < .8:
            ops.append(["tick", r.choice([1, 5, 11, 50, 101, 5000])])
        else:
            ops.append([r.choice(["dump", "dumps", "reopen"])])
    return ops


def run(ctx):
    r = ctx.rnd
    for db in ("FileDB", "SimpleDB"):
        ctx.run(history, {"db": db, "ops": [["dumps"]]})
        for e0 in (None, 10, -5, 1000):
            for e1 in (None, 10, -5, 1000):
                for s1 in (0, 1):
                    for i1 in (0, 1):
                        ctx.run(history, {"db": db, "ops": [["add", 0, 0, e0, 0], ["tick", 3], ["add", i1, s1, e1, 0], ["tick", 20], ["dumps"], ["tick", 2000]]})
        ctx.run(history, {"db": db, "registered": 1, "ops": [["add", 0, 0, None, 0], ["add", 1, 0, None, 0], ["dumps"]]})
    n = 0
    while not ctx.stop() and n < (6000 if ctx.thorough else 400):
        n += 1
        ctx.run(history, {"db": r.choice(["FileDB", "SimpleDB"]), "registered": r.choice([3, 3, 3, 2, 1]), "ops": rand_ops(r, r.randint(1, 40 if n % 5 == 0 else 12))})
