#!/opt/venv/bin/python
"""Mutation test of the verifier itself (not a check): apply one textual change at a time to a scratch copy of the code and
see that the contracts fail on changes that break them ("bad") and still verify on changes that do not ("same").

    tools/selftest.py [Cxx[:contract] ...]        mutations are listed in tools/mutations.py
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RUN = r'''
import sys, json; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import importlib
from pyvc.verify import check_contract
out = []
for c in importlib.import_module("contracts." + sys.argv[1]).CONTRACTS:
    if sys.argv[2] in c.name:
        r = check_contract(c)
        v = [o["verdict"] for o in r["obligations"]]
        out.append((c.name, "violated" if r.get("frame_violation") or any(x in ("refuted", "unknown") for x in v)
                    else "vacuous" if r["vacuous"] or "vacuous" in v
                    else "undecided" if r["unsupported"] else "proved", str(r["unsupported"] or r.get("frame_violation") or "")[:150],
                    sorted({o["label"] for o in r["obligations"] if o["verdict"] != "discharged"})))
print(json.dumps(out), flush=True)
import os; os._exit(0)          # z3 can take minutes to free a context
'''


def one(m):
    prop, name, fname, old, new, expect = m
    d = tempfile.mkdtemp(prefix="selftest.")
    try:
        shutil.copytree(f"{REPO}/src", f"{d}/src")
        p = f"{d}/src/fedservice/{fname}"
        s = open(p).read()
        if s.count(old) != 1:
            return m, f"SPEC: {s.count(old)} occurrences", []
        open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, PYTHONPATH=f"{HERE}:{HERE}/shim:{d}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        r = subprocess.run(["/opt/venv/bin/python", "-c", RUN, prop, name], env=env, cwd=HERE, capture_output=True, text=True)
        try:
            out = json.loads(r.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return m, "CRASH " + r.stderr[-300:], []
        vs = [o[1] for o in out]
        verdict = "violated" if "violated" in vs else "undecided" if "undecided" in vs else "vacuous" if "vacuous" in vs else "proved"
        return m, verdict, [o for o in out if o[1] != "proved"]
    finally:
        shutil.rmtree(d)


def main():
    sys.path.insert(0, os.path.join(HERE, "tools"))
    from mutations import MUTATIONS
    def asked(m):
        return any(a.partition(":")[0] == m[0] and a.partition(":")[2] in m[1] for a in sys.argv[1:])
    ms = [m for m in MUTATIONS if not sys.argv[1:] or asked(m)]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for m, v, d in ex.map(one, ms):
            ok = (m[5] == "bad" and v == "violated") or (m[5] == "same" and v == "proved")
            bad += not ok
            print("ok  " if ok else "????", m[0], m[1], m[5], v, repr(m[4])[:70], "" if ok else d)
    print(len(ms), "mutations,", bad, "not as expected")


if __name__ == "__main__":
    main()
