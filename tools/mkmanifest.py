"""writes MANIFEST.json: python3 tools/mkmanifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())

checks, na = [], []
for p in PROPS:
    has_c = os.path.exists(f"{HERE}/contracts/{p}.py")
    has_o = os.path.exists(f"{HERE}/oracle/{p}.py")
    if not (has_c or has_o):
        na.append({"property": p, "reason": "no check built yet"})
        continue
    checks.append({
        "property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"./check.py {p} --thorough",
        "technique": "contracts on the real functions, verification conditions from /repo's source (pyvc) discharged by z3/cvc5"
                     + ("; a bounded contract monitor finds the failing input" if has_o else "") if has_c else
                     "bounded monitor of the functions' contracts on the running code (stand-in, not a proof)",
        "level": "proof" if has_c else "exploration",
        "level_note": NOTE.get(p, "") + (" Proved: see the contracts in the evidence file; the rest of the property is monitored within the stated bound."
                                        if has_c else " Bounded: the contracts are evaluated beside the running code within the stated bound.")})
json.dump({"version": 1,
           "setup_cmd": "PYTHONPATH=/verif:/verif/shim:/repo/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import fedservice, cryptojwt'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. check.py re-executes itself under /opt/venv/bin/python and borrows z3/cvc5 from /opt/veriftools/pyvenv."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
