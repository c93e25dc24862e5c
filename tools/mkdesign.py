"""Rewrite the generated part of DESIGN.md (section 3) from the evidence files of the last runs."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
tot = 0
for i in range(1, 23):
    p = f"C{i:02d}"
    c = json.load(open(f"{HERE}/evidence/{p}.json"))["coverage"]
    tot += c.get("obligations", 0)
    out.append(f"**{p}** - {c['obligations']} obligations, {c['discharged']} discharged"
               + (f" ({', '.join(f'{k} {v}' for k, v in c['by_backend'].items())})" if c.get("by_backend") else ""))
    out.append("")
    mods = {}
    for f in c["functions_under_contract"]:
        m, _, n = f.rpartition(":")
        mods.setdefault(m.replace("fedservice.", "", 1), []).append(n)
    out.append("* under contract: " + "; ".join(f"`{m}`: " + ", ".join(f"`{n}`" for n in ns) for m, ns in sorted(mods.items())))
    ext = sorted(f.replace(" (assumed contract)", "") for f in c["functions_interpreted"]
                 if f.endswith("(assumed contract)") and not f.startswith("contracts."))
    ext += sorted(f.replace(" (by contract)", "") for f in c["functions_interpreted"]
                  if f.endswith("(by contract)") and f.replace(" (by contract)", "").rpartition(".")[0] + ":" not in c["functions_under_contract"]
                  and not any(f.replace(" (by contract)", "") == u.replace(":", ".") for u in c["functions_under_contract"]))
    if ext:
        out.append("* callees by contract: " + ", ".join(f"`{e.replace('fedservice.', '', 1)}`" for e in ext))
    body = [f for f in c["functions_interpreted"] if not f.endswith(")")
            and not any(f == u.replace(":", ".") for u in c["functions_under_contract"])]
    if body:
        out.append("* executed symbolically with them: " + ", ".join(f"`{e.replace('fedservice.', '', 1)}`" for e in sorted(body)))
    if c["assumptions"]:
        out.append("* assumed: " + "; ".join(c["assumptions"]))
    if c.get("undecided"):
        out.append("* undecided: " + "; ".join(str(u) for u in c["undecided"]))
    if c.get("bounded"):
        out.append("* monitor (bounded): " + c["bounded"])
    out.append("")
txt = open(f"{HERE}/DESIGN.md").read()
new = re.sub(r"(<!-- generated -->\n).*?(<!-- end -->)", lambda m: m.group(1) + f"\n{tot} obligations in all.\n\n" + "\n".join(out) + "\n" + m.group(2), txt, flags=re.S)
open(f"{HERE}/DESIGN.md", "w").write(new)
print(tot, len(new))
