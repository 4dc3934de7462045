"""Writes MANIFEST.json from the claims below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: contracts on the real functions, obligations generated from /repo's source by symbolic execution, discharged by normal forms and z3"
NOTE = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []; na = []
for i in ids:
    if i in CLAIMS:
        lvl, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i}", thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {i}",
                           technique=TECH.get(i, T), level=lvl, level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, "not claimed")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python selftest.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Contracts are in contracts/, the verifier in vc/. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
