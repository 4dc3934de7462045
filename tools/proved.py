"""Developer: which contracts are proved on the unchanged tree, against the committed list (--write updates it)."""
import json, glob, os, sys
here = os.path.dirname(os.path.abspath(__file__)); f = os.path.join(here, "proved.json")
now = {}
for p in sorted(glob.glob(here + "/../evidence/C*.json")):
    e = json.load(open(p)); now[e["property"]] = {c["contract"]: c["status"] for c in e["coverage"]["contracts"]}
if "--write" in sys.argv: json.dump(now, open(f, "w"), indent=0, sort_keys=True)
old = json.load(open(f)) if os.path.exists(f) else {}
for p in sorted(set(old) | set(now)):
    for c in sorted(set(old.get(p, {})) | set(now.get(p, {}))):
        a, b = old.get(p, {}).get(c), now.get(p, {}).get(c)
        if a != b: print(f"{p} {c}: {a} -> {b}")
n = [s for d in now.values() for s in d.values()]
print({s: n.count(s) for s in sorted(set(n))})
