"""writes MANIFEST.json from wwv/propmap.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from wwv import propmap as P
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in P.NOT_APPLICABLE:
        continue
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} quick", thorough_cmd=f"python3-vt check.py {i} thorough",
                       technique=P.TECH.get(i, P.TECH_DEFAULT), level=P.LEVEL.get(i, "proof"), level_note=P.NOTE.get(i, P.NOTE_DEFAULT)))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3; import wwv.propmap' && z3-new --version && cvc5 --version | head -1", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in P.NOT_APPLICABLE.items()], notes=P.NOTES)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
