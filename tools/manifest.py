"""python tools/manifest.py: rewrites MANIFEST.json from harness/*.py and properties.jsonl"""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    h = V / "harness" / f"{i.lower()}.py"
    if not h.exists():
        na.append({"property": i, "reason": NA.get(i, "no check built yet; nothing is claimed for it")})
        continue
    src = h.read_text()
    t = re.search(r'^TECHNIQUE\s*=\s*"(.*?)"\s*$', src, re.M)
    n = re.search(r'^NOTE\s*=\s*"(.*?)"\s*$', src, re.M)
    checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                   "technique": t.group(1) if t else "bounded exhaustive exploration of the real code",
                   "level": "model_checking",
                   "level_note": n.group(1) if n else "Exhaustive within the bounds given in the evidence file; real code compiled from the tree, simulated MPI where several processes are involved."})
src = sorted(set())
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. ./check ID [--tier quick|thorough] builds /repo's tree in a scratch directory under /var/tmp and removes it."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
