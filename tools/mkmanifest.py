"""Writes MANIFEST.json from tools/claims.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import claims
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in claims.CLAIMS:
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3-vt check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "contract-based deductive verification: contracts and loop invariants on the real functions, obligations generated from /repo's current source and discharged by z3/cvc5",
                       "level": "proof", "level_note": claims.CLAIMS[p]})
    else:
        na.append({"property": p, "reason": claims.NOT.get(p, "no contract for it has been built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5' && /opt/venv/bin/python -c 'import numpy, scipy'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts are sidecar files in contracts/, the verified text is /repo/src read and transformed mechanically on every run (ded/hook.py states what the transform changes)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
