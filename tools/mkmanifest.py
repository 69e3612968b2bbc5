#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(d + '/properties.jsonl')]
ns = {}
exec(open(d + '/tools/claims.py').read(), ns)
claims, na = ns['CLAIMS'], ns['NOT_APPLICABLE']
checks, out_na = [], []
for p in props:
    i = p['id']
    if i in claims:
        checks.append({
            "property": i,
            "quick_cmd": f"./govc.sh check -prop {i} -tier quick",
            "thorough_cmd": f"./govc.sh check -prop {i} -tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification (govc: VCs from the go/ssa form of the current source, discharged by z3/cvc5)",
            "level": "proof",
            "level_note": claims[i]})
    else:
        out_na.append({"property": i, "reason": na.get(i, "contracts not written yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks}
if out_na:
    m["not_applicable"] = out_na
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(out_na), 'not')
