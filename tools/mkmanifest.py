#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
SEQ = "exhaustive enumeration of bounded input families, run on the real code"
claims = json.load(open(root + '/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in claims:
        c = claims[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c['technique'], "level": c['level'], "level_note": c['note']})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(miri)", "enable": "set by cargo miri; C30 only", "source_commits": ["2ec723004383401540dcf9177f1db6d96e85b9fb"]},
     "notes": "The one hook lets the crate's own cfg(miri) branches compile on current toolchains. All else is observed through the public API, a controlled rayon-core and the global allocator of the harness."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
