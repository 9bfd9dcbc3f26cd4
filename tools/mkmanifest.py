#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table of checks below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
LEVEL = "exploration"
exec(open(V + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"./run.sh check {i} quick",
                           thorough_cmd=f"./run.sh check {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level=LEVEL, level_note=n))
    else:
        na.append(dict(property=i, reason=NOT_CLAIMED.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./run.sh build",
         hooks=dict(guard="ced_verif", enable='RUSTFLAGS="--cfg ced_verif" (run.sh sets it)',
                    source_commits=["05f9f6ea16f50640d48a947a19010dbb9dd1f693"]),
         checks=checks, not_applicable=na,
         notes="All checks: property-based testing with proptest-generated cases and shrinking (harness/), see DESIGN.md. Failures are written to replays/ and re-run with ./run.sh replay FILE.")
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props: jsonschema.validate(p, S)
    print('valid:', len(checks), 'claimed,', len(na), 'not claimed')
except ImportError:
    print('no jsonschema: not validated')
