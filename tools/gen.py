#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from props.py, checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
ns = {}; exec(open(here + '/props.py').read(), ns); P = ns['P']
ns = {}; exec(open(here + '/checks.py').read(), ns); C, NA = ns['CHECKS'], ns['NA']
with open(V + '/properties.jsonl', 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
checks = [dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}', evidence_file=f'evidence/{i}.json',
               technique=C[i][0], level='other', level_note=C[i][1]) for i in sorted(C)]
na = [dict(property=q['id'], reason=NA.get(q['id'], 'not claimed: the rules for it are not built yet')) for q in P if q['id'] not in C]
m = dict(version=1, setup_cmd='cd analyzer && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o /dev/null .', checks=checks, not_applicable=na,
         notes='All checks run the analyzer in analyzer/ (built from source by check.sh on each run) on the SSA form of the current tree of /repo; nothing of plainkv is executed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q, s)
assert len({q['id'] for q in P}) == len(P)
print(len(P), 'properties', len(checks), 'checks')
