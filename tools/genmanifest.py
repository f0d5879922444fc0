#!/usr/bin/env python3
"""Writes MANIFEST.json: run from /verif after adding a check."""
import json, re, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
built = set(re.findall(r'\bc(\d\d)\b', open('checks/all.go').read()))
STATELESS = 'explicit enumeration of all inputs/operation sequences in a bounded space, each executed on the real code and compared with an executable reference model'
notes = json.load(open('tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i[1:] in built:
        n = notes.get(i, {})
        checks.append({
            'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': n.get('technique', 'model checking: ' + STATELESS),
            'level': 'model_checking',
            'level_note': n.get('note', 'Exhaustive within the bounds stated in the evidence rule; every enumerated model case is replayed on the implementation. Trusts the reference model in /verif and the Go toolchain.'),
        })
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Everything is built by run.sh from /repo\'s working tree; no hooks are needed in /repo. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
