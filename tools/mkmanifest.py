#!/usr/bin/env python3
"""Writes MANIFEST.json from vf/units.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vf import units
NA = {
 'C08': 'Non-local jumps out of an error callback have no counterpart in the verifier\'s function contracts (CBMC does not model longjmp); every contract here assumes callbacks return.',
 'C09': 'Sequential contracts say nothing about interleavings; the frame conditions do show that operations write only to their own object, but no concurrency claim is made.',
}
WIP = 'No check yet: contracts for this part are not written.'
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in units.PROPS: continue
    p = units.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        technique=p.get('technique', 'contract-based deductive verification of the real C functions (CBMC back ends), function by function'),
        level='proof', level_note=p.get('note', 'Every obligation of the contracts is discharged from the current sources without bound; trusted: CBMC and its C semantics, the contract generator, environment stubs.')))
m = dict(version=1, setup_cmd='sh setup.sh', checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, WIP)) for i in ids if i not in units.PROPS],
    notes='See DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
