#!/usr/bin/env python3
"""replay.py evidence/replay/P-unit.json: runs the recorded input on /repo's current sources (gcc, ASan, UBSan)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.engine import Engine, Job
from vf import units
r = json.load(open(sys.argv[1]))
if not r.get('inputs'): print('no input recorded: failed obligations %s' % [f['description'] for f in r['failed_obligations']]); sys.exit(2)
E = Engine()
try:
    u = units.U[r['unit'].split('@')[0]]
    j = Job(u, r['config'], r['unit'].split('.', 1)[1] if '.' in r['unit'] else None)
    f = os.path.join(E.dir, 'in'); open(f, 'w').write('replay\n' + '\n'.join(r['inputs']))
    bad, out = E.replay(j, f); print(out)
    sys.exit(1 if bad else 0)
finally: E.close()
