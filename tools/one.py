"""debug helper: compile one unit and print the compiler's output:  one.py UNIT [cfg] [case]"""
import sys; sys.path.insert(0, '.')
from vf import engine, units
E = engine.Engine(); u = units.U[sys.argv[1]]
j = engine.Job(u, sys.argv[2] if len(sys.argv) > 2 else u.cfgs[0], sys.argv[3] if len(sys.argv) > 3 else u.cases[0])
ok, err = E.goto_cc(j, 'VF_MODULAR', '/tmp/one.gb', loops_on=bool(u.loops) or None)
print(ok, err[-3000:], E.drop, E.loop_notes)
E.close()
