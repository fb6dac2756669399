#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample against the real code."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pvc  # noqa
import numpy as np
from pvc import check

d = json.load(open(sys.argv[1]))
c = d.get('counterexample')
print('failed obligations:', d.get('obligations_failed'))
if not c:
    print(json.dumps(d, indent=1)[:4000])
    sys.exit(1)
check.world()
check.real_pvlib()
case = check.load_spec(d['spec'])[1][d['idx']]
combo = list(check.combos(case))[d['combo']]
rows = {k: np.array([np.nan if v is None else v for v in a])
        for k, a in c['rows'].items()}
print('function:', case.func, 'inputs:', rows, c['combo'])
f = check.fails(case, combo, c['kinds'], rows)
for l, g, w in f or []:
    print(f'{l}: observed {g}   required {w}')
print('VIOLATED' if f else 'holds')
sys.exit(1 if f else 0)
