"""Writes /verif/MANIFEST.json from the lists below."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from dst.budget import LEVEL, NOTE

PY = '/opt/venv/bin/python'
NA = {
    'C22': 'era.py is a pure serial function of its input arrays: no worker, '
           'message, clock, file or callback takes part, so there is no '
           'schedule or fault to simulate',
    'C23': 'okid.py is a pure serial function of its input arrays; nothing '
           'in it depends on a schedule, clock, I/O or another party',
    'C24': 'these helpers are pure functions of their arguments; those used '
           'by the parallel decompositions are exercised there (C06-C10) but '
           'their own definitions have no nondeterminism to simulate',
    'C25': 'InnerProductTrapz is a pure function of two arrays with no '
           'schedule, time, I/O or second party',
}
TECH = 'deterministic simulation (seeded schedules%s) of the real package ' \
    'on a simulated MPI job; %s'
T = {
    'C01': ('', 'reference model'), 'C02': ('', 'reference model'),
    'C03': ('', 'reference model and storage history'),
    'C04': (' and legal MPI behaviours', 'bounded liveness'),
    'C05': (' and call histories', 'comparison with a fresh object'),
    'C06': (' and node-dependent numerics', 'agreement invariant'),
    'C07': ('', 'reference model'), 'C08': ('', 'reference model'),
    'C09': ('', 'reference model'), 'C10': ('', 'reference model'),
    'C11': ('', 'reference model'),
    'C12': (' and injected failures', 'acknowledged-result invariant'),
    'C13': (' and kills', 'durability and restore check'),
    'C14': ('', 'storage history'),
    'C15': (' and I/O faults', 'round-trip model'),
    'C16': ('', 'memory invariant'),
    'C17': (' and clock faults', 'paired-run comparison'),
    'C18': (' and host layouts', 'reference model'),
    'C19': ('', 'rank-ordered fold'),
    'C20': (' and failing loads', 'reference model of handles'),
    'C21': (' and job sizes', 'paired-run comparison'),
    'C27': ('', 'refusal by construction, storage history'),
    'C26': (' and defective user objects', 'accept or reject by construction'),
}
from dst import props
checks = []
for p in sorted(T):
    if p not in props.GEN:
        NA[p] = 'check not built yet'
        continue
    checks.append({
        'property': p,
        'quick_cmd': '%s -m dst.check %s' % (PY, p),
        'thorough_cmd': '%s -m dst.check %s --tier thorough' % (PY, p),
        'technique': TECH % T[p], 'level': LEVEL[p],
        'level_note': NOTE.get(p, NOTE['*'])})
m = {'version': 1,
     'setup_cmd': '%s -m compileall -q dst' % PY,
     'checks': checks,
     'not_applicable': [{'property': p, 'reason': r}
                        for p, r in sorted(NA.items())],
     'notes': 'No hooks were needed in /repo: mpi4py, time, socket and open() '
              'are the seams and are replaced by the loader. See DESIGN.md.'}
with open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'),
          'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks')
