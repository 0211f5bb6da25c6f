#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist (checks/pNN.py with NOTE and TECH)."""
import ast
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NA = dict(
    P17='Several MPI processes cannot be started here under the conditions of the checks (one process per check, a launcher that opens sockets and shared memory is not dependable in the copies); on one process the order of the axes is generated by P01, P05, P08, P13, P14 and P16.',
    P18='Not claimed as a property of its own: for the kernels reached from the public interface, P01, P03, P09, P10, P11, P13 and P19 judge what the optimised kernels return against independent oracles; a direct differential check of every kernel has not been made sound within the time.',
    P21='h5py and netCDF4 with the parallel HDF5 features that the files need are not exercised by a generator yet; no check is claimed.',
    P23='No check of its own is claimed: transforms after histories of operations are in P01, expressions used as operands in P12, derived spaces in P14 and P15.')
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    f = os.path.join(H, 'checks', p['id'].lower()+'.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason=NA[p['id']]))
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('NOTE', 'TECH'):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p['id'], quick_cmd='%s run.py %s' % (PY, p['id']),
                       thorough_cmd='VERIF_TIER=thorough %s run.py %s' % (PY, p['id']),
                       evidence_file='evidence/%s.json' % p['id'], technique=v['TECH'], level='exploration',
                       level_note=v['NOTE']))
json.dump(dict(version=1, setup_cmd='true',
               checks=checks, not_applicable=na,
               notes='Every check is property-based testing: Hypothesis generates cases, an independent oracle judges them, failures are shrunk and written to replays/.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
