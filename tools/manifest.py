import json, sys
sys.path.insert(0, '/verif/dv'); sys.path.insert(0, '/verif/tools')
import tasks, props
NOTE = {}
NA = {}
checks, na = [], []
for p in props.P:
    i = p['id']
    if tasks.tasks(i, 'quick'):
        lv = tasks.LEVEL.get(i, 'proof')
        checks.append(dict(property=i, quick_cmd='python3 /verif/check.py %s --tier quick' % i, thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
                           technique='contract-based deductive verification of the compiled MIR of the real functions (symbolic execution with invariants, SMT)',
                           level=lv, level_note=NOTE.get(i, 'Every obligation generated from the current source is discharged for all inputs and schedules (monitor invariant at every lock release, contracts at the public entries); trusts the assumed contracts of the library types, sequential consistency and the verifier itself (DESIGN.md).')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='python3-vt /verif/dv/rebuild.py', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na], 'not')
