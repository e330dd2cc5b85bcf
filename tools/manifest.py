"""Writes MANIFEST.json: one check per harness/checks/cNN.py, everything else not_applicable."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'harness/checks/%s.py' % i.lower())):
        m = importlib.import_module('harness.checks.' + i.lower())
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': m.TECHNIQUE, 'level': m.LEVEL, 'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
