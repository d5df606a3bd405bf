"""writes MANIFEST.json from the registry and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
reg = props.load()
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if pid in reg:
        r = reg[pid]
        checks.append({
            'property': pid,
            'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % pid,
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'symbolic execution of the real Python functions, every assertion decided by z3 for all input '
                         'values within the bounds; counterexamples replayed on the real code',
            'level': 'other',
            'level_note': 'Bounded solver-based checking. Bounds: %s. Assumes: %s. Trusted: z3, the symbolic number '
                          'layer (cross-checked against plain runs on every run), the reference formulas.'
                          % (r.bounds, '; '.join(r.assumptions) or 'nothing further'),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Known findings and repairs: known_findings.txt. Design: DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
