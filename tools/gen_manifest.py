"""Write MANIFEST.json from the rule modules that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, HERE)
import importlib

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
DATA = ('C19', 'C20')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'nrwal_sa', 'rules', i.lower() + '.py')):
        mod = importlib.import_module('nrwal_sa.rules.' + i.lower())
        if i in DATA:
            tech = 'static analysis of the shipped data: grammar, reference resolution and family comparison over the parsed YAML'
        elif i in ('C02', 'C10'):
            tech = 'static analysis: effect / exception-flow lint over the resolved syntax tree'
        else:
            tech = 'static analysis: interprocedural gated value-flow (dataflow) analysis with decision-diagram guards'
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s quick' % i,
            'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': tech,
            'level': 'other',
            'level_note': 'Rules: ' + '; '.join(mod.RULES) + '. Decides the property on all paths of the analysed functions under: '
                          + '; '.join(mod.ASSUMPTIONS) + '. Obligations the analysis cannot decide are listed as undecided in the evidence and are not claimed.',
            'evidence_file': 'evidence/%s.json' % i,
        })
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import yaml"', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks read /repo/NRWAL as text only. No hooks were added to /repo.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
