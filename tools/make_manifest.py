"""Write MANIFEST.json from properties.jsonl and the property modules present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if not os.path.exists(os.path.join(V, 'rv', 'props', i.lower() + '.py')):
        na.append(dict(property=i, reason='monitor not built yet'))
        continue
    m = importlib.import_module('rv.props.' + i.lower())
    checks.append(dict(
        property=i, quick_cmd=f'./check.sh {i} quick',
        thorough_cmd=f'./check.sh {i} thorough',
        evidence_file=f'evidence/{i}.json',
        technique=getattr(m, 'TECHNIQUE', 'runtime monitoring: online oracle '
                          'on randomised hostile workloads of the real code'),
        level='exploration',
        level_note=getattr(m, 'NOTE', 'Holds on every execution explored; '
                           'trusts the independent oracle in rv/refs.py.')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
               not_applicable=na,
               notes='No hooks in /repo are needed: the monitors sit at the '
                     'public API boundary; line reach is recorded with '
                     'sys.monitoring.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
