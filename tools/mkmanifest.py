"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
checks, na = [], []
for d in map(json.loads, open(os.path.join(V, 'properties.jsonl'))):
    i = d['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                           technique=t.get('technique', 'runtime monitoring: online oracle monitors on executions of the real code under seeded hostile workloads'),
                           level='exploration',
                           level_note=t.get('note', 'sampled executions, every one judged by an independent reference or an exact invariant; no claim beyond the executions observed')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
