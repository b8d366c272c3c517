#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:0] = [ROOT, os.path.join(ROOT, 'tools')]
import props
from checks import registry

OVER = {'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations',
        'fault_sequences'}

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(props.P + props.NA, key=lambda p: p['id']):
        q = {k: v for k, v in p.items() if k not in ('level_note', 'reason')}
        if len(q['title']) > 80:
            sys.exit('title too long: ' + q['id'])
        odd = set(q['quantifier']['over']) - OVER
        if odd or q['statement'].count('. ') > 2:
            sys.exit('%s: %s' % (q['id'], odd or 'too many sentences'))
        f.write(json.dumps(q) + '\n')

man = {'version': 1, 'setup_cmd': './setup',
       'checks': [], 'not_applicable': [],
       'notes': 'Every check runs the real program under a seeded scheduler that owns '
                'process interleaving, message delivery, directory order, the clock and '
                'all file operations. Replay: ./check ID --replay FILE.'}
for p in sorted(props.P, key=lambda p: p['id']):
    c = registry.get(p['id'])
    man['checks'].append({
        'property': p['id'], 'quick_cmd': './check ' + p['id'],
        'thorough_cmd': './check ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c.technique, 'level': c.level, 'level_note': p['level_note']})
for p in sorted(props.NA, key=lambda p: p['id']):
    man['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
missing = set(registry.TABLE) - {p['id'] for p in props.P}
if missing:
    sys.stderr.write('checks without a property: %s\n' % sorted(missing))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(props.P), 'claimed,', len(props.NA), 'not applicable')
