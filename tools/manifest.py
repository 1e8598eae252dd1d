"""Writes MANIFEST.json from the checks present in pbt/checks."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'pbt', 'checks', i + '.py')):
        n = NOTES.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'technique': n.get('technique', 'property-based testing against a reference model (Hypothesis)'),
                       'level': n.get('level', 'exploration'),
                       'level_note': n.get('note', 'Generated-input search against an independent oracle; shows the absence of violations on the cases generated, no more.')})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'The check for this property is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks drive the public entry points', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'run.py rebuilds the extensions of /repo with the repository\'s incremental build, then runs the campaign in worker processes.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
