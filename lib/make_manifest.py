"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{VERIF}/properties.jsonl')]
ids = [p['id'] for p in props]
m = {
    'version': 1,
    'setup_cmd': 'python3 lib/setup.py',
    'checks': [],
    'not_applicable': [],
    'notes': 'See DESIGN.md.  No hooks are needed in /repo: the schedule '
             'perturbations and the fault handling live in the stand-ins for '
             'Abseil (shim/), which the checks compile against.',
}
for i in ids:
  if i in checks.CHECKS:
    c = checks.CHECKS[i]
    m['checks'].append({
        'property': i,
        'quick_cmd': f'python3 check.py {i}',
        'thorough_cmd': f'python3 check.py {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': c.technique,
        'level': 'exploration',
        'level_note': c.level_note,
    })
  else:
    m['not_applicable'].append(
        {'property': i, 'reason': checks.NOT_APPLICABLE[i]})
for i in checks.CHECKS:
  assert i in ids, i
with open(f'{VERIF}/MANIFEST.json', 'w') as f:
  json.dump(m, f, indent=1, ensure_ascii=False)
  f.write('\n')
