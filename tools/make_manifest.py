"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTES = {}
checks, na = [], []
for p in props:
    pid = p['id']
    files = glob.glob(os.path.join(ROOT, 'checks', pid.lower() + '_*.py'))
    if not files:
        na.append(dict(property=pid, reason='no check built yet'))
        continue
    doc = open(files[0]).read().split('"""')[1].strip()
    doc = re.sub(r'\s+', ' ', doc.split(':', 1)[1]).strip()
    checks.append(dict(
        property=pid,
        quick_cmd=f'bash run.sh {pid} quick',
        thorough_cmd=f'bash run.sh {pid} thorough',
        technique='runtime monitoring: ' + doc,
        level='exploration',
        level_note='The property held on every generated execution observed by the monitors (counts in the evidence file); inputs and '
                   'histories outside the generated distribution are not covered. Trusted: numpy, AT tracking, the oracle in '
                   f'checks/{os.path.basename(files[0])}.'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='All checks run the unmodified Python code of /repo in-process (no hooks, nothing to build); see DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
