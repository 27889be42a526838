"""Writes MANIFEST.json from the check modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8'):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(ROOT, 'vlib/props', pid.lower() + '.py')):
        missing.append({'property': pid, 'reason': 'model checking applies (see DESIGN.md), the check is not built yet'})
        continue
    m = importlib.import_module(f'vlib.props.{pid.lower()}')
    checks.append({'property': pid, 'quick_cmd': f'./check {pid}', 'thorough_cmd': f'./check {pid} --thorough',
                   'technique': m.TECHNIQUE, 'level': 'model_checking', 'level_note': m.LEVEL_NOTE})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': missing,
               'notes': 'No hooks in the code: the checks drive it in-process through the argument parser, stdin and '
                        'stdout, and the public API of the libraries. fix: commits are listed in KNOWN_FINDINGS.txt.'},
              f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
