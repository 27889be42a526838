"""Writes /verif/seeded/<id>/ from the specifications in seedspecs.py (development only, no check uses it)."""
import difflib
import json
import os
import subprocess
import sys

import seedspecs

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

PRELUDE = '''import io, os, re, subprocess, sys

REPO = os.getcwd()
sys.path.insert(0, REPO)


def run(args, data=b'', columns=80, **kw):
    env = dict(os.environ, PYTHONPATH=REPO, COLUMNS=str(columns), PYTHONIOENCODING='utf-8',
               PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-B', '-m', 'kolombos', *args], input=data, capture_output=True, cwd=REPO,
                       env=env, timeout=120, **kw)
    return p.returncode, p.stdout.decode(), p.stderr.decode()


def plain(s):
    return re.sub('\\x1b\\\\[[0-9;:]*m', '', s)


def expect(what, got, want):
    if got != want:
        print('FAIL', what, 'got', ascii(got)[:2000], 'expected', ascii(want)[:2000])
        sys.exit(1)


'''


def original_lines(path):
    out = subprocess.run(['git', '-C', REPO, 'blame', '-s', path], capture_output=True, text=True).stdout
    return [l.startswith('^') for l in out.splitlines()]


def main(ids):
    for s in seedspecs.SPECS:
        if ids and s['id'] not in ids:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        diff = ''
        files = {}
        for path, old, new in s['edits']:
            text = files.get(path) or open(f'{REPO}/{path}', encoding='utf-8').read()
            assert text.count(old) == 1, (s['id'], path, old, text.count(old))
            files[path] = text.replace(old, new)
        for path, text in files.items():
            before = open(f'{REPO}/{path}', encoding='utf-8').read().splitlines(keepends=True)
            after = text.splitlines(keepends=True)
            orig = original_lines(path)
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, before, after, False).get_opcodes():
                if tag in ('replace', 'delete') and not all(orig[i1:i2]):
                    print(s['id'], 'WARNING: changes lines of a fix commit', path, i1 + 1, i2)
            diff += ''.join(difflib.unified_diff(before, after, f'a/{path}', f'b/{path}'))
        open(f'{d}/patch.diff', 'w', encoding='utf-8').write(diff)
        open(f'{d}/demo.py', 'w', encoding='utf-8').write(PRELUDE + s['demo'].strip('\n') + '\n')
        open(f'{d}/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)


if __name__ == '__main__':
    main(sys.argv[1:])
