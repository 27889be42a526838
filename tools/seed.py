"""Tries planted bugs in scratch copies of the repository (development only, no check uses it).

  seed.py try ID...      demo on the clean copy, patch, stable tests, demo, the check of the property
  seed.py matrix ID...   as try, and all the checks
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout + p.stderr


def tests(copy):
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'] if isinstance(base, dict) and 'stable' in base else base.get('tests', base))
    rep = tempfile.mkdtemp(prefix='seedrep-')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=copy, TERM='xterm')
    for name, args in (('unit', ['tests']), ('doctest', ['--doctest-modules', 'kolombos', 'pytermor'])):
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'junit_family=xunit2',
            f'--junitxml={rep}/{name}.xml', *args], copy, env)
    sh([PY, '/opt/vp/results.py', f'{rep}/out.json', f'junit:{rep}/*.xml'], copy)
    got = json.load(open(f'{rep}/out.json'))
    shutil.rmtree(rep)
    return want, got


def one(sid, matrix, checks):
    d = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(f'{d}/meta.json'))
    top = tempfile.mkdtemp(prefix='seed-')
    copy = os.path.join(top, 'repo')
    lay = os.path.join(top, 'demo')
    out = []
    try:
        sh(['cp', '-a', REPO, copy], '/')
        shutil.copytree(d, lay, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=copy)
        rc, text = sh(['bash', f'{lay}/demo.sh'], copy, env, 300)
        if rc:
            out.append(f'DEMO FAILS CLEAN: {text[-500:]}')
        rc, text = sh(['git', 'apply', f'{d}/patch.diff'], copy)
        if rc:
            return sid, [f'DOES NOT APPLY {text}']
        want, got = tests(copy)
        passed = set(got.get('passed', []))
        miss = [t for t in want if t not in passed]
        if miss:
            out.append(f'TESTS FAIL: {miss[:5]}')
        rc, text = sh(['bash', f'{lay}/demo.sh'], copy, env, 300)
        if rc == 0:
            out.append('DEMO PASSES PATCHED')
        todo = checks if matrix else [meta['property']]
        caught = []
        for c in todo:
            rc, text = sh([f'{ROOT}/check', c], ROOT, dict(os.environ, VERIF_REPO=copy, VERIF_NO_EVIDENCE='1'))
            if rc == 1 and f'VIOLATION property={c}' in text:
                caught.append(c)
            elif rc:
                out.append(f'{c} EXITS {rc}: {text[-300:]}')
        out.append(f'property {meta["property"]}, caught by {caught or "NONE"}')
        if meta['property'] not in caught:
            out.append('MISSED')
    finally:
        shutil.rmtree(top)
    return sid, out


if __name__ == '__main__':
    mode, ids = sys.argv[1], sys.argv[2:]
    ids = ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    checks = [c['property'] for c in json.load(open(f'{ROOT}/MANIFEST.json'))['checks']]
    with ThreadPoolExecutor(1 if mode == 'matrix' else 2) as ex:
        for sid, out in ex.map(lambda s: one(s, mode == 'matrix', checks), ids):
            print(sid, '; '.join(out), flush=True)
