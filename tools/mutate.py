"""Mutation study (development only, no check uses it): which one-place changes pass the tests and all mapped checks?

  mutate.py list FILE...              number of mutants
  mutate.py run OUT.jsonl WORKERS FILE...
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue
import random
import warnings

warnings.simplefilter('ignore')

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
REPO = '/repo'
PY = '/opt/venv/bin/python'
TOP = '/tmp/mutants'

DUMP = ['C12', 'C02', 'C04', 'C07', 'C05', 'C01', 'C13', 'C08', 'C10', 'C03', 'C09', 'C17', 'C06', 'C14', 'C18', 'C19', 'C16',
        'C11', 'C15', 'C31']
CHECKS = [
    ('pytermor/util/auto_float.py', ['C25', 'C26']), ('pytermor/util/prefixed_unit.py', ['C26', 'C25']),
    ('pytermor/util/time_delta.py', ['C27']), ('pytermor/util/stdlib_ext.py', ['C28', 'C30']),
    ('pytermor/util/string_filter.py', ['C29', 'C28', 'C06']), ('pytermor/util', ['C28', 'C29']),
    ('pytermor/color.py', ['C23', 'C22', 'C24', 'C20', 'C21']), ('pytermor/render.py', ['C22', 'C30', 'C23']),
    ('pytermor/ansi.py', ['C20', 'C21', 'C12', 'C13', 'C07', 'C22', 'C04']), ('pytermor/common.py', ['C21', 'C30', 'C22']),
    ('kolombos/console.py', ['C33', 'C10', 'C04', 'C17', 'C34', 'C31', 'C07', 'C06', 'C15', 'C16', 'C01', 'C11', 'C14']),
    ('kolombos/settings.py', ['C33', 'C08', 'C10', 'C12', 'C15', 'C11', 'C16', 'C17']),
    ('kolombos/arghelp.py', ['C32', 'C15', 'C33', 'C34', 'C11', 'C19']),
    ('kolombos/byteio/reader.py', ['C34', 'C09', 'C33', 'C03', 'C31', 'C15', 'C17', 'C19', 'C32', 'C16']),
    ('kolombos/runner', ['C19', 'C15', 'C33', 'C03', 'C31', 'C16', 'C14']), ('kolombos/app.py', ['C34', 'C31', 'C15', 'C19', 'C33']),
    ('kolombos/common.py', ['C14', 'C33', 'C34', 'C32']),
    ('kolombos', DUMP),
]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in',
       ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*',
       ast.BitOr: '&', ast.BitAnd: '|', ast.LShift: '>>', ast.RShift: '<<'}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln))
    # ast columns are in utf-8 bytes
    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body[0] if n.body else None
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                skip.add(b)
                skip.add(b.value)
        for a in ('annotation', 'returns'):
            if getattr(n, a, None) is not None:
                skip.update(ast.walk(getattr(n, a)))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'debug' in ast.unparse(n.value.func):
            skip.update(ast.walk(n))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.dump(n.test):
            skip.update(ast.walk(n))
    out = []

    def rep(n, text, what):
        out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), text, what, n.lineno))

    def seg(n):
        return src[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)]
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f'({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})', 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', 'binop')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join(f'({seg(v)})' for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + o.join(f'({seg(v)})' for v in rest) + ')', f'drop operand {i}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f'({seg(n.operand)})', 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, f'({seg(n.operand)})', 'minus')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                if path.endswith('color.py') and n.lineno > 330 or path.endswith('ansi.py') and 200 < n.lineno < 0:
                    continue
                rep(n, str(n.value + 1), 'int+1')
                if n.value:
                    rep(n, str(n.value - 1), 'int-1')
            elif isinstance(n.value, str) and n.value and seg(n)[:1] in '\'"':
                rep(n, repr(n.value + 'x'), 'string')
            elif isinstance(n.value, float):
                rep(n, str(n.value * 1.01), 'float')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant)):
                rep(n.test, f'(not ({seg(n.test)}))', 'negate')
                rep(n.test, 'False', 'never')
                if not isinstance(n, ast.While):
                    rep(n.test, 'True', 'always')
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, 'pass', 'no jump')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.AnnAssign)) and n not in skip:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.AnnAssign) and n.value is None:
                continue
            rep(n, 'pass', 'deleted')
            if isinstance(n, ast.AugAssign):
                s = seg(n)
                if '+=' in s:
                    rep(n, s.replace('+=', '=', 1), 'no accumulation')
        elif isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Name) and fn.id in ('min', 'max') and len(n.args) == 2:
                rep(n, ('max' if fn.id == 'min' else 'min') + '(' + ', '.join(map(seg, n.args)) + ')', 'minmax')
            if len(n.args) == 1 and isinstance(fn, ast.Name) and fn.id in ('sorted', 'list', 'abs', 'copy', 'deepcopy', 'reversed',
                                                                         'round', 'floor', 'ceil', 'int', 'str', 'tuple'):
                rep(n, f'({seg(n.args[0])})', f'no {fn.id}')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'return None')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            if s.lower is not None:
                rep(s.lower, f'({seg(s.lower)}) + 1', 'slice lower')
            if s.upper is not None:
                rep(s.upper, f'({seg(s.upper)}) + 1', 'slice upper')
    seen = set()
    for a, b, text, what, line in sorted(out):
        new = src[:a] + text + src[b:]
        if new == src or new in seen:
            continue
        seen.add(new)
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        yield {'line': line, 'what': what, 'old': src[a:b][:80], 'new': text[:80]}, new


def tests(copy):
    import seed
    return seed.tests(copy)


def one(job, out, copies, lock):
    path, info, new = job
    copy = copies.get()
    res = dict(info, file=path)
    try:
        with open(f'{copy}/{path}') as f:
            old = f.read()
        with open(f'{copy}/{path}', 'w') as f:
            f.write(new)
        try:
            p = subprocess.run(['timeout', '60', PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=copy,
                               capture_output=True, env=dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', TERM='xterm'))
            q = subprocess.run(['timeout', '60', PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-modules',
                                '--deselect', 'pytermor/color.py::pytermor.color._ColorIndexed.find_closest',
                                'kolombos', 'pytermor'], cwd=copy,
                               capture_output=True, env=dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', TERM='xterm'))
            if p.returncode or q.returncode:
                res['result'] = 'tests'
            else:
                res['result'] = 'SURVIVES'
                for c in next(v for k, v in CHECKS if path.startswith(k)):
                    r = subprocess.run(['timeout', '-k', '10', '1500', f'{ROOT}/check', c, '-j', '2'], cwd=ROOT, capture_output=True,
                                       text=True, env=dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=copy + '-ev'), errors='replace')
                    if r.returncode:
                        res['result'] = c if r.returncode == 1 else f'{c} exit {r.returncode} {(r.stdout + r.stderr)[-300:]}'
                        break
        finally:
            with open(f'{copy}/{path}', 'w') as f:
                f.write(old)
    finally:
        copies.put(copy)
    with lock:
        with open(out, 'a') as f:
            f.write(json.dumps(res) + '\n')
    if res['result'] not in ('tests',) and not res['result'].startswith('C'):
        print(path, res['line'], res['what'], repr(res['old']), '->', repr(res['new']), res['result'], flush=True)


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            print(f, sum(1 for _ in mutants(os.path.join(REPO, f))))
        return
    import threading
    out, n = sys.argv[2], int(sys.argv[3])
    done = set()
    if os.path.exists(out):
        for ln in open(out):
            r = json.loads(ln)
            done.add((r['file'], r['line'], r['what'], r['old'], r['new']))
    jobs = []
    for f in sys.argv[4:]:
        for info, new in mutants(os.path.join(REPO, f)):
            if (f, info['line'], info['what'], info['old'], info['new']) not in done:
                jobs.append((f, info, new))
    random.Random(1).shuffle(jobs)
    copies = queue.Queue()
    for i in range(n):
        c = f'{TOP}/{os.getpid()}-{i}'
        os.makedirs(TOP, exist_ok=True)
        shutil.copytree(REPO, c, symlinks=True)
        copies.put(c)
    lock = threading.Lock()
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda j: one(j, out, copies, lock), jobs))
    for i in range(n):
        shutil.rmtree(f'{TOP}/{os.getpid()}-{i}')
        shutil.rmtree(f'{TOP}/{os.getpid()}-{i}-ev', ignore_errors=True)


main()
