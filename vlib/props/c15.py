"""C15: the command line selects one action and one source, or is refused."""
import itertools
import os
import subprocess
import sys

from .. import dump, engine, plans, sut, term
from ..ref import Opts

ID = 'C15'
TECHNIQUE = ('exhaustive enumeration of argument sequences on the whole application against a model of the command line, '
             'plus the same inputs through real processes, pipes and files')
LEVEL_NOTE = ('all sequences of <= 3 arguments from a menu of 22 (all orders), all pairs of values of one option, every '
              'short/long spelling; all documents from files, pipes, "-" and empty name; real processes')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, sequences of <= 4 arguments'}
STATE = '(set of arguments seen so far, outcome expected); a transition appends an argument'
ASSUMPTIONS = ['argument parsing stops at the first problem or help request']

DATA = b'ab \x1b[1;31mc\xc3\xa9\xff\x00\n\tx\n'
FILE = '@FILE@'
MENU = ['-t', '-b', '-l', '-v', '-h', '-M', FILE, '-s', '-S', '-i', '-I', '-m2', '--no-separators', '--no-offsets',
        '--decimal-offsets', '-w4', '-d', '-L1', '--color-markers', '-wx', '--bad', '-f3']
GROUPS = [('-t', '-b', '-l'), (FILE, '-M'), ('-s', '-S'), ('-i', '-I'), ('--no-offsets', '--decimal-offsets')]
ALIASES = [('-t', '--text'), ('-b', '--binary'), ('-s', '--focus-space'), ('-c', '--focus-control'),
           ('-p', '--focus-printable'), ('-e', '--focus-esc'), ('-u', '--focus-utf8'), ('-i', '--focus-binary'),
           ('-S', '--ignore-space'), ('-C', '--ignore-control'), ('-P', '--ignore-printable'), ('-E', '--ignore-esc'),
           ('-U', '--ignore-utf8'), ('-I', '--ignore-binary'), ('-d', '--decode'), ('-M', '--demo'), ('-l', '--legend'),
           ('-v', '--version'), ('-h', '--help'), ('-D', '--debug'),
           ('-f3', '--buffer=3', '-f 3', '--buffer 3'), ('-L1', '--max-lines=1', '--max-lines 1'),
           ('-B4', '--max-bytes=4', '-B 4'), ('-m1', '--marker=1', '--marker 1'), ('-m2', '--marker=2', '-m 2'),
           ('-w5', '--columns=5', '-w 5', '--columns 5')]
def tmp():
    d = engine.scratch()
    path = os.path.join(d, 'file')
    if not os.path.exists(path):
        with open(path, 'wb') as f:
            f.write(b'from the file\n' + DATA)
    return d


def expected(args):
    """help, error, legend, version, demo, dump"""
    seen = set()
    bad = False
    files = 0
    for a in args:
        if a == '--bad':
            bad = True
            continue
        if a == FILE:
            files += 1
            if files > 1:
                bad = True
                continue
        for g in GROUPS:
            if a in g and seen & (set(g) - {a}):
                return 'error'
        if a == '-wx':
            return 'error'
        seen.add(a)
        if a == '-h':
            return 'help'
    if bad:
        return 'error'
    for a, k in (('-l', 'legend'), ('-v', 'version'), ('-M', 'demo')):
        if a in seen:
            return k
    return 'dump'


_ref = {}


def reference(kind, args):
    """the output of an action, taken in a canonical form of the command line"""
    if kind in ('legend', 'version', 'help'):
        key = (kind,)
        argv = [{'legend': '--legend', 'version': '--version', 'help': '--help'}[kind]]
    else:
        argv = sorted(set(a for a in args if a not in (FILE,)), key=MENU.index)
        if kind == 'dump' and FILE in args:
            argv.append(FILE)
        key = (kind, *argv)
    r = _ref.get(key)
    if r is None:
        r = _ref[key] = launch(argv)
    return r


def launch(argv):
    path = os.path.join(tmp(), 'file')
    return sut.run_app([path if a == FILE else a for a in argv], DATA)


def decide(args):
    """message or None"""
    kind = expected(args)
    r = launch(args)
    what = f'kolombos {" ".join(args)}'
    if r.error:
        return f'{what}: {r.error}'
    if kind == 'error':
        if r.code != 2 or not r.err or r.out or r.inp.taken:
            return f'{what}: has to be refused; exit code {r.code}, standard error {r.err[-80:]!r}, ' \
                   f'{len(r.out)} characters of output, {r.inp.taken} bytes read'
        return None
    if r.code != 0 or r.err:
        return f'{what}: exit code {r.code}, {r.err[-200:]!r}'
    if kind != 'dump' and r.inp.taken or kind == 'dump' and bool(r.inp.taken) == (FILE in args):
        return f'{what}: {r.inp.taken} bytes of standard input taken'
    if not r.out.strip():
        return f'{what}: nothing printed'
    want = reference(kind, args)
    if r.out != want.out:
        return f'{what}: differs from the {kind} output: {r.out[:150]!r}, and {want.out[:150]!r}'
    return None


def distinct():
    """the actions differ from each other, otherwise the comparisons say nothing"""
    outs = {k: launch(a).out for k, a in (('legend', ['-l']), ('version', ['-v']), ('help', ['-h']), ('demo', ['-M']),
                                          ('dump', []), ('binary', ['-b']), ('file', [FILE]), ('bfile', ['-b', FILE]))}
    if len(set(outs.values())) != len(outs):
        return f'different actions give the same output: { {k: v[:30] for k, v in outs.items()} }'
    r = launch(['-v'])
    import re
    with open(os.path.join(sut.REPO, 'kolombos/version.py')) as f:
        v = re.search(r'''['"]([^'"]+)['"]''', f.read())
    if v and v.group(1) not in r.out:
        return f'version {v.group(1)} is not in {r.out!r}'
    h = term.SGR_RE.sub('', launch(['-h']).out)
    for al in ALIASES:
        for a in al:
            name = a.split('=')[0].split(' ')[0]
            if name.startswith('--') and name not in h:
                return f'{name} is not in the help'
    if term.UNSAFE_RE.search(h):
        return 'unexpected sequences in the help'
    return None


# names of files that can be mistaken for something else
NAMES = ['-x.txt', '--binary', '--help', '-b', '@file', 'a b', ' ', '0', '*', 'é', '\udcff', 'stdin', '-1', 'None',
         '%s', '~', 'a\nb', '=', '--marker=1', '-.', '--x-']


def sources(o, data):
    """the same bytes by all the ways in"""
    path = os.path.join(tmp(), 'src.bin')
    with open(path, 'wb') as f:
        f.write(data)
    a = sut.run_app(o.argv(), data)
    for argv in ([*o.argv(), path], [path, *o.argv()], [*o.argv(), '-'], [*o.argv(), ''], [*o.argv(), '--', path]):
        r = sut.run_app(argv, data if argv[-1] in ('-', '') else b'never read')
        if (r.out, r.code, r.error, r.err) != (a.out, 0, None, ''):
            return f'{argv}: exit {r.code} {r.error} {r.err[:100]!r}, output differs from that of standard input: ' \
                   f'{r.out[:200]!r} and {a.out[:200]!r}'
    old = os.getcwd()
    os.chdir(tmp())
    try:
        for name in NAMES:
            with open(name, 'wb') as f:
                f.write(data)
            try:
                for argv in ([*o.argv(), '--', name], ['--', name], [name, *o.argv()]):
                    if argv[0] == '--' and o.argv() or argv[0] == name and name.startswith('-'):
                        continue
                    r = sut.run_app(argv, b'never read')
                    if (r.out, r.code, r.error, r.err) != (a.out, 0, None, ''):
                        return f'{argv}: exit {r.code} {r.error} {r.err[:100]!r}, output differs from that of standard ' \
                               f'input: {r.out[:200]!r} and {a.out[:200]!r}'
            finally:
                os.unlink(name)
    finally:
        os.chdir(old)
    with open(path, 'rb') as f:
        if f.read() != data:
            return 'the file was changed'
    return None


def failing(argv):
    r = sut.run_app(argv, b'data\n')
    if r.error or r.code in (0, None) or not r.err.strip():
        return f'{argv}: exit code {r.code}, error {r.error}, standard error {r.err!r}'
    if 'Traceback' in r.out + r.err and not any(a.startswith('-D') for a in argv):
        return f'{argv}: traceback'
    if r.inp.taken:
        return f'{argv}: standard input was read'
    return None


def process(o, data, via):
    env = dict(os.environ, PYTHONPATH=sut.REPO, PYTHONUTF8='1', COLUMNS='80', PYTHONDONTWRITEBYTECODE='1')
    argv = [sys.executable, '-W', 'ignore', '-m', 'kolombos', *o.argv()]
    path = os.path.join(tmp(), 'proc.bin')
    with open(path, 'wb') as f:
        f.write(data)
    kw = {'input': data}
    if via == 'file':
        argv.append(path)
        kw = {'stdin': subprocess.DEVNULL}
    elif via == 'redirect':
        kw = {'stdin': open(path, 'rb')}
    r = subprocess.run(argv, capture_output=True, env=env, cwd=tmp(), timeout=120, **kw)
    a = sut.run_app(o.argv(), data)
    if via == 'redirect':
        kw['stdin'].close()
    if r.returncode != 0 or r.stderr or r.stdout != a.out.encode():
        return f'{o.argv()} {via} {data[:60]!r}: exit code {r.returncode}, {r.stderr[-300:]!r}; output differs from ' \
               f'that in process: {r.stdout[:200]!r}'
    return None


MODES = [Opts(), Opts(marker=2), Opts(binary=True), Opts(binary=True, columns=5, decode=True), Opts(max_lines=1),
         Opts(binary=True, max_bytes=3, decimal=True), Opts(marker=1, buffer=3, no_line_numbers=True)]


def jobs(tier):
    q = tier == 'quick'
    out = [('args', i, None) for i in range(len(MENU))]
    out += [('args', i, j) for i in range(len(MENU)) for j in range(len(MENU))]
    if not q:
        out += [('args4', i, j) for i in range(len(MENU)) for j in range(len(MENU))]
    out += [('aliases', i) for i in range(len(ALIASES))]
    out += [('sources', i) for i in range(len(MODES))]
    out += [('process', i) for i in range(6)]
    out += [('values',), ('failing',), ('distinct',)]
    return out


def note(acc, case, m):
    acc.traces += 1
    if m:
        acc.fail(case, m)
    return not acc.full


def seq(acc, args):
    acc.state((frozenset(args), expected(args)))
    acc.transition(frozenset(args[:-1]), args[-1])
    acc.outcome(expected(args))
    return note(acc, {'args': list(args)}, decide(args))


def pair_values():
    for a, b in (('-w4', '-w8'), ('-w8', '-w4'), ('-m1', '-m2'), ('-m2', '-m0'), ('-L2', '-L1'), ('-L1', '-L0'),
                 ('-B9', '-B2'), ('-f1', '-f100'), ('-D', None)):
        for pre in ([], ['-b'], ['-t'], ['-b', '-d']):
            yield pre, a, b


def last_wins(pre, a, b):
    if b is None:
        x, y = sut.run_app([*pre, '-D', '-D'], DATA), sut.run_app([*pre, '-DD'], DATA)
    else:
        x, y = sut.run_app([*pre, a, b], DATA), sut.run_app([*pre, b], DATA)
    if (x.out, x.code, x.error) != (y.out, y.code, y.error) or x.code != 0:
        return f'{pre} {a} {b}: differs from the last one alone ({x.code}, {y.code})'
    return None


def aliases(i, pre):
    outs = []
    for a in ALIASES[i]:
        r = sut.run_app([*pre, *a.split(' ')], DATA)
        outs.append((r.out, r.code, r.error))
    if len(set(outs)) != 1 or outs[0][1] != 0:
        return f'{ALIASES[i]} with {pre} differ: {[(o[0][:80], *o[1:]) for o in outs]}'
    return None


FAILING = [['@TMP@/missing'], ['-b', '@TMP@/missing'], ['@TMP@'], ['-D', '@TMP@/missing'], ['-DDDD', '@TMP@'],
           ['@TMP@/file/x'], ['-m1', '@TMP@/missing', '-b'], ['-b', '@TMP@/\udcff']]


def run(job, acc):
    kind = job[0]
    if kind == 'args':
        a = MENU[job[1]]
        if job[2] is None:
            if not seq(acc, (a,)):
                return
            for b in MENU:
                if not seq(acc, (a, b)):
                    return
        else:
            for c in MENU:
                args = (a, MENU[job[2]], c)
                if (len(set(args)) == 3 or a == FILE) and not seq(acc, args):
                    return
    elif kind == 'args4':
        for rest in itertools.product(MENU, repeat=2):
            args = (MENU[job[1]], MENU[job[2]], *rest)
            if len(set(args)) == 4 and not seq(acc, args):
                return
    elif kind == 'aliases':
        for pre in ([], ['-b'], ['-t'], ['-m1']):
            a = ALIASES[job[1]]
            if pre and (a[0] == pre[0] or {a[0], pre[0]} <= {'-t', '-b', '-l'}):
                continue
            acc.state(('alias', job[1], tuple(pre)))
            if not note(acc, {'alias': job[1], 'pre': pre}, aliases(job[1], pre)):
                return
    elif kind == 'sources':
        for i, d in enumerate(plans.DOCS + [b'x' * 500 + b'\n']):
            acc.state(('source', job[1], i))
            if not note(acc, {'source': job[1], 'data': d.hex()}, sources(MODES[job[1]], d)):
                return
    elif kind == 'process':
        for i, d in enumerate(plans.DOCS + [('é' * 3000 + '\n').encode(), b'\x00' * 9000]):
            for j, via in enumerate(('pipe', 'file', 'redirect')):
                if (i + j) % 6 == job[1]:
                    o = MODES[(i + j) % 4] if len(d) < 5000 else Opts(binary=True, columns=64)
                    acc.state(('process', i, via))
                    m = process(o, d, via)
                    if not note(acc, {'process': o.argv(), 'opts': dump.case_of(o, d)['opts'], 'data': d.hex(),
                                      'via': via}, m):
                        return
    elif kind == 'values':
        for pre, a, b in pair_values():
            if not note(acc, {'pre': pre, 'a': a, 'b': b}, last_wins(pre, a, b)):
                return
    elif kind == 'failing':
        for argv in FAILING:
            if not note(acc, {'failing': argv}, failing([a.replace('@TMP@', tmp()) for a in argv])):
                return
    else:
        note(acc, {'distinct': True}, distinct())
    acc.sample(list(job))


def check(case):
    if 'args' in case:
        return decide(tuple(case['args']))
    if 'alias' in case:
        return aliases(case['alias'], case['pre'])
    if 'source' in case:
        return sources(MODES[case['source']], bytes.fromhex(case['data']))
    if 'process' in case:
        return process(Opts(**case['opts']), bytes.fromhex(case['data']), case['via'])
    if 'a' in case:
        return last_wins(case['pre'], case['a'], case['b'])
    if 'failing' in case:
        return failing([a.replace('@TMP@', tmp()) for a in case['failing']])
    return distinct()
