"""C32: the help is complete and readable in every terminal, and tells the truth."""
import re

from .. import sut, term

ID = 'C32'
TECHNIQUE = ('exhaustive enumeration of terminal widths x kinds of terminals on the whole application; every state is parsed and '
             'compared with own table of options and with the widest one; claims of the help are compared with real runs')
LEVEL_NOTE = ('all terminal widths 0..240 and 500, 1000 with and without colors, by -h, --help and among other options; all usage errors '
              'of 6 kinds at all widths 1..100; defaults in the help against runs without and with them')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all widths up to 1200'}
STATE = '(kind of terminal, width, row of the help); a transition is the next terminal width'
ASSUMPTIONS = ['words may be wrapped at spaces and after hyphens']

# spellings, argument, words of the description, default
TABLE = [
    ('<file>', '', ('read', 'stdin'), None),
    ('-M, --demo', '', ('examples',), None),
    ('-t, --text', '', ('text mode',), 'this is a default'),
    ('-b, --binary', '', ('binary mode',), None),
    ('-l, --legend', '', ('annotation',), None),
    ('-v, --version', '', ('version',), None),
    ('-h, --help', '', ('help',), None),
    ('-s, --focus-space', '', ('highlight', 'whitespace'), None),
    ('-c, --focus-control', '', ('highlight', 'control'), None),
    ('-p, --focus-printable', '', ('highlight', 'printable'), None),
    ('-e, --focus-esc', '', ('highlight', 'escape'), None),
    ('-u, --focus-utf8', '', ('highlight', 'UTF-8'), None),
    ('-i, --focus-binary', '', ('highlight', 'binary'), None),
    ('-S, --ignore-space', '', ('dim/hide', 'whitespace'), None),
    ('-C, --ignore-control', '', ('dim/hide', 'control'), None),
    ('-P, --ignore-printable', '', ('dim/hide', 'printable'), None),
    ('-E, --ignore-esc', '', ('dim/hide', 'escape'), None),
    ('-U, --ignore-utf8', '', ('dim/hide', 'UTF-8'), None),
    ('-I, --ignore-binary', '', ('dim/hide', 'binary'), None),
    ('-f, --buffer', '<size>', ('buffer', 'bytes'), 'default: 4096'),
    ('-L, --max-lines', '<num>', ('stop', 'lines'), 'default: no limit'),
    ('-B, --max-bytes', '<num>', ('stop', 'bytes'), 'default: no limit'),
    ('-D, --debug', '', ('debug', 'verbosity'), None),
    ('--color-markers', '', ('SGR', 'marker'), None),
    ('-m, --marker', '<details>', ('0 is none', '1 is brief', '2 is full'), 'default: 0'),
    ('--no-separators', '', ('not print', 'separators'), None),
    ('--no-line-numbers', '', ('not print', 'line numbers'), None),
    ('-w, --columns', '<num>', ('columns', 'wide'), 'default: auto'),
    ('-d, --decode', '', ('UTF-8', 'decode'), None),
    ('--decimal-offsets', '', ('decimal', 'offsets'), 'default: hex format'),
    ('--no-offsets', '', ('not print', 'offsets'), None),
]
SECTIONS = ['USAGE', 'INPUT', 'OPERATING MODE', 'CHARACTER CLASS OPTIONS', 'GENERIC OPTIONS', 'TEXT MODE OPTIONS',
            'BINARY MODE OPTIONS', 'EXAMPLES']
YELLOW = term.apply_params(term.DEFAULT, [33])
BOLD = term.apply_params(term.DEFAULT, [1])


def launch(argv, width, tty):
    old = sut.CapIO.tty
    sut.CapIO.tty = tty
    try:
        return sut.run_app(argv, b'not to be read', columns=width)
    finally:
        sut.CapIO.tty = old


def squeeze(s):
    return re.sub(r'\s+', '', s)


def entries(screen):
    """[(what, [(word cells)])] of the part with options"""
    out = []
    sections = []
    for row in screen.rows:
        t = row.text
        if t and t == t.upper() and t[0] != ' ' and t.strip() in SECTIONS:
            if any(s != BOLD for _, s in row.cells):
                return f'header {t!r} is not bold'
            sections.append(t)
            out.append((t, [], []))
        elif sections and sections[-1] not in ('USAGE', 'EXAMPLES') and re.match(r'  [-<]', t):
            m = re.match(r'  ((?:-., )?--[a-z0-9-]+(?: <[a-z]+>)?|<file>)(?:$|  )', t)
            if not m:
                return f'row {t!r}'
            out.append((m.group(1), [t], row.cells[m.end():]))
            if any(s != term.DEFAULT for _, s in row.cells[:m.end()]):
                return f'style in {t!r}'
        elif out and out[-1][1] and t.startswith('   ') and t.strip():
            out[-1][1].append(t)
            out[-1][2].extend([(' ', term.DEFAULT)] + row.cells)
        elif out and t.strip():
            out.append(('', [], row.cells))
    if sections != SECTIONS:
        return f'sections are {sections}'
    return out


_ref = {}


def reference(tty):
    r = _ref.get(tty)
    if r is None:
        r = _ref[tty] = launch(['--help'], 5000, tty)
    return r


def holds(argv, width, tty, acc=None):
    what = f'kolombos {" ".join(argv)} in a terminal {width} wide{", colored" if tty else ""}'
    r = launch(argv, width, tty)
    if r.error or r.code != 0 or r.err or r.inp.taken:
        return f'{what}: exit code {r.code}, {r.error}, {r.err[-300:]!r}, {r.inp.taken} bytes read'
    s = term.parse(r.out)
    if s.unsafe or s.final != term.DEFAULT:
        return f'{what}: broken sequences {s.unsafe}, {term.show(s.final)} in the end'
    ref = term.parse(reference(tty).out)
    a, b = squeeze(' '.join(x.text for x in s.rows)), squeeze(' '.join(x.text for x in ref.rows))
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f'{what}: {a[max(0, i - 30):i + 30]!r} instead of {b[max(0, i - 30):i + 30]!r}'
    es = entries(s)
    if isinstance(es, str):
        return f'{what}: {es}'
    got = [e for e in es if e[1]]
    if acc is not None:
        for name, rows, _ in got:
            acc.state((tty, width, name, len(rows)))
        acc.transition(tty, width, *argv)
        acc.outcome(r.out)
    want = [f'{t[0]} {t[1]}'.strip() for t in TABLE]
    if [e[0] for e in got] != want:
        return f'{what}: options are {[e[0] for e in got]}'
    col = None
    for (name, rows, cells), (_, _, words, default) in zip(got, TABLE):
        text = ' '.join(''.join(c for c, _ in cells).split())
        flat = squeeze(text)
        for w in words:
            if squeeze(w) not in flat:
                return f'{what}: {name} is {text!r}, nothing about {w!r}'
        if default is not None and not flat.endswith(squeeze(f'[{default}]')):
            return f'{what}: default of {name} is {default}, shown is {text!r}'
        if default is None and '[' in flat:
            return f'{what}: {name} has no default, shown is {text!r}'
        k = len(flat) - len(squeeze(f'[{default}]')) if default else len(flat)
        j = 0
        for c, st in cells:
            if c.isspace():
                continue
            if st != (YELLOW if tty and j >= k else term.DEFAULT) and c not in '⢸⡇' and not (tty and 'separators' in name):
                return f'{what}: {name}: {c!r} of {text!r} has style {term.show(st)}'
            j += 1
        # geometry: one column of descriptions, rows fit
        for n, row in enumerate(rows):
            body = row[2 + len(name):] if n == 0 else row
            if not body.strip():
                continue
            pos = len(row) - len(body.lstrip())
            if col is None:
                col = pos
            if pos != col:
                return f'{what}: description of {name} is at column {pos}, others at {col}'
            if len(row) > max(width, 0) and len(body.split()) > 1 and width > 40:
                return f'{what}: row {row!r} does not fit'
    return None


BAD = [['--bad'], ['-b', '-t'], ['-wx'], ['a', 'b'], ['-m'], ['-s', '-S']]
NAMED = ['--bad', '-t', '-w', 'b', '-m', '-S']


def refused(i, width, tty):
    what = f'kolombos {" ".join(BAD[i])} in a terminal {width} wide'
    r = launch(BAD[i], width, tty)
    if r.error or r.code != 2 or r.out or r.inp.taken:
        return f'{what}: exit code {r.code}, {r.error}, {len(r.out)} characters of output'
    s = term.parse(r.err)
    if s.unsafe or s.final != term.DEFAULT:
        return f'{what}: sequences in the message: {s.unsafe}'
    t = term.SGR_RE.sub('', r.err)
    m = re.search(r'kolombos: error: (.*)', t, re.S)
    if not m or NAMED[i] not in m.group(1):
        return f'{what}: the message is {t[-200:]!r}'
    for u in ('--text', '--binary', '--legend', '--version', '--help', '<file>'):
        if u not in t[:m.start()]:
            return f'{what}: no {u} in the usage'
    return None


class Sizes(sut.ScriptedInput):
    """notes how much is asked for"""

    def read(self, n=-1):
        self.asked = max(getattr(self, 'asked', 0), n)
        return super().read(n)

    read1 = read


def asked(argv):
    old = sut.ScriptedInput
    sut.ScriptedInput = Sizes
    try:
        r = sut.run(argv, b'ab\x1b[31m\n')
    finally:
        sut.ScriptedInput = old
    if r.error:
        raise AssertionError(r.error)
    return getattr(r.inp, 'asked', 0)


def truth():
    """what the help says about the defaults"""
    d = b'ab\x1b[31m\x01\x00 \n\xc3\xa9\xff\n' * 20
    out = lambda *argv: sut.run(list(argv), d).out
    for pre, explicit in (([], ['-t']), ([], ['-m0']), ([], ['-f4096']), (['-b'], ['-f4096']), (['-b'], ['-w0']), ([], ['-L0']),
                          ([], ['-B0']), (['-b', '-m2'], ['-m0']), (['-b'], ['-L0', '-B0']), (['-D'], ['-f128']),
                          (['-b', '-DD'], ['-f128'])):
        a, b = out(*pre), out(*pre, *explicit)
        if a != b:
            return f'{explicit} is said to be a default, but the output of {pre} changes'
    for argv, want in (([], 4096), (['-b'], 4096), (['-f7'], 7), (['-D'], 128), (['-D', '-f300'], 300), (['-DDDD', '-b'], 128),
                       (['-f', '100000'], 100000)):
        if asked(argv) != want:
            return f'{argv}: reads by {asked(argv)} bytes instead of {want}'
    return None


def jobs(tier):
    top = 240 if tier == 'quick' else 1200
    out = [('help', tty, a, min(a + 40, top + 1)) for tty in (False, True) for a in range(0, top + 1, 40)]
    out += [('help', tty, a, a + 1) for tty in (False, True) for a in (500, 1000)]
    out += [('bad', i, tty) for i in range(len(BAD)) for tty in (False, True)]
    return out + [('truth',)]


def run(job, acc):
    if job[0] == 'truth':
        acc.traces += 1
        m = truth()
        if m:
            acc.fail({'truth': True}, m)
        return
    if job[0] == 'bad':
        for w in range(1, 101):
            acc.traces += 1
            acc.state(('bad', job[1], w, job[2]))
            acc.transition('bad', job[1], w)
            m = refused(job[1], w, job[2])
            if m:
                acc.fail({'bad': job[1], 'width': w, 'tty': job[2]}, m)
                if acc.full:
                    return
        return
    for w in range(*job[2:]):
        for argv in (['--help'], ['-h'], ['-b', '-w4', '--help'], ['-h', '--legend']):
            if w % 8 and argv[0] != '--help':
                continue
            acc.traces += 1
            m = holds(argv, w, job[1], acc)
            if m:
                acc.fail({'argv': argv, 'width': w, 'tty': job[1]}, m)
                if acc.full:
                    return
    acc.sample({'argv': ['--help'], 'width': w, 'tty': job[1]})


def check(case):
    if 'truth' in case:
        return truth()
    if 'bad' in case:
        return refused(case['bad'], case['width'], case['tty'])
    return holds(case['argv'], case['width'], case['tty'])
