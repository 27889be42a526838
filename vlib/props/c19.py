"""C19: demo, legend and version show what they promise."""
import itertools
import os

from .. import sut, term
from ..term import DEFAULT
from . import c17

ID = 'C19'
TECHNIQUE = ('exhaustive enumeration of option sets on the whole application: the demo against a dump of the bundled file, '
             'every entry of the legend against a dump of the example it shows')
LEVEL_NOTE = ('demo: all pairs of 32 options; legend: all 60 examples, all markers and class ranges; legend and version with '
              'every other option; no input is read by any of them')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all triples of the options with the demo'}
STATE = 'set of options; a transition adds an option; entry of the legend'
ASSUMPTIONS = ['examples of the legend are identified by their descriptions']

MENU = [[], ['-t'], ['-b'], ['-d'], ['-w5'], ['-w16'], ['-w33'], ['-w0'], ['-m1'], ['-m2'], ['--no-separators'],
        ['--no-line-numbers'], ['--decimal-offsets'], ['--no-offsets'], ['--color-markers'], ['-f1'], ['-f7'], ['-L1'],
        ['-L3'], ['-B1'], ['-B100'], ['-D'], ['-DD'], ['-DDD'], ['-DDDD'], ['-s'], ['-c', '-e'], ['-p', '-u', '-i'], ['-S'],
        ['-C', '-E'], ['-P'], ['-U', '-I']]
HINT = "Run the app with '--legend' option to learn how to read the output"


def resource(name):
    sut.mods()
    import kolombos
    with open(os.path.join(os.path.dirname(kolombos.__file__), name), 'rb') as f:
        return f.read()


def cells_of(out):
    return [(r.cells, r.eol) for r in term.parse(out).rows]


def app_rows(r):
    """rows of the output of the application; it ends with one more line break"""
    if r.error or r.code != 0 or r.err:
        return None, f'{r.error or ""} exit code {r.code} {r.err[:200]!r}'
    if not r.out.endswith('\n'):
        return None, 'the output is not terminated'
    return cells_of(r.out[:-1]), None


def demo(opts):
    """None or what is wrong with --demo and the options"""
    data = resource('demo.bin')
    r = sut.run_app(['--demo', *opts], b'INPUT')
    if r.inp.reads:
        return 'the standard input was read'
    rows, e = app_rows(r)
    if e:
        return e
    argv = list(opts)
    if '-t' not in argv:
        argv.append('-b')
    argv.append('-d')
    if not any(a.startswith('-w') for a in argv):
        argv.append('-w16')
    p = sut.run(argv, data)
    if p.error:
        return p.error
    debug = max([a.count('D') for a in opts if a.startswith('-D')] or [0])
    # the hint: an empty row (after a terminated dump) and the text itself
    if not rows or ''.join(c for c, _ in rows[-1][0]) != HINT:
        return 'there is no hint at the end'
    if debug:
        class Fake:
            rows = None
        f, g = Fake(), Fake()
        f.rows = [x for x in term.parse(r.out).rows]
        g.rows = [x for x in term.parse(p.out).rows]
        got = [(x.kind, x.off, x.cells) for x in c17.rows_of(f) if x.kind in ('data', 'total', 'hex')]
        want = [(x.kind, x.off, x.cells) for x in c17.rows_of(g) if x.kind in ('data', 'total', 'hex')]
    else:
        got = rows[:-1]
        want = cells_of(p.out + '\n')       # hint starts with a line break
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        txt = [''.join(c for c, _ in (x[i][-1] if debug else x[i][0])) if i < len(x) else None for x in (got, want)]
        return f'row {i} of {len(got)} is {txt[0]!r} instead of {txt[1]!r} of {len(want)}'
    return None


# ------------------------------------------------------------------ legend

def T(data, *argv):
    return 'text', data, argv


def H(data, *argv):
    return 'hex', data, argv


def G(data, *argv):
    return 'chars', data, argv


def simple(anchor, b, flag):
    return anchor, 0, [T(b), T(b, flag), H(b), H(b, flag)]


# (description, rows below it, examples)
ENTRIES = [
    simple('horizontal tab', b'\t', '-s'), simple('line feed', b'\n', '-s'), simple('vertical tab', b'\v', '-s'),
    simple('form feed', b'\f', '-s'), simple('carriage return', b'\r', '-s'), simple('space             SP', b' ', '-s'),
    ('generic control char', 0, [T(b'\x03'), G(b'\x1e', '-c'), H(b'\x03'), H(b'\x1e', '-c')]),
    ('generic control char', 1, [T(b'\x03', '-m1'), T(b'\x1e', '-m1', '-c')]),
    ('generic control char', 2, [T(b'\x03', '-m2'), T(b'\x1e', '-m2', '-c')]),
    simple('null byte', b'\0', '-c'), simple('backspace', b'\b', '-c'), simple('delete  ', b'\x7f', '-c'),
    simple('escape           ESC', b'\x1b', '-c'),
    ('ASCII printable char', 1, None),
    ('> ASCII printable char', 0, [T(b'!"'), T(b'12', '-p'), H(b'!"'), H(b'12', '-p')]),
    ('> ASCII printable char', 1, [T(b'AB'), T(b'}~', '-p'), H(b'AB'), H(b'}~', '-p')]),
    ('sequences that cannot be cla-', 0, [T(b'\xc0\xff'), T(b'\xee\xda', '-i'), H(b'\xc0\xff'), H(b'\xee\xda', '-i')]),
    ('sequences that cannot be cla-', 1, [G(b'\xee\xb0'), G(b'\xc0\xcc', '-i'), H(b'\xee\xb0'), H(b'\xc0\xcc', '-i')]),
    ('UTF-8 sequence  --text', 0, [T('🐍'.encode()), H('🐍'.encode())]),
    ('UTF-8 sequence  --text', 1, [G(b'\xd1\x85'), G(b'\xd0\xb9', '-u'), H(b'\xd1\x85'), H(b'\xd0\xb9', '-u')]),
    ('UTF-8 sequence  --text', 2, [G('ы'.encode(), '-d'), G('世'.encode(), '-d', '-u'), H('ы'.encode(), '-d')]),
    ('SGR reset sequence', 0, [T(b'\x1b[m'), H(b'\x1b[m')]),
    ('SGR reset sequence', 1, [T(b'\x1b[m', '-m1'), H(b'\x1b[m')]),
    ('SGR reset sequence', 2, [T(b'\x1b[m', '-m2'), H(b'\x1b[m')]),
    ('SGR sequence    label', 0, [T(b'\x1b[34m'), H(b'\x1b[34m')]),
    ('SGR sequence    label', 1, [T(b'\x1b[33m', '--color-markers'), H(b'\x1b[33m', '--color-markers')]),
    ('SGR sequence    label', 2, [T(b'\x1b[93;1m', '-m1', '--color-markers'), H(b'\x1b[93;1m', '--color-markers')]),
    ('SGR sequence    label', 3, [T(b'\x1b[38;5;88;48;5;16m', '-m1', '--color-markers'),
                                  H(b'\x1b[38;5;88;48;5;16m', '--color-markers')]),
    ('SGR sequence    label', 4, [T(b'\x1b[38;2;170;106;106m', '-m1', '--color-markers'),
                                  H(b'\x1b[38;2;170;106;106m', '--color-markers')]),
    ('SGR sequence    label', 5, [T(b'\x1b[38;2;170;106;106m', '-m2')]),
    ('CSI sequence', 0, [T(b'\x1b[24d', '-m2'), H(b'\x1b[24d')]),
    ('nF sequence', 0, [T(b'\x1b(B', '-m2', '-e'), H(b'\x1b(B', '-e')]),
    ('Fp sequence', 0, [T(b'\x1b2', '-m2', '-e'), H(b'\x1b2', '-e')]),
    ('Fe sequence', 0, [T(b'\x1bG', '-m1'), H(b'\x1bG')]),
    ('Fs sequence', 0, [T(b'\x1bs'), H(b'\x1bs')]),
]
ENTRIES = [e for e in ENTRIES if e[2]]
# label shown in the first column (bold on black) of the entries that have one
LABELS = {'horizontal tab': b'\t', 'line feed': b'\n', 'vertical tab': b'\v', 'form feed': b'\f', 'carriage return': b'\r',
          'space             SP': b' ', 'generic control char': b'\x03', 'null byte': b'\0', 'backspace': b'\b',
          'delete  ': b'\x7f', 'escape           ESC': b'\x1b', 'sequences that cannot be cla-': b'\xff',
          'SGR reset sequence': b'\x1b[m', 'SGR sequence    label': b'\x1b[34m', 'CSI sequence': b'\x1b[2d',
          'nF sequence': b'\x1b(B', 'Fp sequence': b'\x1b2', 'Fe sequence': b'\x1bG', 'Fs sequence': b'\x1bs'}
# ranges of the character classes table: name, ignore option, bytes
CLASSES = [('whitespace', '-S', [*range(9, 14), 32]), ('control', '-C', [*range(1, 9), *range(14, 32)]),
           ('printable', '-P', range(0x21, 0x7f)), ('binary', '-I', range(0x80, 0x100))]


def example(kind, data, argv):
    """cells of an example as the dump really prints them"""
    if kind == 'text':
        r = sut.run([*argv, '--no-line-numbers'], data)
        cells = [c for row in term.parse(r.out).rows for c in row.cells]
        return [c for c in cells if c[0] != '\t']
    n = len(data)
    r = sut.run(['-b', f'-w{n}', '--no-offsets', *argv], data)
    cells = term.parse(r.out).rows[0].cells
    if kind == 'hex':
        cells = cells[:3 * n]
        return cells if n <= 4 else cells[:3 * 4 - 1]
    return cells[3 * n + 2:]


def find(row, cells, start):
    n = len(cells)
    for i in range(start, len(row) - n + 1):
        if row[i:i + n] == cells:
            return i + n
    return -1


def legend_rows():
    r = sut.run_app(['--legend'], b'INPUT')
    rows, e = app_rows(r)
    return r, rows, e


def legend_entry(k):
    anchor, below, examples = ENTRIES[k]
    r, rows, e = legend_rows()
    if e:
        return e
    at = [i for i, (cells, _) in enumerate(rows) if anchor in ''.join(c for c, _ in cells)]
    # the entry of the table of sigils, not of the table of classes
    if not at:
        return f'no entry {anchor!r}'
    if at[-1] + below >= len(rows):
        return f'no rows below {anchor!r}'
    row = rows[at[-1] + below][0]
    # attributes are examples' own: the legend has no style around them
    pos = 0
    for ex in sorted(examples, key=lambda x: x[0] == 'hex'):
        cells = example(*ex)
        p = find(row, cells, pos)
        if p < 0:
            return (f'entry {anchor!r}: {"".join(c for c, _ in cells)!r} ({term.show(cells[0][1])}), that is what '
                    f'{" ".join(ex[2])} prints for {ex[1]!r}, is not in {"".join(c for c, _ in row)!r}')
        pos = p
    if below == 0 and anchor in LABELS:
        label = [c for c, a in row if a[term.BOLD] and a[term.BG] == '2;0;0;0' and c != ' ']
        want = example('text', LABELS[anchor], ())[0][0]
        if not label or label[0] != want:
            return f'entry {anchor!r} has sigil {label}, the dump prints {want!r}'
    return None


def classes():
    _, rows, e = legend_rows()
    if e:
        return e
    text = [''.join(c for c, _ in cells) for cells, _ in rows]
    for name, opt, codes in CLASSES:
        row = next((t for t in text if name in t and opt in t.split()), None)
        if row is None:
            return f'no class {name} with option {opt}'
        ranges = [w.strip(',').split('-') for w in row.split() if set(w.strip(',')) <= set('0123456789abcdef-') and
                  len(w.strip(',')) in (2, 5) and not w.startswith('-')]
        shown = {b for w in ranges for b in range(int(w[0], 16), int(w[-1], 16) + 1)}
        if shown != set(codes):
            return f'class {name}: {row!r} shows bytes {sorted(shown)}'
        for b in range(1, 256):
            r = sut.run([opt, '--no-line-numbers'], bytes([b]))
            ignored = '×' in r.out
            if b in shown and not ignored:
                return f'{opt} does not affect byte {b:02x} of class {name}'
            if b not in shown and ignored and b not in (0, 0x7f):
                return f'{opt} affects byte {b:02x}, that is not of class {name} as the legend tells'
    return None


def static(kind, opts):
    """--legend or --version and any options"""
    argv = [{'legend': '--legend', 'version': '--version'}[kind], *opts]
    r = sut.run_app(argv, b'INPUT')
    if r.inp.reads:
        return f'{argv}: the standard input was read'
    if any(a.startswith('-DDD') for a in opts):      # the settings are printed before
        if r.error or r.code != 0 or r.err:
            return f'{argv}: {r.error} {r.code} {r.err[:100]!r}'
    else:
        _, e = app_rows(r)
        if e:
            return f'{argv}: {e}'
    if kind == 'legend':
        src = resource('legend.ansi').decode('utf-8')
        want = ''.join(x for x in src.splitlines(keepends=True) if not x.startswith('#'))
        if not r.out.endswith(want + '\n'):
            return f'{argv}: the legend is not the bundled one'
        if r.out != want + '\n' and not any(a.startswith('-DDD') for a in opts):
            return f'{argv}: something else is printed before the legend'
    else:
        import kolombos.version
        import pytermor
        words = [x.split() for x in r.out.splitlines() if x.split()]
        for w in (['es7s/kolombos', kolombos.version.__version__], ['pytermor', pytermor.__version__]):
            if w not in words:
                return f'{argv}: no {w} in {r.out[-200:]!r}'
    return None


def jobs(tier):
    n = len(MENU)
    out = [('demo', i, 2) for i in range(n)]
    if tier != 'quick':
        out += [('demo', i, 3) for i in range(n)]
    out += [('legend', i, min(i + 5, len(ENTRIES))) for i in range(0, len(ENTRIES), 5)]
    out += [('classes',), ('static', 'legend'), ('static', 'version')]
    return out


def compatible(opts):
    one = [a[:2] for a in opts if a[:2] in ('-w', '-m', '-f', '-L', '-B', '-D')]
    if len(one) != len(set(one)) or ('-t' in opts and '-b' in opts):
        return False
    if '--decimal-offsets' in opts and '--no-offsets' in opts:
        return False
    fl = {a for a in opts if len(a) == 2 and a[1].isalpha()}
    return not any(a.lower() in fl and a.upper() in fl and a.lower() != a.upper() and a[1].lower() in 'scpeui'
                   for a in fl)


def run(job, acc):
    kind = job[0]
    if kind == 'demo':
        a = MENU[job[1]]
        for rest in itertools.combinations(MENU[job[1] + 1:], job[2] - 1):
            opts = [*a, *[x for r in rest for x in r]]
            if not compatible(opts):
                continue
            acc.traces += 1
            acc.state(tuple(opts))
            acc.transition(tuple(opts), job[1])
            acc.outcome(tuple(opts))
            case = {'kind': 'demo', 'opts': opts}
            m = check(case)
            if m:
                acc.fail(case, m)
                if acc.full:
                    return
            acc.sample(f'kolombos --demo {" ".join(opts)}')
    elif kind == 'legend':
        for k in range(job[1], job[2]):
            acc.traces += 1 + len(ENTRIES[k][2])
            acc.state(('entry', k))
            acc.transition('entry', k)
            case = {'kind': 'entry', 'entry': k}
            m = check(case)
            if m:
                acc.fail(case, m)
    else:
        cases = [{'kind': 'classes'}] if kind == 'classes' else \
            [{'kind': job[1], 'opts': x} for x in MENU + [['--demo'], ['file'], ['-m2', 'file'], ['--demo', '-D']]
             if not {'-t', '-b'} & set(x)]
        for case in cases:
            acc.traces += 1
            acc.state(str(case))
            m = check(case)
            if m:
                acc.fail(case, m)


def check(case):
    if case['kind'] == 'demo':
        m = demo(case['opts'])
        return f'kolombos --demo {" ".join(case["opts"])}: {m}' if m else None
    if case['kind'] == 'entry':
        return legend_entry(case['entry'])
    if case['kind'] == 'classes':
        return classes()
    return static(case['kind'], case['opts'])
