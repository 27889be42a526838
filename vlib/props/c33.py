"""C33: debug mode tells the settings in force and how the input is read."""
import itertools
import re

from .. import sut, term

ID = 'C33'
TECHNIQUE = ('exhaustive enumeration of option sequences x debug levels x terminal widths on the whole application; the table is '
             'parsed and compared with own model of the command line; the report of reading is compared with a model of the reader')
LEVEL_NOTE = ('all ordered pairs of 58 options x debug levels 3 and 4, singles x levels 0..6; all terminal widths 0..240 x levels x 6 sets; '
              'all lengths 0..40 x buffers x limits x levels for the report of reading')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, ordered triples of 24 options; lengths up to 200'}
STATE = '(settings in force, debug level) or (position in the input, limits); a transition is an option or a read'
ASSUMPTIONS = ['values are written as Python writes them (True, None, 5)']

CLASSES = ['space', 'control', 'printable', 'esc', 'utf8', 'binary']
LETTER = dict(zip(CLASSES, 'scpeui'))
DEFAULTS = {'binary': False, 'buffer': None, 'columns': None, 'decimal_offsets': False, 'debug': 0, 'decode': None,
            'filename': None, 'legend': False, 'marker': 0, 'max_bytes': None, 'max_lines': None, 'color_markers': False,
            'no_line_numbers': False, 'no_separators': False, 'no_offsets': False, 'text': False, 'version': False, 'demo': False,
            **{f'{w}_{c}': False for w in ('focus', 'ignore') for c in CLASSES}}

# argument -> (setting, value)
MENU = {}
for _c in CLASSES:
    MENU['-' + LETTER[_c]] = (f'focus_{_c}', True)
    MENU['-' + LETTER[_c].upper()] = (f'ignore_{_c}', True)
    MENU[f'--focus-{_c}'] = (f'focus_{_c}', True)
    MENU[f'--ignore-{_c}'] = (f'ignore_{_c}', True)
MENU.update({
    '-b': ('binary', True), '--binary': ('binary', True), '-t': ('text', True), '--text': ('text', True),
    '-l': ('legend', True), '-v': ('version', True), '-M': ('demo', True),
    '-f1': ('buffer', 1), '-f77': ('buffer', 77), '--buffer=4096': ('buffer', 4096),
    '-L3': ('max_lines', 3), '--max-lines=100000': ('max_lines', 100000), '-L0': ('max_lines', 0),
    '-B9': ('max_bytes', 9), '--max-bytes=1': ('max_bytes', 1), '-B0': ('max_bytes', 0),
    '-w5': ('columns', 5), '--columns=64': ('columns', 64), '-w0': ('columns', 0),
    '-m0': ('marker', 0), '-m1': ('marker', 1), '-m2': ('marker', 2), '--marker=7': ('marker', 7), '-m-3': ('marker', -3),
    '-d': ('decode', True), '--decode': ('decode', True), '--decimal-offsets': ('decimal_offsets', True),
    '--no-offsets': ('no_offsets', True), '--no-separators': ('no_separators', True),
    '--no-line-numbers': ('no_line_numbers', True), '--color-markers': ('color_markers', True),
    '-D': ('debug', None), '-': ('filename', '-'),
})
ARGS = list(MENU)
SMALL = ['-b', '-t', '-s', '-S', '-C', '-e', '-U', '-i', '-f1', '-L3', '-B9', '-w5', '-m1', '-m2', '-d', '--no-offsets',
         '--decimal-offsets', '--no-separators', '--no-line-numbers', '--color-markers', '-D', '-', '-p', '-P']
EXCLUSIVE = [{'text', 'binary', 'legend'}, {'filename', 'demo'}, {'decimal_offsets', 'no_offsets'},
             *({f'focus_{c}', f'ignore_{c}'} for c in CLASSES)]
GREEN, GRAY, YELLOW = '32', '90', '33'


def model(args, level):
    """settings after these arguments, or None when they are refused"""
    st = dict(DEFAULTS, debug=level)
    given = set()
    for a in args:
        k, v = MENU[a]
        if k == 'filename' and 'filename' in given:
            return None
        given.add(k)
        st[k] = v if k != 'debug' else st['debug'] + 1
    if any(len(g & given) > 1 for g in EXCLUSIVE):
        return None
    return st


def derived(st):
    mode = 'BINARY' if st['binary'] else 'TEXT'
    if st['binary']:
        details = 'BINARY_STRICT'
    else:
        details = {0: 'NO_DETAILS', 1: 'BRIEF_DETAILS'}.get(max(0, st['marker']), 'FULL_DETAILS')
    d = {'read_mode': f'ReadMode.{mode}', 'effective_marker_details': f'MarkerDetailsEnum.{details}',
         'effective_print_offsets': str(st['debug'] > 0 or not st['no_offsets'])}
    for c, name in zip(CLASSES, ['WHITESPACE', 'CONTROL_CHAR', 'PRINTABLE_CHAR', 'ESCAPE_SEQ', 'UTF_8_SEQ', 'BINARY_DATA']):
        how = 'IGNORED' if st['ignore_' + c] else 'FOCUSED' if st['focus_' + c] else 'DEFAULT'
        d['CharClass.' + name] = 'DisplayMode.' + how
    return d


DERIVED_DEFAULTS = derived(DEFAULTS)


def shown(value, default):
    return str(value) if value == default else f'{value} [{default}]'


LINE = re.compile('^─{8}[─┬┼┴]─*$')


def crosses(text):
    return [(i, c) for i, c in enumerate(text) if c != '─']


def table(rows, st, width, what):
    """checks the table, returns the number of rows it takes"""
    col = rows[0].text.find('┬')
    if not re.match('^─+┬─*$', rows[0].text):
        return f'{what}: no table: {rows[0].text!r}'
    if len(rows[0].text) != max(width, col + 1) and width:
        return f'{what}: top line is {len(rows[0].text)} long'
    seen = {}
    order = []
    end = None
    for i, row in enumerate(rows[1:], 1):
        t = row.text
        if t.startswith('─'):
            end = i
            break
        if t[col:col + 1] != '│':
            return f'{what}: row {t!r} is not aligned'
        label = t[:col]
        if i == 1:
            if label.split() != (['SETTINGS', '[DERIVED]'] if st['debug'] >= 4 else ['SETTINGS']):
                return f'{what}: header {t!r}'
            continue
        name = label.strip()
        if label != name.rjust(col) or not name:
            return f'{what}: label {label!r}'
        if name in seen:
            return f'{what}: {name} is shown twice'
        seen[name] = row
        order.append(name)
    if end is None:
        return f'{what}: the table does not end'
    t = rows[end].text
    if crosses(t) != [(8, '┬'), (col, '┴')]:
        return f'{what}: closing line {t!r}'
    if width and len(t) != max(width, col + 1):
        return f'{what}: closing line is {len(t)} long'
    want = {k: (v, DEFAULTS[k]) for k, v in st.items()}
    if st['debug'] >= 4:
        want.update({k: (v, DERIVED_DEFAULTS[k]) for k, v in derived(st).items()})
    for k, (v, d) in want.items():
        row = seen.get(k)
        if row is None:
            return f'{what}: {k} is not shown'
        if row.text[col + 1:] != shown(v, d):
            return f'{what}: {k} is {row.text[col + 1:]!r} instead of {shown(v, d)!r}'
        label = row.cells[col - len(k):col]
        changed = any(s[term.BOLD] for _, s in label)
        if changed != (v != d) or changed != all(s[term.BOLD] for _, s in label):
            return f'{what}: {k} is {"" if changed else "not "}marked as changed'
        styles = {s for _, s in row.cells[col + 1:col + 1 + len(str(v))]}
        if len(styles) != 1:
            return f'{what}: value of {k} is in several styles'
    for k, row in seen.items():
        value = row.text[col + 1:]
        if not value or '<' in value:
            return f'{what}: {k} = {value[:80]!r} is not a setting'
        if st['debug'] < 4 and k.startswith(('effective', 'CharClass', 'debug_', 'read_mode')):
            return f'{what}: {k} is shown on level {st["debug"]}'
    return end + 1


def launch(args, level, width=80, data=b'', more=()):
    return sut.run_app([*(['-' + 'D' * level] if level else []), *args, *more], data, columns=width)


def holds(args, level, width=80, acc=None):
    st = model(args, level)
    what = f'{" ".join(args)} on level {level}, {width} wide'
    r = launch(args, level, width, b'a\x1b[1m\n')
    if st is None:
        if r.code != 2 or r.out or r.error or 'usage' not in r.err.lower():
            return f'{what}: not refused: {r.code}, {r.error}, {r.out[:100]!r}'
        if acc:
            acc.outcome('refused')
        return None
    if r.error or r.code != 0 or r.err:
        return f'{what}: {r.code}, {r.error}, {r.err[-300:]!r}'
    s = term.parse(r.out)
    if s.unsafe or s.final != term.DEFAULT:
        return f'{what}: unsafe {s.unsafe}, {term.show(s.final)} in the end'
    rows = s.rows
    if st['debug'] < 3:
        if any('SETTINGS' in x.text for x in rows[:3]):
            return f'{what}: unexpected table'
    else:
        if any(x.end != term.DEFAULT for x in rows[:30]):
            return f'{what}: style leaks from a row of the table'
        n = table(rows, st, width, what)
        if isinstance(n, str):
            return n
        rows = rows[n:]
        if any('SETTINGS' in x.text for x in rows) and not st['legend']:
            return f'{what}: second table'
    if acc:
        acc.state((tuple(sorted((k, str(v)) for k, v in st.items() if v != DEFAULTS[k])), st['debug']))
        acc.outcome(tuple(sorted(derived(st).items())))
    return None


# ------------------------------------------------------------------ report of reading

def reads(data, size, max_lines, max_bytes):
    """[(offset, bytes read)] and the number of bytes taken"""
    out, pos, off, lines = [], 0, 0, 0
    while chunk := data[pos:pos + size]:
        out.append((off, len(chunk)))
        pos += len(chunk)
        n = chunk.count(b'\n')
        if max_lines and lines + n >= max_lines:
            return out
        lines += n
        off += len(chunk)
        if max_bytes and off >= max_bytes:
            return out
    return out


READ = re.compile(r'^ *(\S+)│Read chunk #(\d+): len (\d+)(?: \[(.*)\])?$')


def report(data, size, max_lines, max_bytes, level, binary, decimal, acc=None):
    args = ['-D' * 1] * 0 + (['-b', '-w4'] if binary else [])
    args += [f'-f{size}'] if size else []
    args += [f'-L{max_lines}'] if max_lines else []
    args += [f'-B{max_bytes}'] if max_bytes else []
    args += ['--decimal-offsets'] if decimal else []
    what = f'{" ".join(args)} on level {level} with {len(data)} bytes {data[:12]!r}'
    r = launch(args, level, 80, data)
    if r.error or r.code != 0 or r.err:
        return f'{what}: {r.code}, {r.error}, {r.err[-300:]!r}'
    rows = [x.text for x in term.parse(r.out).rows]
    want = reads(data, size or 128, max_lines, max_bytes)
    got = []
    for t in rows:
        m = READ.match(t)
        if m:
            if int(m.group(2)) != len(got):
                return f'{what}: {t!r} has a wrong number'
            got.append((int(m.group(1), 10 if decimal else 16), int(m.group(3))))
            if level >= 4:
                off, n = got[-1]
                if (m.group(4) or '') != ' '.join(f'{b:02x}' for b in data[off:off + n]):
                    return f'{what}: {t!r} shows other bytes'
            elif level < 3 and m.group(4) is not None:
                return f'{what}: {t!r} shows the contents on this level'
    if got != want:
        return f'{what}: reads are {got} instead of {want}'
    lines = [t for t in rows if t.startswith('────────')]
    if level >= 3:
        lines = lines[1:]
    if any(len(t) != 80 for t in lines):
        return f'{what}: separators are not as wide as the terminal'
    kinds = [t[8] for t in lines]
    inner = kinds[1:-1]
    if kinds[:1] != ['┬'] or kinds[-1:] != ['┴'] or set(inner) - {'┼'} or len(kinds) < 2:
        return f'{what}: separators are {kinds}'
    if abs(len(inner) - len(want)) > 1:
        return f'{what}: {len(inner)} separators for {len(want)} reads'
    end = max(i for i, t in enumerate(rows) if t.startswith('────────'))
    begin = min(i for i, t in enumerate(rows) if t.startswith('────────┬')) if level < 3 else \
        next(i for i, t in enumerate(rows) if re.match('^────────┬─+┴─*$', t))
    for t in rows[begin:end]:
        if t and not t.startswith('────────') and t[8:9] != '│':
            return f'{what}: row {t!r} is not aligned'
    if any(t.strip() for t in rows[end + 1:]):
        return f'{what}: something follows the last separator'
    if acc:
        acc.state(('read', tuple(want), max_lines, max_bytes, level))
        for a, b in zip(want, want[1:]):
            acc.transition(a, b)
        acc.outcome(tuple(want))
    return None


FRAMES = [[], ['-b'], ['-m2', '-s'], ['-w5', '-b', '-d'], ['-v'], ['--no-offsets', '-C', '-']]


def inputs(n, q):
    yield b'x' * n
    if n:
        yield (b'a\n' * n)[:n]
        yield (b'\n' * n)[:n]
        yield ('\xe9'.encode() * n)[:n]


def jobs(tier):
    q = tier == 'quick'
    out = [('singles', l) for l in range(7)]
    out += [('pairs', i) for i in range(len(ARGS))]
    if not q:
        out += [('triples', i, j) for i in range(len(SMALL)) for j in range(len(SMALL))]
    out += [('widths', i) for i in range(len(FRAMES))]
    out += [('reads', n, tier) for n in (range(41) if q else range(201))]
    out.append(('big',))
    return out


def note(acc, case, m):
    acc.traces += 1
    if m:
        acc.fail(case, m)
    return not acc.full


def opt(acc, args, level, width=80):
    return note(acc, {'args': list(args), 'level': level, 'width': width}, holds(list(args), level, width, acc))


def rep(acc, data, *a):
    return note(acc, {'report': list(a), 'data': data.hex()}, report(data, *a, acc=acc))


def run(job, acc):
    kind = job[0]
    if kind == 'singles':
        for args in [[], *([a] for a in ARGS)]:
            if not opt(acc, args, job[1]):
                return
    elif kind == 'pairs':
        a = ARGS[job[1]]
        for b in ARGS:
            for level in (3, 4):
                if '-D' in (a, b) and level == 4:
                    continue
                acc.transition((a, level), b)
                if not opt(acc, [a, b], level):
                    return
    elif kind == 'triples':
        for c in SMALL:
            if not opt(acc, [SMALL[job[1]], SMALL[job[2]], c], 4 if '-D' not in (SMALL[job[1]], SMALL[job[2]], c) else 3):
                return
    elif kind == 'widths':
        for w in [*range(1, 241), 500, 1000]:
            for level in (3, 4):
                acc.state(('width', w, level, job[1]))
                if not opt(acc, FRAMES[job[1]], level, w):
                    return
    elif kind == 'reads':
        n = job[1]
        sizes = [1, 2, 3, 5, 8, 13, n, n + 1, None] if n < 20 else [3, 7, 16, n, None]
        for data in inputs(n, True):
            for size in sizes:
                if size == 0:
                    continue
                for ml, mb in ((None, None), (1, None), (2, None), (3, None), (None, 1), (None, 7), (2, 5), (5, 2)):
                    for level, binary, decimal in ((1, False, False), (2, True, True), (3, False, False), (4, True, False)):
                        if not rep(acc, data, size, ml, mb, level, binary, decimal):
                            return
    else:
        for n in (127, 128, 129, 255, 256, 257, 300, 4096, 5000):
            for size in (None, 64, 255, 256, 4096):
                if not rep(acc, b'y' * n, size, None, None, 1, False, n % 2 == 0):
                    return
    acc.sample(list(job))


def check(case):
    if 'report' in case:
        return report(bytes.fromhex(case['data']), *case['report'])
    return holds(case['args'], case['level'], case['width'])
