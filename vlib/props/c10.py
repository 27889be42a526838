"""C10: offsets and the total are exact at any magnitude."""
from .. import corpus, dump, plans, sut, term
from ..dump import Bad
from ..ref import Opts, CLASSES

ID = 'C10'
TECHNIQUE = 'exhaustive enumeration of input lengths x widths x formats on the real dumper, counting oracle'
LEVEL_NOTE = ('all lengths 0..130 of 6 kinds of data x widths 1..9, 16, 33 x both formats; every length around powers '
              'of 2 and 10 up to 1.1 MB by real runs, around all powers up to 2^48 through the formatting function '
              '(when it is there under its name)')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, lengths 0..300, widths 1..40, real runs up to 17 MB'}
STATE = '(width, format, offset of the row or total); a transition is the next row'
ASSUMPTIONS = ['above 1.1 MB (thorough: 17 MB) rows are numbered as the formatting function formats the number']

KINDS = [b'a', b'\xff', '€'.encode(), b'\x1b[31m', b'\x00\n', b'a\xc3\xa9\x1b[m \x01\x1bM\t']


def number(cells, o, what):
    t = ''.join(c for c, _ in cells)
    if not t.endswith('│'):
        raise Bad(f'prefix of {what}: {t!r}')
    v = t[:-1].strip()
    try:
        if o.decimal:
            return int(v), len(t)
        if not v.startswith('0x'):
            raise ValueError
        return int(v, 16), len(t)
    except ValueError:
        raise Bad(f'offset of {what} is {v!r}')


def same_total(run):
    """limits of value, sum of rows; used for every input"""
    o = run.o
    lines, total, cols = dump.bin_lines(run, o.columns)
    pos = 0
    ln0 = None
    for i, ln in enumerate(lines):
        v, n = number(ln.prefix, o, f'row {i}')
        if v != pos:
            raise Bad(f'offset of row {i} is {ln.row.text[:n]!r}, {pos} bytes are before it')
        if ln0 is not None and n != ln0 and pos < 10 ** 6:
            raise Bad(f'prefix of row {i} is {n} characters wide, others {ln0}')
        ln0 = n
        pos += len(ln.hexes)
    v, n = number(total.cells, o, 'total')
    if v != len(run.data) or total.text[n:]:
        raise Bad(f'total is {total.text!r} for {len(run.data)} bytes')


def big(o, n, unit=b'a'):
    """cheap check of a long run: prefixes only"""
    data = (unit * (n // len(unit) + 1))[:n]
    lim, sut.CapIO.limit = sut.CapIO.limit, 1 << 30
    try:
        r = sut.run(o.argv(), data, cpu=500)
    finally:
        sut.CapIO.limit = lim
    if r.error:
        raise Bad(r.error)
    rows = r.out.split('\n')[:-1]
    w = o.columns
    if len(rows) != -(-n // w) + 1:
        raise Bad(f'{len(rows)} rows')
    for i, row in enumerate(rows):
        t = term.SGR_RE.sub('', row[:200])
        v, _ = number([(c, None) for c in t[:t.find('│') + 1]], o, f'row {i}')
        if v != min(n, i * w):
            raise Bad(f'offset of row {i} of {n} bytes by {w} is {t[:20]!r} instead of {min(n, i * w)}')


def magnitudes(limit):
    out = set()
    for p in [2 ** k for k in range(1, 49)] + [10 ** k for k in range(1, 15)]:
        out |= {p - 2, p - 1, p, p + 1, p + 2}
    return sorted(x for x in out if x <= limit)


def by_function(decimal):
    """formatting function alone, for magnitudes that cannot be run"""
    m = sut.mods()
    f = getattr(m.console.Console, 'format_prefix_with_offset', None)
    t = getattr(m.console.Console, 'format_total_size', None)
    if f is None or not sut.seams():
        return 0
    m.settings.SettingsManager.app_settings = sut.parse_settings(['-b'] + (['--decimal-offsets'] if decimal else []))
    o = Opts(binary=True, decimal=decimal)
    try:
        usable = all('7' in f(7) for f in (f, t) if f)     # the runs are judged elsewhere; another interface otherwise
    except Exception:
        usable = False
    if not usable:
        return 0
    n = 0
    for v in magnitudes(2 ** 48):
        for fn in (f, t):
            if fn is None:
                continue
            with sut.guard():
                s = fn(v)
            got, _ = number([(c, None) for c in term.SGR_RE.sub('', s)], o, f'{v} bytes')
            if got != v:
                raise Bad(f'offset {v} is printed as {s!r}')
            n += 1
    return n


def jobs(tier):
    q = tier == 'quick'
    out = []
    for dec in (False, True):
        o = Opts(binary=True, decimal=dec)
        for w in (*range(1, 10), 16, 33) if q else range(1, 41):
            out.append(('lengths', o.replace(columns=w), 0, 130 if q else 300))
        out.append(('docs', o))
        out.append(('function', o))
        for n in (65535, 65536, 65537, 99999, 100000, 100001):
            out.append(('big', o.replace(columns=n // 3), n))
        for n in (1048575, 1048576, 1048577, 1000001):
            out.append(('big', o.replace(columns=65536, buffer=65536), n))
        if not q:
            for n in (9999999, 10000001, 16777215, 16777217, 17825791):
                out.append(('big', o.replace(columns=65536, buffer=65536), n))
    return out


def run(job, acc):
    kind, o = job[:2]
    if kind == 'lengths':
        for unit in KINDS:
            for n in range(job[2], job[3]):
                d = (unit * (n // len(unit) + 1))[:n]
                dump.explore(acc, same_total, o, [d], model=False)
                acc.state((o.columns, o.decimal, n))
                acc.transition(o.columns, o.decimal, n, unit)
    elif kind == 'docs':
        for w in (1, 2, 3, 5, 7):
            for fi in ({}, {'focus': CLASSES}, {'ignore': CLASSES}, {'color_markers': True, 'decode': True},
                       {'buffer': 5}):
                dump.explore(acc, same_total, o.replace(columns=w, **fi), [d for d in plans.DOCS if d])
    elif kind == 'big':
        try:
            acc.traces += 1
            for k in range(-(-job[2] // o.columns)):
                acc.state((o.columns, o.decimal, k))
            big(o, job[2])
        except Bad as e:
            acc.fail({'big': job[2], 'columns': o.columns, 'decimal': o.decimal, 'buffer': o.buffer}, str(e))
    else:
        try:
            acc.counts['formatted_numbers'] += by_function(o.decimal)
        except Bad as e:
            acc.fail({'function': True, 'decimal': o.decimal}, str(e))


def check(case):
    try:
        if 'big' in case:
            big(Opts(binary=True, columns=case['columns'], decimal=case['decimal'], buffer=case['buffer']), case['big'])
        elif 'function' in case:
            by_function(case['decimal'])
        else:
            return dump.decide(same_total, case)
    except Bad as e:
        return str(e)
