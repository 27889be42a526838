"""C14: automatic width of the binary table."""
from .. import corpus, dump, plans, ref, sut, term
from ..dump import Bad
from ..ref import Opts

ID = 'C14'
TECHNIQUE = 'exhaustive enumeration of terminal widths x options x inputs on the real dumper, geometry and differential oracle'
LEVEL_NOTE = ('all terminal widths 1..260 x 8 option sets x 3 inputs, monotony over the whole range; all unit words <= 1 '
              'and documents at 12 widths against the same width given explicitly')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'terminal widths 1..1200, unit words <= 2'}
STATE = '(options, terminal width, columns chosen); a transition is the next terminal width'
ASSUMPTIONS = ['the terminal width is taken from COLUMNS, as for every application']

B = Opts(binary=True)
OPTS = [B, B.replace(decimal=True), B.replace(no_offsets=True), B.replace(decode=True), B.replace(columns=0),
        B.replace(color_markers=True, focus=ref.CLASSES), B.replace(buffer=7), B.replace(columns=-1, no_offsets=True)]
LONG = bytes(range(32, 127)) * 5


def geometry(o, data, width):
    run = dump.Run(o, data, columns=width)
    lines, total, cols = dump.bin_lines(run)
    if cols < 4 or cols % 4:
        raise Bad(f'{cols} columns at width {width}')
    over = 0 if o.no_offsets else 9
    longest = max(len(ln.row.text) for ln in lines)
    if longest > max(width, over + 4 * 4 + 2):
        raise Bad(f'rows of {longest} characters in a terminal {width} wide')
    got = ''.join(''.join(ln.hexes) for ln in lines)
    if got != data.hex():
        raise Bad(f'{len(got) // 2} bytes of {len(data)} printed')
    return cols, [(r.cells, r.eol) for r in run.rows]


def decide(o, data, width):
    """(columns, message)"""
    try:
        cols, rows = geometry(o, data, width)
        ex = dump.Run(o.replace(columns=cols), data)
        if [(r.cells, r.eol) for r in ex.rows] != rows:
            raise Bad(f'differs from -w{cols} at terminal width {width}')
        return cols, None
    except Bad as e:
        return 0, str(e)


def monotone(o, lo, hi):
    prev = 0
    for w in range(lo, hi):
        cols, m = decide(o, LONG, w)
        if m:
            return m
        if cols < prev:
            return f'{cols} columns at terminal width {w}, {prev} at {w - 1}'
        prev = cols
    return None


def jobs(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(OPTS)):
        for a in range(1, 261 if q else 1201, 65):
            out.append(('widths', i, a - 1 or 1, a + 65))
        out.append(('words', i, 1 if q else 2))
    return out


def fail(acc, o, d, w, m):
    case = dump.case_of(o, d, columns=w)
    acc.fail(case, f'{dump.describe_case(case)}: {m}')
    return not acc.full


def run(job, acc):
    kind, i = job[:2]
    o = OPTS[i]
    if kind == 'widths':
        prev = 0
        for w in range(job[2], job[3]):
            for d in (LONG, b'a', plans.DOCS[16]):
                acc.traces += 1
                cols, m = decide(o, d, w)
                acc.state((i, w, cols))
                acc.transition(i, w, prev, cols)
                acc.outcome(cols)
                if m and not fail(acc, o, d, w, m):
                    return
                if d is LONG:
                    if not m and cols < prev and not fail(acc, o, d, w, f'{cols} columns, {prev} at {w - 1}'):
                        return
                    prev = cols
                elif not m and cols != prev and len(d) >= prev and not fail(acc, o, d, w, f'{cols} columns, not {prev}'):
                    return
        acc.sample({'options': o.argv(), 'widths': [job[2], job[3]]})
    else:
        for d in [*corpus.words(corpus.UNITS, job[2], 1), *plans.DOCS[1:]]:
            for w in (1, 20, 26, 27, 28, 43, 44, 60, 61, 80, 132, 200):
                acc.traces += 1
                cols, m = decide(o, d, w)
                acc.state((i, w, cols, d))
                if m and not fail(acc, o, d, w, m):
                    return


def check(case):
    o, d, w = dump.opts_of(case), bytes.fromhex(case['data']), case['columns']
    m = decide(o, d, w)[1] or monotone(o, max(1, w - 1), w + 1)
    return f'{dump.describe_case(case)}: {m}' if m else None
