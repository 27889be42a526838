"""C11: the application processes everything to the end, whatever the options and the input."""
import itertools

from .. import corpus, dump, plans, ref, sut, term
from ..dump import Bad
from ..ref import Opts, CLASSES

ID = 'C11'
TECHNIQUE = ('exhaustive enumeration of option pairs, option values, terminal widths and syntax words on the whole '
             'application under CPU and output watchdogs')
LEVEL_NOTE = ('all pairs of 50 option settings with extreme values x 5 documents, terminal widths 0..200, all CSI '
              'parameter words <= 4 over 9 bytes, all runs; exit code, stderr and completeness of the data')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all triples of option settings, parameter words <= 5'}
STATE = '(set of options, document); a transition adds an option or a lexical unit'
ASSUMPTIONS = ['10 s of CPU and 64 MB of output are enough for every run that terminates']

MENU = [
    {'binary': True}, {'marker': -2 ** 31}, {'marker': -1}, {'marker': 0}, {'marker': 1}, {'marker': 2}, {'marker': 3},
    {'marker': 10 ** 9}, {'no_separators': True}, {'no_line_numbers': True},
    {'columns': -10 ** 9}, {'columns': -1}, {'columns': 0}, {'columns': 1}, {'columns': 3}, {'columns': 10 ** 4},
    {'decode': True}, {'decimal': True}, {'no_offsets': True}, {'color_markers': True},
    {'debug': 1}, {'debug': 2}, {'debug': 3}, {'debug': 4}, {'debug': 9},
    {'buffer': -1}, {'buffer': 0}, {'buffer': 1}, {'buffer': 3}, {'buffer': 10 ** 9},
    {'max_lines': 1}, {'max_lines': 2}, {'max_lines': 10 ** 30}, {'max_bytes': 1}, {'max_bytes': 9},
    {'max_bytes': 10 ** 30},
    *[{'focus': [c]} for c in CLASSES], *[{'ignore': [c]} for c in CLASSES],
    {'focus': list(CLASSES)}, {'ignore': list(CLASSES)},
]
DATA = [b'', b'\n', plans.DOCS[7] + plans.DOCS[9] + b'\xc3\xa9\xff',
        b'\x1b[>4;1m\x1b[38;5m\x1b[;;m\x1b[4:3m\x1b[ m\x1b(', bytes(range(256)) + b'\n\n\xf0\x9f\x98\x80']
PARAMS = [bytes([b]) for b in b'05;:<?9 8']


def join(*parts):
    kw = {}
    for p in parts:
        if any(k in kw for k in p):
            return None
        kw.update(p)
    if 'decimal' in kw and 'no_offsets' in kw or 'focus' in kw and 'ignore' in kw and \
            set(kw['focus']) & set(kw['ignore']):
        return None
    return kw


def verify(o, data, columns=None):
    r = sut.run_app(o.argv(), data, columns=columns)
    if r.error:
        return r.error
    if r.code != 0:
        return f'exit code {r.code}, {r.err[:200]!r}'
    if r.err:
        return f'standard error: {r.err[:200]!r}'
    if o.debug:
        return None
    if not r.out.endswith('\n'):
        return 'output is not terminated'
    rows = term.parse(r.out[:-1]).rows
    cut = ref.limited(data, o)
    if not o.binary:
        exp = [''.join(c for c, _ in x) for x in ref.text_expected(data, o)]
        got = [x.text for x in rows]
        if exp != got:
            return f'{len(got)} rows with {sum(map(len, got))} characters instead of {len(exp)} with ' \
                   f'{sum(map(len, exp))}'
        return None
    run = dump.Run.__new__(dump.Run)
    run.o, run.full_data, run.columns, run.script, run.res = o, data, columns, None, r
    run._data = run._toks = None
    run._screen = term.parse(r.out[:-1])
    try:
        cols = o.columns if o.columns and o.columns > 0 else None
        lines, _, _ = dump.bin_lines(run, cols)
    except Bad as e:
        return str(e)
    got = ''.join(''.join(ln.hexes) for ln in lines)
    if got != cut.hex():
        return f'{len(got) // 2} bytes printed instead of {len(cut)}'
    return None


def go(acc, o, data, columns=None):
    acc.traces += 1
    m = verify(o, data, columns)
    if m:
        case = dump.shrink(lambda c: verify(dump.opts_of(c), bytes.fromhex(c['data']), columns),
                           dump.case_of(o, data, columns=columns))
        m = verify(dump.opts_of(case), bytes.fromhex(case['data']), columns) or m
        acc.fail(case, f'{dump.describe_case(case)}: {m}')
    return not acc.full


def jobs(tier):
    q = tier == 'quick'
    out = [('options', i) for i in range(len(MENU))]
    if not q:
        out += [('triples', i) for i in range(len(MENU))]
    out += [('columns', a, a + 25) for a in range(0, 200 if q else 400, 25)]
    for a, b in corpus.slices(9 ** 4, 12):
        out.append(('params', 4, a, b))
    if not q:
        out += [('params', 5, a, b) for a, b in corpus.slices(9 ** 5, 96)]
    for a in range(len(corpus.UNITS)):
        out.append(('runs', a))
    return out


def run(job, acc):
    kind = job[0]
    if kind in ('options', 'triples'):
        a = MENU[job[1]]
        rest = [()] + [(b,) for b in MENU[job[1] + 1:]] if kind == 'options' else \
            itertools.combinations(MENU[job[1] + 1:], 2)
        for bs in rest:
            kw = join(a, *bs)
            if kw is None:
                continue
            for binary in ({kw.get('binary', False), True} if kind == 'options' else {kw.get('binary', False)}):
                o = Opts(**{**kw, 'binary': binary})
                for i, d in enumerate(DATA if kind == 'options' else DATA[2:4]):
                    acc.state((tuple(o.argv()), i))
                    acc.transition(tuple(o.argv()), i, job[1])
                    if not go(acc, o, d):
                        return
                acc.outcome(tuple(o.argv()))
        acc.sample(o.argv() if bs else [])
    elif kind == 'columns':
        for c in range(job[1], job[2]):
            for o in (Opts(binary=True), Opts(binary=True, no_offsets=True), Opts(), Opts(debug=1, binary=True),
                      Opts(debug=4), Opts(binary=True, decimal=True, columns=0)):
                acc.state(('columns', c, tuple(o.argv())))
                for d in (b'\n', DATA[2]):
                    if not go(acc, o, d, c):
                        return
    elif kind == 'params':
        words = [b'\x1b[' + w + f for w in corpus.words_range(PARAMS, job[1], job[2], job[3]) for f in (b'm',)]
        if job[1] == 4:
            for w in corpus.words(PARAMS, 3, 0):
                if job[2] == 0:
                    words += [b'\x1b[' + w + b'm', b'\x1b[' + w]
        for d in corpus.packs(words, b'a', 400):
            for o in (Opts(marker=1, buffer=16), Opts(binary=True, columns=5, buffer=16, color_markers=True)):
                if not go(acc, o, d):
                    return
            acc.state(('params', d))
            acc.transition('params', d)
    else:
        u = corpus.UNITS[job[1]]
        for n in (1, 2, 3, 50, 700):
            for o in (Opts(binary=True), Opts(binary=True, columns=1, decode=True), Opts(marker=2)):
                if n > 100 and o.columns == 1:
                    continue
                acc.state(('runs', u, n))
                if not go(acc, o, u * n):
                    return


def check(case):
    m = verify(dump.opts_of(case), bytes.fromhex(case['data']), case.get('columns'))
    return f'{dump.describe_case(case)}: {m}' if m else None
