"""C04: text mode keeps lines: one numbered row per line, with exactly the content of that line."""
import sys

from .. import dump, plans, ref, sut, term
from ..dump import Bad
from ..ref import Opts

ID = 'C04'
TECHNIQUE = 'exhaustive enumeration of bounded inputs x options on the real dumper against a reference line model'
LEVEL_NOTE = ('all byte words <= 3 over 16 byte roles, unit words <= 2 (packed: 3), all byte pairs, runs up to 131073, all code points, all pairs of bytes after ESC and in CSI sequences, up to 1001 '
              'lines, all marker levels, all option groups; line numbers by real runs up to 10001 lines (thorough: '
              '100001), around all powers of 2 and 10 up to 10^12 through the numbering function (when it is there)')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, byte words <= 4, unit words <= 3 at every marker level'}
STATE = ('(options class, kind and length of the last lexical unit, units in the current line up to 4); a transition '
         'appends a lexical unit')
ASSUMPTIONS = ['values outside the alphabets behave as their class representative, except for pairs '
               '(all 65536 are run)']


def holds(run):
    o = run.o
    exp = ref.text_rows(run.data, o)
    rows = run.rows
    if len(rows) != len(exp):
        raise Bad(f'{len(rows)} rows for {len(exp)} lines')
    for n, (e, r) in enumerate(zip(exp, rows), 1):
        want = ('' if o.no_line_numbers else f'{n:2d}│') + ''.join(c for c, _ in e.cells)
        if r.text != want:
            raise Bad(f'row {n} is {r.text!r} instead of {want!r}')
        if not r.eol:
            raise Bad(f'row {n} is not terminated')


def many(n):
    """n lines in one run: numbers only"""
    lim, sut.CapIO.limit = sut.CapIO.limit, 1 << 30
    try:
        r = sut.run(['-f', '64'], b'\n' * n, cpu=500)
    finally:
        sut.CapIO.limit = lim
    if r.error:
        raise Bad(r.error)
    rows = term.SGR_RE.sub('', r.out).split('\n')[:-1]
    if len(rows) != n:
        raise Bad(f'{len(rows)} rows for {n} lines')
    for i, row in enumerate(rows, 1):
        if row != f'{i:2d}│↵':
            raise Bad(f'row {i} is {row!r}')


def by_function():
    """the numbering function alone, for numbers that cannot be reached by runs"""
    m = sut.mods()
    cls = getattr(m.console, 'ConsoleOutputBuffer', None)
    if not sut.seams() or not hasattr(cls, 'write_with_line_num'):
        return 0
    m.settings.SettingsManager.app_settings = sut.parse_settings([])

    def numbered(v):
        buf = sut.CapIO()
        old, sys.stdout = sys.stdout, buf
        try:
            with sut.guard():
                cls().write_with_line_num('x', line_num=v)
        finally:
            sys.stdout = old
            sut.forget_buffers()
        return term.SGR_RE.sub('', buf.getvalue())
    try:
        if numbered(7) != ' 7│x':       # the runs are judged elsewhere; here it is another interface then
            return 0
    except Exception:
        return 0
    n = 0
    for p in [2 ** k for k in range(1, 40)] + [10 ** k for k in range(1, 13)]:
        for v in range(max(1, p - 2), p + 3):
            got = numbered(v)
            if got != f'{v:2d}│x':
                raise Bad(f'line {v} is printed as {got!r}')
            n += 1
    return n


def jobs(tier):
    return [('many', n) for n in (9999, 10001) + (() if tier == 'quick' else (99999, 100001))] + \
        [('function',)] + [*plans.long_runs(Opts(), every=4 if tier == 'quick' else 1), *plans.wide(Opts()), *plans.long_sequences(Opts(marker=1))] + plans.text_plan(tier)


def run(job, acc):
    if job[0] in ('many', 'function'):
        try:
            if job[0] == 'many':
                many(job[1])
                acc.traces += 1
            else:
                acc.counts['formatted_numbers'] += by_function()
        except Bad as e:
            acc.fail({job[0]: job[1:]}, str(e))
        return
    o, spec = job
    dump.explore(acc, holds, o, plans.generate(spec))


def check(case):
    try:
        if 'many' in case:
            return many(*case['many'])
        if 'function' in case:
            by_function()
            return None
    except Bad as e:
        return str(e)
    return dump.decide(holds, case)
