"""C02: the text column of the binary dump has one right glyph for every byte."""
from .. import dump, plans, ref
from ..dump import Bad

ID = 'C02'
TECHNIQUE = 'exhaustive enumeration of bounded inputs x geometries on the real dumper against a reference tokenizer'
LEVEL_NOTE = ('all byte words <= 3 over 16 byte roles, unit words <= 2 (packed: 3), all byte pairs, runs up to 131073, all code points, all pairs of bytes after ESC and in CSI sequences, '
              '1..16 columns and auto, all option groups')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, byte words <= 4/5, unit words <= 3, 13 widths, runs to 8193'}
STATE = ('(options class, kind and length of the last lexical unit, bytes in the current row); a transition '
         'appends a lexical unit')
ASSUMPTIONS = ['values outside the alphabets behave as their class representative, except for pairs '
               '(all 65536 are run)']


def holds(run):
    cols = run.o.columns or None
    lines, total, cols = dump.bin_lines(run, cols)
    exp = ref.bin_rows(run.data, run.o, cols or 4)
    if len(exp) != len(lines):
        raise Bad(f'{len(lines)} rows instead of {len(exp)}')
    for i, (e, ln) in enumerate(zip(exp, lines)):
        got = ''.join(c for c, _ in ln.chars)
        want = ''.join(c for c, _ in e.cells)
        if got != want:
            raise Bad(f'text column of row {i} ({e.data!r}) is {got!r} instead of {want!r}')


def jobs(tier):
    o = plans.Opts(binary=True, columns=16, decode=True)
    return [*plans.long_runs(o, every=4 if tier == 'quick' else 1), *plans.wide(o), *plans.long_sequences(o),
            *plans.widths(o), *plans.bin_plan(tier)]


def run(job, acc):
    o, spec = job
    dump.explore(acc, holds, o, plans.generate(spec))


def check(case):
    return dump.decide(holds, case)
