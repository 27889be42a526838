"""C01: the hex part of the binary dump reads back as the input."""
from .. import dump, plans
from ..dump import Bad

ID = 'C01'
TECHNIQUE = 'exhaustive enumeration of bounded inputs x geometries on the real dumper, reverse-parsing oracle'
LEVEL_NOTE = ('all byte words <= 3 over 16 byte roles, all unit words <= 2 (packed: 3), all byte pairs, '
              'runs up to 131073, all code points, all pairs of bytes after ESC and in CSI sequences, 1..16 columns, all option groups; longer mixes are not covered')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, byte words <= 4/5, unit words <= 3, 13 widths, runs to 8193'}
STATE = ('(options class, kind and length of the last lexical unit, bytes in the current row); a transition '
         'appends a lexical unit')
ASSUMPTIONS = ['values outside the alphabets behave as their class representative, except for pairs '
               '(all 65536 are run)']


def holds(run):
    cols = run.o.columns or None
    lines, total, cols = dump.bin_lines(run, cols)
    got = bytes.fromhex(''.join(''.join(ln.hexes) for ln in lines))
    if got != run.data:
        k = next((i for i, (a, b) in enumerate(zip(got, run.data)) if a != b), min(len(got), len(run.data)))
        raise Bad(f'hex column reads {got[max(0, k - 4):k + 8]!r}.. where the input has '
                  f'{run.data[max(0, k - 4):k + 8]!r}.. (at byte {k}; {len(got)} of {len(run.data)} bytes)')
    sep = ' ' if run.o.no_offsets else '│'
    for i, ln in enumerate(lines):
        n = len(ln.hexes)
        if n != cols and not (i == len(lines) - 1 and 0 < n < cols):
            raise Bad(f'row {i} of {len(lines)} has {n} bytes, with {cols} columns')
        if any(c != ' ' for c, _ in ln.gap) or len(ln.gap) != 3 * (cols - n) + 1 or ln.sep[0][0] != sep:
            raise Bad(f'row {i} is not aligned: {ln.row.text!r}')


def jobs(tier):
    o = plans.Opts(binary=True, columns=5)
    return [*plans.long_runs(o, every=4 if tier == 'quick' else 1), *plans.wide(o), *plans.long_sequences(o),
            *plans.widths(o), *plans.bin_plan(tier)]


def run(job, acc):
    o, spec = job
    dump.explore(acc, holds, o, plans.generate(spec))


def check(case):
    return dump.decide(holds, case)
