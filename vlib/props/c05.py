"""C05: every byte gets the marker and the color of the class the syntax says it belongs to."""
from .. import corpus, dump, plans, ref
from ..dump import Bad
from ..ref import Opts

ID = 'C05'
TECHNIQUE = ('exhaustive enumeration of UTF-8 and escape sequence syntax words on the real parser, byte-by-byte '
             'reference automaton as the oracle')
LEVEL_NOTE = ('all words <= 4 over the 21 boundary bytes of the UTF-8 forms and <= 4 over the 19 boundary bytes of '
              'the escape syntax, all byte words <= 3, all byte pairs, all code points, all pairs of bytes after ESC and in CSI sequences, all unit words <= 2 (packed: 3); both modes')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, escape words <= 5, byte words <= 4, unit words <= 3, plain runs'}
STATE = '(mode, kind and length of the last lexical unit); a transition appends a lexical unit'
ASSUMPTIONS = ['bytes not in the alphabets behave as the boundary bytes of their range (all pairs are run)']

PK = plans.PACK_BUFFER


def holds(run):
    o = run.o
    if o.binary:
        lines, _, cols = dump.bin_lines(run, o.columns)
        exp = [r.cells for r in ref.bin_rows(run.data, o, cols)]
        got = [ln.chars for ln in lines]
    else:
        exp = [r.cells for r in ref.text_rows(run.data, o)]
        got = [r.cells if o.no_line_numbers else dump.text_prefix(r)[1] for r in run.rows]
    if len(got) != len(exp):
        raise Bad(f'{len(got)} rows instead of {len(exp)}')
    for i, (e, g) in enumerate(zip(exp, got)):
        m = dump.diff_cells(e, g)
        if m:
            raise Bad(f'row {i}: {m}')


def jobs(tier):
    q = tier == 'quick'
    out = [*plans.wide(Opts(binary=True, columns=16)), *plans.wide(Opts(marker=2, no_line_numbers=True))]
    for o in (Opts(binary=True, columns=16), Opts(marker=2, no_line_numbers=True)):
        out += plans.long_sequences(o)

    def add(o, specs):
        out.extend((o, s) for s in specs)
    bn = Opts(binary=True, columns=16)
    tx = Opts(marker=2, no_line_numbers=True)
    t0 = Opts(no_line_numbers=True)
    modes = (bn, bn.replace(decode=True), tx, t0)
    for o in modes:
        add(o, plans.upto('BYTES', 2))
        add(o, plans.cut('UNITS', 2, 2))
    for o in modes:
        for a in range(0, 256, 16):
            add(o.replace(buffer=PK), [('pairs', a, a + 16)])
        add(o.replace(buffer=PK), plans.cut('UTF8', 3, 4, b'A'))
        add(o.replace(buffer=PK), [('esc', k, 0, 19 ** k, b'a') for k in (1, 2)])
        add(o.replace(buffer=PK), plans.esc_words(3, 3, b'a'))
    for o in (bn.replace(decode=True), tx):
        add(o, plans.cut('BYTES', 3, 12))
        add(o.replace(buffer=PK), plans.cut('UTF8', 4, 64, b'A'))
    add(tx.replace(buffer=PK), plans.esc_words(4, 48, b'a'))
    add(t0.replace(buffer=PK), plans.cut('UNITS', 3, 24, b''))
    for o in modes:
        add(o, [('docs', 0, len(plans.DOCS))])
    if not q:
        add(bn.replace(buffer=PK), plans.esc_words(4, 48, b''))
        add(tx.replace(buffer=PK), plans.esc_words(5, 320, b'a'))
        for o in (bn.replace(decode=True), tx):
            add(o, plans.cut('UNITS', 3, 64))
            add(o.replace(buffer=PK), plans.cut('BYTES', 4, 64, b'\n'))
            add(o, plans.cut('UTF8', 3, 8))
            add(o, plans.cut('ESC', 3, 8))
            add(o, [('runs', a, a + 1, tuple(plans.SHORT_RUNS)) for a in range(len(corpus.UNITS))])
    return out


def run(job, acc):
    o, spec = job
    dump.explore(acc, holds, o, plans.generate(spec))


def check(case):
    return dump.decide(holds, case)
