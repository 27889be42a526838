"""C13: colored markers show what the sequence names, and nothing else changes."""
import itertools

from .. import corpus, dump, plans, ref, term
from ..dump import Bad
from ..ref import Opts, CLASSES
from .c12 import sgr_words

ID = 'C13'
TECHNIQUE = ('exhaustive enumeration of SGR parameter words x modes on the real dumper, terminal model and differential '
             'oracle (with against without the option)')
LEVEL_NOTE = ('all parameter words <= 3 over 20 parameters, <= 5 over the extended color ones, every single parameter '
              '0..300, all unit words <= 2, in 8 modes and focus/ignore groups')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, parameter words <= 4 and <= 6, unit words <= 3'}
STATE = '(mode, parameters so far); a transition appends a parameter or a unit'
ASSUMPTIONS = ['which parameters make a marker unreadable is decided as listed in the code: all but colors, dim, '
               'italic, overline and strike-through']

NAMED = {2: (term.DIM, 1), 3: (term.ITALIC, 1), 9: (term.CROSS, 1), 53: (term.OVER, 1)}
PARAMS = [b'%d' % p for p in (0, 1, 2, 3, 4, 7, 8, 9, 21, 22, 31, 39, 41, 49, 53, 93, 104, 55)] + [b'', b'5']
EXT = [b'38', b'48', b'5', b'2', b'1', b'300']


def shown_style(raw, start):
    """style of a cell that has `start`, with everything named in the sequence added"""
    body = raw[2:-1].rstrip(b' !"#$%&\'()*+,-./')
    ps = [int(p.split(b':')[0] or 0) for p in body.split(b';') if p]
    st = list(start)
    i = 0
    while i < len(ps):
        p = ps[i]
        i += 1
        if p in (38, 48):
            k = term.FG if p == 38 else term.BG
            if i + 1 < len(ps) and ps[i] == 5:
                st[k] = f'5;{ps[i + 1]}'
                i += 2
            elif i + 3 < len(ps) and ps[i] == 2:
                st[k] = '2;%d;%d;%d' % tuple(ps[i + 1:i + 4])
                i += 4
        elif p in NAMED:
            k, v = NAMED[p]
            st[k] = v
        elif p // 10 in (3, 4, 9, 10) and p % 10 < 8:
            st[term.FG if p // 10 in (3, 9) else term.BG] = str(p - (10 if p // 10 in (4, 10) else 0))
    return tuple(st)


def cells_of(run):
    if run.o.binary:
        lines, total, _ = dump.bin_lines(run, run.o.columns)
        rest = [(ln.prefix, ln.hexes, ln.gap, ln.sep) for ln in lines] + [total and total.cells]
        return [ln.chars for ln in lines], rest
    parts = [((), r.cells) if run.o.no_line_numbers else dump.text_prefix(r) for r in run.rows]
    return [c for _, c in parts], [p for p, _ in parts]


def holds(run):
    o = run.o
    plain = dump.Run(o.replace(color_markers=False), run.full_data)
    (got, rest), (base, brest) = cells_of(run), cells_of(plain)
    if rest != brest or [len(r) for r in got] != [len(r) for r in base]:
        raise Bad('prefixes or the layout changed')
    flat = [(c, i) for i, r in enumerate(got) for c in r]
    bflat = [c for r in base for c in r]
    p = 0
    for t in run.toks:
        n = len(ref.bin_cells(t, o)) if o.binary else len(ref.text_cells(t, o))
        mine, old = flat[p:p + n], bflat[p:p + n]
        p += n
        sep = int(not o.binary and t.cls == ref.ESC and t.cls not in o.ignore and not o.no_separators and
                  ref.details_level(o) > 0)
        for k, ((c, row), b) in enumerate(zip(mine, old)):
            if c[0] != b[0]:
                raise Bad(f'row {row}: {t.kind} {t.raw!r} is shown as {c[0]!r} instead of {b[0]!r}')
            want = b[1]
            if t.kind == 'sgr' and t.cls not in o.ignore and not (sep and k in (0, n - 1)):
                if k == sep:
                    want = shown_style(t.raw, term.DEFAULT)
                else:
                    nul = b[0] == ref.M1_SEP and not o.binary and ref.details_level(o) == 1
                    want = list(shown_style(t.raw, ref.st(*ref.DETAILS)))
                    if nul:
                        want[term.UL] = 0
                    want = tuple(want)
            if c[1] != want:
                raise Bad(f'row {row}: cell {k} {c[0]!r} of {t.kind} {t.raw!r} has style {term.show(c[1])} '
                          f'instead of {term.show(want)}')
    if p != len(flat):
        raise Bad(f'{len(flat)} cells instead of {p}')


CM = Opts(color_markers=True)
MODES = [CM, CM.replace(marker=1), CM.replace(marker=2), CM.replace(binary=True, columns=5),
         CM.replace(marker=2, no_separators=True, no_line_numbers=True), CM.replace(binary=True, columns=1),
         CM.replace(binary=True, columns=16, decode=True, no_offsets=True),
         CM.replace(marker=1, focus=CLASSES), CM.replace(binary=True, columns=3, focus=CLASSES),
         CM.replace(marker=2, ignore=CLASSES[:3], focus=CLASSES[3:]), CM.replace(ignore=CLASSES),
         CM.replace(binary=True, columns=4, ignore=CLASSES)]


def jobs(tier):
    q = tier == 'quick'
    out = []
    for i, o in enumerate(MODES):
        p = o.replace(buffer=16)
        out += [(p, ('sgr', 'PARAMS', k, 0, 20 ** k)) for k in (0, 1, 2)]
        out += [(p, ('sgr', 'EXT', k, 0, 6 ** k)) for k in (3, 4)]
        out.append((p, ('single', 0, 301)))
        out += plans.long_sequences(o, 300)
        out += [(o, s) for s in plans.upto('UNITS', 2)]
        out.append((o, ('docs', 0, len(plans.DOCS))))
        out += [(o, ('alone', 'PARAMS', 2, 0, 400))]
    for o in (MODES[1], MODES[3]) if q else MODES:
        p = o.replace(buffer=16)
        out += [(p, ('sgr', 'PARAMS', 3, a, b)) for a, b in corpus.slices(20 ** 3, 8)]
        out += [(p, ('sgr', 'EXT', 5, a, b)) for a, b in corpus.slices(6 ** 5, 8)]
        if not q:
            out += [(p, ('sgr', 'EXT', 6, a, b)) for a, b in corpus.slices(6 ** 6, 32)]
    if not q:
        for o in (MODES[2], MODES[3]):
            out += [(o.replace(buffer=16), ('sgr', 'PARAMS', 4, a, b)) for a, b in corpus.slices(20 ** 4, 64)]
            out += [(o.replace(buffer=16), s) for s in plans.cut('UNITS', 3, 32, b'\n')]
    return out


def generate(spec):
    if spec[0] in ('sgr', 'alone'):
        words = list(sgr_words(PARAMS if spec[1] == 'PARAMS' else EXT, *spec[2:5]))
        return [w + b'a' for w in words] if spec[0] == 'alone' else list(corpus.packs(words, b'a', 300))
    if spec[0] == 'single':
        return [b'a\x1b[%dmb\x1b[38;5;%dm\xff\x1b[48;2;%d;0;%dm\n\x1b[%d;1mx' % (p, p, p, p, p)
                for p in range(spec[1], spec[2])]
    return plans.generate(spec)


def run(job, acc):
    o, spec = job
    if spec[0] == 'sgr':
        for i in range(spec[3], spec[4]):
            acc.state((tuple(o.argv()), spec[1], spec[2], i))
            acc.transition(tuple(o.argv()), spec[1], spec[2], i)
    dump.explore(acc, holds, o, generate(spec))


def check(case):
    return dump.decide(holds, case)
