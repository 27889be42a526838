"""C12: marker details in text mode show the bytes they stand for."""
from .. import corpus, dump, plans, ref
from ..dump import Bad
from ..ref import Opts

ID = 'C12'
TECHNIQUE = 'exhaustive enumeration of parameter words and sequences x detail levels on the real dumper, decoder oracle'
LEVEL_NOTE = ('all SGR parameter words <= 3 over 12 parameters and <= 5 over the 6 extended color ones, all escape '
              'words <= 3, all control characters, numbers 0..300 and powers everywhere, levels -1..3, with and without separators')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, parameter words <= 4 and <= 7, all unit words <= 3'}
STATE = '(level, separators, parameters so far); a transition appends a parameter or a unit'
ASSUMPTIONS = ['numbers outside the alphabet behave as its representatives']

PARAMS = [b'', b'0', b'1', b'2', b'5', b'31', b'38', b'48', b'107', b'255', b'4:3', b'007']
VALUES = [*range(0, 301), 511, 512, 999, 1000, 9999, 65535, 65536, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 64, 10 ** 30]
EXT = [b'38', b'48', b'5', b'2', b'1', b'300']


def holds(run):
    o = run.o
    exp = ref.text_rows(run.data, o)
    rows = run.rows
    if len(exp) != len(rows):
        raise Bad(f'{len(rows)} rows instead of {len(exp)}')
    for i, (e, r) in enumerate(zip(exp, rows)):
        m = dump.diff_cells(e.cells, r.cells)
        if m:
            raise Bad(f'line {i}: {m}')
        if ref.details_level(o) == 2 and not o.ignore:
            # independent reading: markers with details give the sequences back
            back = b''
            for t in e.toks:
                back += t.raw
            got = read_back(r.text, e.toks, o)
            if got != back:
                raise Bad(f'line {i} reads {got!r} instead of {back!r}')


def read_back(text, toks, o):
    """input bytes from the printed characters of full details (needs to know lengths only)"""
    out = b''
    p = 0
    for t in toks:
        if t.cls == ref.ESC:
            if not o.no_separators:
                p += 1
            body = text[p + 1:p + len(t.raw)]
            p += len(t.raw) + (0 if o.no_separators else 1)
            out += b'\x1b' + body.encode('latin-1', 'replace')
        elif t.kind == 'ctl':
            out += bytes.fromhex(text[p + 1:p + 3])
            p += 3
        elif t.kind == 'tab':
            p += 2
            out += t.raw
        else:
            p += 1
            out += t.raw
    return out


def sgr_words(al, k, a, b):
    m = len(al)
    for i in range(a, b):
        w = []
        for _ in range(k):
            i, r = divmod(i, m)
            w.append(al[r])
        yield b'\x1b[' + b';'.join(reversed(w)) + b'm'


LEVELS = [Opts(marker=1), Opts(marker=2), Opts(marker=1, no_separators=True), Opts(marker=2, no_separators=True),
          Opts(), Opts(marker=-1), Opts(marker=3)]
LEVELS = [o.replace(no_line_numbers=True) for o in LEVELS]


def jobs(tier):
    q = tier == 'quick'
    out = []
    for i, o in enumerate(LEVELS):
        p = o.replace(buffer=16)
        for k in (0, 1, 2, 3):
            out.append((p, ('sgr', 'PARAMS', k, 0, 12 ** k)))
        out += [(o, s) for s in plans.upto('UNITS', 2)]
        out += [(o, ('ctl',)), (p, ('values',)), *plans.long_sequences(o)]
        out += [(p, ('esc', k, 0, 19 ** k, b'a')) for k in (1, 2)]
        if i < 4:
            out += [(p, s) for s in plans.esc_words(3, 2)]
            out += [(o, ('sgr1', 'PARAMS', 2, 0, 144))]
            for k in (4, 5):
                out += [(p, ('sgr', 'EXT', k, a, b)) for a, b in corpus.slices(6 ** k, 1 if k == 4 else 4)]
            if not q:
                out += [(p, ('sgr', 'PARAMS', 4, a, b)) for a, b in corpus.slices(12 ** 4, 8)]
                out += [(p, ('sgr', 'EXT', 6, a, b)) for a, b in corpus.slices(6 ** 6, 16)]
                out += [(p, s) for s in plans.cut('UNITS', 3, 24, b'\n')]
    if not q:
        out += [(LEVELS[0].replace(buffer=16), ('sgr', 'EXT', 7, a, b)) for a, b in corpus.slices(6 ** 7, 64)]
    return out


def generate(spec):
    if spec[0] in ('sgr', 'sgr1'):
        words = sgr_words(PARAMS if spec[1] == 'PARAMS' else EXT, *spec[2:5])
        return list(words) if spec[0] == 'sgr1' else corpus.packs(words, b'a\n', 300)
    if spec[0] == 'values':                        # every number everywhere
        forms = ('%d', '38;5;%d', '48;5;%d', '38;2;%d;0;0', '38;2;1;%d;0', '38;2;255;0;%d', '48;2;%d;%d;%d', '4:%d', '1;%d;', ';%d', '58;5;%d')
        return corpus.packs((b'\x1b[' + (f.replace('%d', str(v)) + 'm').encode() for f in forms for v in VALUES), b'a\n', 300)
    if spec[0] == 'ctl':
        return [bytes([b]) * n + t for b in [*range(32), 127] for n in (1, 2, 5) for t in (b'', b'a')]
    return plans.generate(spec)


def run(job, acc):
    o, spec = job
    if spec[0] in ('sgr', 'sgr1'):
        for i in range(spec[3], spec[4]):
            acc.state((o.marker, o.no_separators, spec[1], spec[2], i))
            acc.transition(o.marker, o.no_separators, spec[1], spec[2], i)
    dump.explore(acc, holds, o, generate(spec))


def check(case):
    return dump.decide(holds, case)
